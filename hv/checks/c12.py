"""C12: refinement moves features where the objective says they belong."""

import inspect

from pyroaring import BitMap

import hyperreal.index

from .. import lib, ref, refine

RULE = (
    "A case runs single dense refinement steps (every move accepted, no minimum, no group testing; "
    "same target or shrinking; with and without selection, pins and probe query) on one random model "
    "and compares where every feature ended up, and which clusters were dissolved, with contributions "
    "and objectives recomputed from raw document sets. Non-trivial: a feature had to move, and had a "
    "unique best cluster."
)
QUICK = {"cases": 420, "budget": 120}
THOROUGH = {"cases": 14000, "budget": 560}
LARGE = (60, 15)
REQUIRED = {"large_cases": 1,
    "steps": 800,
    "features_with_one_best_cluster": 4000,
    "features_that_had_to_move": 2000,
    "steps_with_probe": 100,
    "steps_with_pins": 100,
    "dissolved_clusters": 100,
}
ASSUMPTIONS = [
    "contributions within 1e-9 of each other count as tied",
    "dissolved clusters are only judged when the objectives at the boundary are not tied",
]
EPS = 1e-9
DIRECT = getattr(hyperreal.index, "measure_feature_contribution_to_cluster", None)


def direct_comparison(ctx, rng, idx, clusters, docs, probe):
    """The measurement itself, if it can still be called as documented."""
    try:
        if list(inspect.signature(DIRECT).parameters) != ["idx", "group_key", "feature_group", "add_features", "probe_query"]:
            return
    except (TypeError, ValueError):
        return
    c = rng.choice(sorted(clusters))
    group = clusters[c]
    others = [f for f in docs if f not in group]
    adds = set(rng.sample(others, min(len(others), 12))) | set(rng.sample(sorted(group), rng.randint(0, min(2, len(group)))))
    twin = lib.Index(idx.db_path, pool=idx.pool)
    try:
        out = DIRECT(twin, ("k", c), set(group), adds, BitMap(probe) if probe is not None else None)
    finally:
        twin.close()
    if not isinstance(out, tuple) or len(out) != 6:
        return
    key, obj, rem, rem_d, add, add_d = out
    ctx.equal(key, ("k", c), "measured another cluster")
    want = ref.objective([docs[f] for f in group], probe)
    ctx.check(abs(obj - want) <= EPS, "the objective of a cluster is wrong", got=obj, want=want, cluster=sorted(group))
    ctx.equal((set(rem), len(rem)), (group, len(group)), "not every feature of the cluster was measured")
    ctx.equal((set(add), len(add)), (adds - group, len(adds - group)), "not every candidate was measured")
    for f, d in list(zip(rem, rem_d)) + list(zip(add, add_d)):
        w = ref.contribution(f, group, docs, probe)
        ctx.check(abs(d - w) <= EPS, "the contribution of a feature is wrong", feature=f, member=f in group, got=d, want=w,
                  docs=sorted(docs[f]), group={g: sorted(docs[g])[:20] for g in sorted(group)}, probe=probe)  # fmt: skip
        ctx.ev("contributions_compared")


def case(ctx, rng, i):
    idx, items, style = refine.model(ctx, rng, docs=(3, 40), vocab=(2, 40))
    decisive = False
    for step in range(rng.randint(2, 4)):
        before = refine.Before(idx)
        if not before.clusters:
            return
        docs = lib.index_docs(idx)
        kw = dict(iterations=1, move_acceptance_probability=1, minimum_cluster_features=0, group_test_batches=0)
        live = sorted(before.clusters)
        if rng.random() < 0.35:
            kw["cluster_ids"] = rng.sample(live, rng.randint(1, len(live)))
        p = refine.probe(rng, idx)
        if p is not None:
            kw["probe_query"] = p
        probe = None if p is None else set(p)
        selected, free = refine.scope(before, kw)
        pinned = selected & before.cpins
        if rng.random() < 0.4 and len(free) > 1:
            kw["target_clusters"] = len(pinned) + rng.randint(1, len(free) - 1)
        ctx.note(f"step {refine.show(kw)} clusters { {c: sorted(f) for c, f in before.clusters.items()} } pins {sorted(before.fpins)} {sorted(before.cpins)}")

        d = lambda f: docs[f] if probe is None else docs[f] & probe
        objective = {c: ref.objective([d(f) for f in before.clusters[c]]) for c in free}
        t = max(1, kw.get("target_clusters", len(selected)) - len(pinned))
        held = {before.member[f] for f in before.fpins}
        movable = {f for c in free for f in before.clusters[c]} - before.fpins
        dissolved = set()
        judge = bool(movable) and not (len(free) == 1 == t)
        if t < len(free) and judge:
            can = sorted(free - held, key=objective.get)
            k = min(len(free) - t, len(can))
            dissolved = set(can[:k])
            if k and k < len(can) and objective[can[k]] - objective[can[k - 1]] <= EPS:
                ctx.ev("dissolution_tied")
                judge = False
        idx.refine_clusters(**kw)
        after = refine.Before(idx)
        ctx.ev("steps")
        if judge:
            ctx.ev("steps_with_probe", p is not None)
            ctx.ev("steps_with_pins", bool(before.fpins or pinned))
            if dissolved:
                ctx.ev("dissolved_clusters", len(dissolved))
                ctx.check(
                    not (dissolved & set(after.clusters)), "the clusters dissolved are not those with the lowest objective",
                    expected=sorted(dissolved), remaining=sorted(after.clusters), objectives=objective,
                )  # fmt: skip
            survivors = free - dissolved
            for f in movable:
                gain = {c: ref.contribution(f, before.clusters[c], docs, probe) for c in free}
                top = max(gain.values())
                best = {c for c, g in gain.items() if g >= top - EPS}
                was, to = before.member[f], after.member[f]
                allowed = best - dissolved
                if best & dissolved:
                    # out of a dissolving cluster anywhere, into one not at all
                    allowed |= survivors if was in dissolved else {was}
                ctx.check(
                    to in allowed, "a feature was not moved to the cluster where it contributes most",
                    feature=f, was=was, now=to, expected=sorted(allowed), contributions=gain, dissolved=sorted(dissolved),
                    documents=sorted(docs[f]), probe=None if probe is None else sorted(probe),
                )  # fmt: skip
                if len(allowed) == 1:
                    ctx.ev("features_with_one_best_cluster")
                    if allowed != {was}:
                        ctx.ev("features_that_had_to_move")
                        decisive = True
        if DIRECT is not None:
            direct_comparison(ctx, rng, idx, after.clusters, docs, probe)
        ctx.state("models", sorted(after.member.items()))
    if decisive:
        ctx.distinct((items, sorted(after.member.items())))
    if i % 100 == 0:
        ctx.sample({"style": style, "objectives": objective, "dissolved": sorted(dissolved)})
