"""C10: refinement reaches its target without overrunning its limits."""

from .. import gen, lib, refine

RULE = (
    "A case refines one random model 2 to 5 times with random targets (below, at and above the number "
    "of clusters and of pinned clusters), minimum sizes, iteration counts, group testing and "
    "selections, and compares the clusters and their sizes before and after with the bounds. "
    "Non-trivial: some refinement changed the number of clusters."
)
QUICK = {"cases": 360, "budget": 120}
THOROUGH = {"cases": 12000, "budget": 560}
LARGE = (60, 15)
REQUIRED = {"large_cases": 1,
    "refinements": 800,
    "shrinking": 200,
    "exact_when_shrinking": 120,
    "splitting": 150,
    "exact_when_splitting": 15,
    "unchanged_target": 200,
    "sizes_compared": 1500,
    "with_pinned_clusters": 60,
    "minimum_above_what_can_move": 50,
}
ASSUMPTIONS = ["splitting at random leaves a half of 40 features empty with probability 2**-39"]


def holding(ctx, rng, idx, before, free):
    """A minimum between the features of a cluster that can move and all that it has."""
    sizable = [c for c in sorted(free) if len(before.clusters[c]) > 3]
    if not sizable:
        return {}
    c = rng.choice(sizable)
    feats = sorted(before.clusters[c])
    idx.pin_features(feats, False)
    idx.pin_features(rng.sample(feats, rng.randint(1, len(feats) // 2)))
    pinned = len([f for f in refine.Before(idx).fpins if f in before.clusters[c]])
    least = len(feats) - pinned + 1
    if least > len(feats) - 1:
        return {}
    ctx.ev("minimum_above_what_can_move")
    return {
        "minimum_cluster_features": rng.randint(least, len(feats) - 1), "move_acceptance_probability": 1, "tolerance": 0, "iterations": 4,
        "target_clusters": None,
    }  # fmt: skip


def broad_case(ctx, rng):
    """Clusters of more features than are otherwise around."""
    idx, items = lib.broad_index(ctx, rng)
    feats = set(lib.feature_ids(idx))
    idx.initialise_clusters(2)
    for target, iterations in ((1, 1), (6, 1), (3, 2)):
        ctx.note(f"refine to {target} clusters of {len(feats)} features")
        idx.refine_clusters(iterations=iterations, target_clusters=target)
        after = refine.Before(idx)
        ctx.equal(len(after.clusters), target, "refining did not reach the target")
        ctx.equal(set(after.member), feats, "refining lost or invented features")
    ctx.distinct(items)


def case(ctx, rng, i):
    if i == 1:
        return broad_case(ctx, rng)
    big = rng.random() < 0.12 and gen.SIZE == 1
    if big:  # enough features that splitting can't come out empty
        idx, items, style = refine.model(ctx, rng, docs=(60, 90), vocab=(150, 200), pins=False, clusters=rng.choice([1, 2, 3]), vanish=False)
    elif gen.SIZE > 1 and i // LARGE[0] % 2 == 0:
        idx, items, style = refine.model(ctx, rng, pins=False, clusters=rng.choice([150, 300]))
    else:
        idx, items, style = refine.model(ctx, rng)
    changed = False
    for step in range(rng.randint(2, 5)):
        before = refine.Before(idx)
        if not before.clusters:
            return
        kw = refine.options(rng, idx, before)
        selected, free = refine.scope(before, kw)
        if rng.random() < 0.5:
            n = len(selected)
            kw["target_clusters"] = rng.choice([1, max(1, n - 1), max(1, n // 2), n, n + 1, n + 3, max(1, len(selected & before.cpins))])
        if big and rng.random() < 0.7:
            kw["minimum_cluster_features"] = 1
            kw["target_clusters"] = rng.randint(1, max(1, sum(map(len, before.clusters.values())) // 40))
        if gen.SIZE > 1 and rng.random() < 0.5:  # nearly all of them at once
            kw["target_clusters"], kw["iterations"] = rng.choice([2, 3, max(1, len(selected) // 2)]), rng.choice([1, 2])
        elif not big and rng.random() < 0.3:
            kw |= holding(ctx, rng, idx, before, free)
            before = refine.Before(idx)
        ctx.note(f"refine {refine.show(kw)} clusters { {c: len(f) for c, f in before.clusters.items()} } pinned {sorted(before.cpins)} features {sorted(before.fpins)[:20]}")
        idx.refine_clusters(**kw)
        after = refine.Before(idx)
        new = set(after.clusters) - set(before.clusters)
        pinned = selected & before.cpins
        target = kw.get("target_clusters") or len(selected)
        # pinned clusters count, and at least one other cluster has to remain
        t = max(1, target - len(pinned))
        held = {before.member[f] for f in before.fpins} & free
        now = (free | new) & set(after.clusters)
        minimum = kw.get("minimum_cluster_features", 1)
        info = dict(target=target, now=sorted(now), pinned=sorted(pinned), held_by_pinned_features=sorted(held), before={c: len(before.clusters[c]) for c in sorted(free)})

        for c in new:
            ctx.check(c > before.top, "a new cluster reuses an id in the range already assigned", new=sorted(new), highest=before.top)
        ctx.check(len(now) <= max(t, len(held)), "more clusters than the target after refining", **info)
        if free and t < len(free):
            ctx.ev("shrinking")
            ctx.check(not new, "a cluster was created while shrinking", **info)
            if minimum == 1:
                ctx.equal(len(now), max(t, len(held)), "shrinking did not reach the target", **info)
                ctx.ev("exact_when_shrinking")
        elif free and t > len(free):
            ctx.ev("splitting")
            movable = sum(len(before.clusters[c]) for c in free) - len(before.fpins)
            if not before.fpins and minimum == 1 and movable >= 40 * t:
                ctx.equal(len(now), t, "splitting did not reach the target", **info)
                ctx.ev("exact_when_splitting")
        elif free:
            ctx.ev("unchanged_target")
            ctx.check(not new, "a cluster was created without asking for more", **info)
        if t <= len(free):
            for c in free & set(after.clusters) if t < len(free) else free:
                b, a = len(before.clusters[c]), len(after.clusters.get(c, ()))
                if b > minimum:
                    ctx.check(a >= minimum, "a cluster was drained below the minimum", cluster=c, was=b, now_size=a, minimum=minimum, **info)
                    ctx.ev("sizes_compared")
        changed |= len(after.clusters) != len(before.clusters)
        ctx.ev("refinements")
        ctx.ev("with_pinned_clusters", bool(pinned))
        ctx.state("outcomes", (sorted(map(len, before.clusters.values())), t, sorted(map(len, after.clusters.values()))))
    if changed:
        ctx.distinct((items, sorted(after.member.items())))
    if i % 90 == 0:
        ctx.sample({"style": style, "options": refine.show(kw), "sizes": sorted(map(len, after.clusters.values()))})
