"""C09: refinement conserves features and respects pins and scope."""

import inspect

from .. import lib, refine

RULE = (
    "A case refines one random model (random, disjoint, duplicate, nested and topical features, "
    "features of no documents, pinned features and clusters) 2 to 5 times with random options "
    "(selection, target, minimum size, tolerance, acceptance, group testing, probe query, "
    "iterations) and accounts for every feature and pin of the model before and after. Where the index "
    "has the low level refinement of a grouping in memory, groupings are refined with it as well. "
    "Non-trivial: some refinement moved features."
)
QUICK = {"cases": 360, "budget": 120}
THOROUGH = {"cases": 12000, "budget": 560}
LARGE = (24, 25)
REQUIRED = {"large_cases": 1,
    "refinements": 800,
    "refinements_that_moved": 300,
    "features_accounted": 10000,
    "with_pinned_features": 80,
    "with_pinned_clusters": 80,
    "with_selection": 150,
    "with_probe": 100,
    "with_group_tests": 100,
}
ASSUMPTIONS = ["an empty probe query counts as no probe query, as in the code"]

LOW_LEVEL = {
    "cluster_feature", "iterations", "minimum_cluster_features", "pinned_features", "probe_query",
    "target_clusters", "tolerance", "move_acceptance_probability", "group_test_batches", "group_test_top_k",
}


def low_level(ctx, rng, idx):
    """The documented low level entry: refines a grouping that isn't saved."""
    call = getattr(idx, "_refine_feature_groups", None)
    try:
        if call is None or set(inspect.signature(call).parameters) != LOW_LEVEL:
            return
    except (TypeError, ValueError):
        return
    before = refine.Before(idx)
    groups = before.clusters
    if rng.random() < 0.4:  # any grouping of features will do
        feats = rng.sample(sorted(before.member), rng.randint(1, len(before.member)))
        groups = {}
        keys = rng.sample(range(1, 60), rng.randint(1, 8))
        for f in feats:
            groups.setdefault(rng.choice(keys), set()).add(f)
    kw = refine.options(rng, idx, before)
    kw.pop("cluster_ids", None)
    if rng.random() < 0.4:
        kw["target_clusters"] = len(groups) + rng.randint(1, 6)
    kw.setdefault("group_test_batches", rng.choice([None, 0, 1]))
    feats = sorted(f for fs in groups.values() for f in fs)
    pins = set(rng.sample(feats, rng.randint(0, len(feats) // 2))) if rng.random() < 0.5 else set()
    where = {f: c for c, fs in groups.items() for f in fs}
    model = lib.model_rows(idx)
    ctx.note(f"low level refine {refine.show(kw)} {len(feats)} features in {len(groups)} groups, pinned {sorted(pins)[:20]}")
    out = call({c: set(fs) for c, fs in groups.items()}, pinned_features=pins, **kw)[0]
    ctx.equal(sorted(f for fs in out.values() for f in fs), feats, "the refined groups don't have every feature exactly once")
    for f in pins:
        ctx.check(f in out.get(where[f], ()), "a pinned feature left its group", feature=f, group=where[f])
    ctx.check(lib.model_rows(idx) == model, "refining groups in memory changed the model")
    ctx.ev("low_level_refinements")
    ctx.ev("low_level_growing", kw.get("target_clusters", 0) > len(groups))


def case(ctx, rng, i):
    idx, items, style = refine.model(ctx, rng)
    moved_any = 0
    for step in range(rng.randint(2, 5)):
        before = refine.Before(idx)
        kw = refine.options(rng, idx, before)
        ctx.note(f"refine {refine.show(kw)} pinned features {sorted(before.fpins)[:20]} clusters {sorted(before.cpins)}")
        index_before = lib.index_docs(idx)
        selection = list(kw["cluster_ids"]) if "cluster_ids" in kw else None
        probe = kw.get("probe_query")
        probe_copy = probe.copy() if probe is not None else None
        idx.refine_clusters(**kw)
        ctx.equal(kw.get("cluster_ids"), selection, "the selection passed in was changed")
        if probe is not None:
            ctx.check(probe == probe_copy, "the probe query passed in was changed")
        after = refine.Before(idx)
        selected, free = refine.scope(before, kw)

        lost = set(before.member) - set(after.member)
        gained = set(after.member) - set(before.member)
        ctx.check(not lost and not gained, "refining lost or invented features", lost=sorted(lost)[:10], gained=sorted(gained)[:10])
        new = set(after.clusters) - set(before.clusters)
        allowed = free | new
        for f, c in before.member.items():
            to = after.member[f]
            if c not in free:
                ctx.check(to == c, "a feature outside the refined clusters was moved", feature=f, was=c, now=to, selected=sorted(selected), pinned=sorted(before.cpins))
            elif f in before.fpins:
                ctx.check(to == c, "a pinned feature was moved", feature=f, was=c, now=to)
            else:
                ctx.check(to in allowed, "a feature was moved outside the refined clusters", feature=f, was=c, now=to, selected=sorted(selected), pinned=sorted(before.cpins))
        ctx.ev("features_accounted", len(before.member))
        ctx.equal(after.fpins, before.fpins, "refining changed which features are pinned")
        ctx.equal(after.cpins, before.cpins, "refining changed which clusters are pinned")
        ctx.check(index_before == lib.index_docs(idx), "refining changed the index")
        lib.check_summaries(ctx, idx, "after refining")

        moved = sum(before.member[f] != after.member[f] for f in before.member)
        moved_any += bool(moved)
        ctx.ev("refinements")
        ctx.ev("refinements_that_moved", bool(moved))
        ctx.ev("with_pinned_features", bool(before.fpins))
        ctx.ev("with_over_300_pinned_features", len(before.fpins) > 300)
        ctx.ev("with_pinned_clusters", bool(before.cpins))
        ctx.ev("with_selection", "cluster_ids" in kw)
        ctx.ev("with_probe", "probe_query" in kw)
        ctx.ev("with_group_tests", bool(kw.get("group_test_batches")))
        ctx.ev(f"style:{style}")
        ctx.state("models", sorted(after.member.items()))
    if rng.random() < 0.6 and idx.cluster_ids:
        low_level(ctx, rng, idx)
    if moved_any:
        ctx.distinct((items, sorted(after.member.items())))
    if i % 90 == 0:
        ctx.sample({"style": style, "last_options": refine.show(kw), "clusters": len(after.clusters), "moved": moved})
