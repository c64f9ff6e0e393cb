"""C08: model edits do exactly what was asked."""

import sqlite3

from .. import gen, lib, pools

RULE = (
    "A case applies a random history of 10 to 50 edits (create, merge, delete clusters and features, "
    "pin and unpin, with repeated, unknown, overlapping and empty arguments, initialise, refine; "
    "across closing and reopening) to one index, mirrors each on a plain dictionary model and compares "
    "complete membership and pins after every edit; refused edits must leave the dump of the whole "
    "file as it was. Non-trivial: at least 4 kinds of edit on a model of at least 3 features."
)
QUICK = {"cases": 160, "budget": 120}
THOROUGH = {"cases": 5000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1,
    "models_compared": 700,
    "edit:create": 200,
    "edit:merge": 200,
    "edit:delf": 100,
    "edit:delc": 100,
    "edit:pinf": 100,
    "edit:pinc": 100,
    "edit:init": 60,
    "refused": 30,
}
ASSUMPTIONS = ["membership after refine is judged by C09 to C12; the mirror is reloaded after it"]


def refused(ctx, rng, idx, m):
    """Edits naming features that don't exist, or nothing at all."""
    feats = sorted(lib.feature_ids(idx))
    before = lib.dump(idx.db_path)
    unknown = max(feats, default=0) + rng.randint(1, 1000)
    kind = rng.choice(["create", "create", "merge", "refine"])
    ctx.note(f"refused: {kind}")
    known = rng.sample(feats, min(len(feats), rng.randint(0, 3)))
    try:
        if kind == "create":
            ids = known + [unknown]
            rng.shuffle(ids)
            idx.create_cluster_from_features(ids)
            m.create(known)  # accepted: then only what exists can have changed
            return
        elif kind == "merge":
            idx.merge_clusters([])
        elif kind == "refine":
            idx.refine_clusters(iterations=rng.choice([0, -1]))
    except Exception:
        ctx.ev("refused")
        diff = lib.diff_dumps(before, lib.dump(idx.db_path))
        ctx.check(not diff, "an edit that was refused changed something", diff=diff)


def broad_case(ctx, rng):
    """More clusters, and more features in one, than are otherwise around."""
    idx, items = lib.broad_index(ctx, rng)
    feats = sorted(lib.feature_ids(idx))
    idx.initialise_clusters(700)
    lib.check_initialised(ctx, idx, 700)
    m = lib.ref_model(idx)
    for what in ("pinc", "pinf", "merge", "delf", "create", "unpin", "merge", "pinf", "delc"):
        some = rng.sample(feats, rng.randint(6000, 9000))
        clusters = sorted(m.clusters())
        ctx.note(f"{what}, with many")
        if what in ("pinf", "unpin"):
            idx.pin_features(some, what == "pinf")
            m.pin_features(some, what == "pinf")
        elif what == "pinc":
            idx.pin_clusters(clusters[:600], True)
            m.pin_clusters(clusters[:600], True)
        elif what == "merge":
            chosen = clusters[len(clusters) // 300 :]
            ctx.equal(idx.merge_clusters(chosen), m.merge(chosen), "merging returned another cluster")
        elif what == "delf":
            idx.delete_features(some)
            m.delete_features(some)
        elif what == "create":
            ctx.equal(idx.create_cluster_from_features(some), m.create(some), "the id of a created cluster is not the next free one")
        else:
            idx.delete_clusters(clusters[1:])
            m.delete_clusters(clusters[1:])
        lib.check_model(ctx, idx, m, f"after {what} with many")
        ctx.equal({c: {f[0] for f in idx.cluster_features(c)} for c in idx.cluster_ids}, m.clusters(), f"listed features of the clusters, after {what} with many")
    ctx.distinct(items)


def case(ctx, rng, i):
    if i == 1:
        return broad_case(ctx, rng)
    pool = pools.InlinePool(rng.choice([1, 2, 4]))
    idx, items, nfeat = lib.modelled_index(ctx, rng, pool=pool, vocab=(2, 40))
    if nfeat and rng.random() < 0.5:
        k = rng.choice([1, 2, 4, nfeat, nfeat + 3])
        idx.initialise_clusters(k)
        lib.check_initialised(ctx, idx, k)
    m = lib.ref_model(idx)
    rows = {f: n for f, (_, n, _) in lib.model_rows(idx).items()}
    index_before = {t: r for t, r in lib.dump(idx.db_path).items() if t in ("doc_key", "inverted_index", "field_summary")}
    kinds = set()
    for step in range(rng.randint(10, 50 if ctx.thorough else 25)):
        r = rng.random()
        if r < 0.08:
            refused(ctx, rng, idx, m)
        elif r < 0.14:
            idx.close()
            idx = lib.Index(idx.db_path, corpus=gen.MemCorpus(items), pool=pool)
            ctx.defer(idx.close)
            ctx.note("reopened")
            ctx.ev("reopened")
        else:
            kinds.add(lib.random_edit(ctx, rng, idx, m, refine=rng.random() < 0.3, reinit=rng.random() < 0.4))
        lib.check_model(ctx, idx, m, f"after step {step}")
        listed = {
            c: {f[0] for f in idx.cluster_features(c)} for c in idx.cluster_ids
        }
        ctx.equal(listed, m.clusters(), f"listed features of the clusters, after step {step}")
        ctx.state("models", (sorted(m.member.items()), sorted(m.fpin), sorted(m.cpin)))
    index_after = {t: r for t, r in lib.dump(idx.db_path).items() if t in index_before}
    ctx.check(index_before == index_after, "editing the model changed the index", diff=lib.diff_dumps(index_before, index_after))
    lib.integrity(ctx, idx.db_path)
    if len(kinds) > 3 and nfeat > 2:
        ctx.distinct((sorted(map(str, kinds)), sorted(m.member.items()), sorted(m.fpin)))
    if i % 40 == 0:
        ctx.sample({"features": nfeat, "edits": sorted(map(str, kinds)), "clusters": len(m.clusters()), "model_size": len(rows)})
