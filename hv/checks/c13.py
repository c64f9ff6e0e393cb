"""C13: pivoting ranks exactly the matching clusters and features."""

from pyroaring import BitMap

from .. import lib, ref, refine

RULE = (
    "A case pivots one random model (values of every type, features of no documents) by a dozen "
    "queries (features, unions, random, empty and full document sets) with random selections and "
    "numbers of features, on inline and chaotic pools, and compares all similarities and the ranking "
    "with an exhaustive recomputation. Non-trivial: a pivot left out both a feature that shares "
    "documents and a cluster that doesn't."
)
QUICK = {"cases": 260, "budget": 120}
THOROUGH = {"cases": 9000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1,
    "pivots": 1000,
    "similarities_compared": 8000,
    "truncated_feature_lists": 500,
    "clusters_left_out": 500,
    "with_selection": 400,
}
ASSUMPTIONS = ["features or clusters of equal similarity may come in either order"]


def query(rng, idx, n, docs):
    kind = rng.choice(["feature", "feature", "features", "random", "few", "all", "none", "cluster"])
    if kind == "feature":
        return BitMap(docs[rng.choice(sorted(docs))])
    if kind == "features":
        return BitMap(set().union(*(docs[rng.choice(sorted(docs))] for _ in range(3))))
    if kind == "random":
        return BitMap(rng.sample(range(n), rng.randint(0, n)))
    if kind == "few":
        return BitMap(rng.sample(range(n), min(n, 2)))
    if kind == "all":
        return BitMap(range(n))
    if kind == "cluster":
        return BitMap(idx.cluster_docs(rng.choice(idx.cluster_ids)))
    return BitMap()


def case(ctx, rng, i):
    if rng.random() < 0.5:
        idx, items, _ = refine.model(ctx, rng, pins=False)
    else:
        idx, items, _ = lib.modelled_index(ctx, rng, pool=lib.make_pool(ctx, rng, chaos=0.2))
    docs = lib.index_docs(idx)
    clusters = refine.Before(idx).clusters
    if not clusters:
        return
    n = len(items)
    cut = False
    for _ in range(12):
        q = query(rng, idx, n, docs)
        qs = set(q)
        kw = {}
        if rng.random() < 0.85:
            kw["top_k"] = rng.choice([1, 1, 2, 3, 5, 20, 1000])
        k = kw.get("top_k", 20)
        selected = set(clusters)
        if rng.random() < 0.35:
            kw["cluster_ids"] = rng.sample(sorted(clusters), rng.randint(1, len(clusters)))
            selected = set(kw["cluster_ids"])
            ctx.ev("with_selection")
        ctx.note(f"pivot by {sorted(qs)[:30]} {kw}")
        got = list(idx.pivot_clusters_by_query(q, **kw))
        ctx.equal(set(q), qs, "the query passed in was changed")
        info = dict(query=sorted(qs), options=kw)

        cdocs = {c: set().union(*(docs[f] for f in clusters[c])) for c in selected}
        want = {c: ref.jaccard(qs, d) for c, d in cdocs.items() if qs & d}
        ids = [c for c, _, _ in got]
        ctx.equal(len(ids), len(set(ids)), "a cluster comes up twice", **info)
        ctx.equal(set(ids), set(want), "the clusters are not those sharing documents with the query", **info)
        sims = [s for _, s, _ in got]
        for c, s, _ in got:
            ctx.check(abs(s - want[c]) <= 1e-9, "the similarity of a cluster is wrong", cluster=c, got=s, want=want[c], **info)
        ctx.check(all(a >= b - 1e-12 for a, b in zip(sims, sims[1:])), "clusters are not in order of similarity", similarities=sims, **info)
        for c, _, feats in got:
            exact = {f: ref.jaccard(qs, docs[f]) for f in clusters[c] if qs & docs[f]}
            top = sorted(exact.values(), reverse=True)
            fids = [f[0] for f in feats]
            ctx.equal(len(fids), len(set(fids)), "a feature comes up twice", cluster=c, **info)
            ctx.equal(len(feats), min(k, len(exact)), "wrong number of features", cluster=c, features=feats, **info)
            for (fid, field, value, s), w in zip(feats, top):
                ctx.check(fid in exact, "a feature that is not of the cluster, or shares no documents", feature=(fid, field, value), cluster=c, **info)
                ctx.check(abs(s - exact[fid]) <= 1e-9, "the similarity of a feature is wrong", feature=(fid, field, value), got=s, want=exact[fid], **info)
                ctx.check(abs(s - w) <= 1e-9, "a feature that ranks higher is left out or out of order", got=feats, best=top[: k + 1], cluster=c, **info)
                ctx.equal((field, ref.vkey(value)), tuple(map_key(idx, fid)), "a feature is labelled with another's value", **info)
                ctx.ev("similarities_compared")
            ctx.ev("truncated_feature_lists", len(exact) > k)
            cut |= len(exact) > k and len(want) < len(selected)
        ctx.ev("clusters_left_out", len(selected) - len(want))
        ctx.ev("pivots")
        ctx.state("pivots", (sorted(qs), sorted(kw.items(), key=str), sorted(want.items())))
    if cut:
        ctx.distinct((items, sorted(clusters)))
    if i % 65 == 0:
        ctx.sample({"query": sorted(qs)[:20], "options": kw, "result": [(c, s, len(f)) for c, s, f in got][:5]})


def map_key(idx, fid):
    f, v = idx.lookup_feature(fid)
    return f, ref.vkey(v)
