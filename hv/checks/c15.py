"""C15: weighted ranking counts and selects exactly."""

import collections

from pyroaring import BitMap, FrozenBitMap

from hyperreal import utilities

from .. import gen, lib, ref

RULE = (
    "A case accumulates random sequences of features of a real index (by id, by key, repeated, absent, "
    "whole clusters) and of synthetic document sets (up to 5000 sets, dense and sparse, beyond 16 bits), "
    "decodes every weight, and selects the top k for k around every boundary of the weight "
    "distribution. Non-trivial: at least three different weights occurred."
)
QUICK = {"cases": 260, "budget": 120}
THOROUGH = {"cases": 9000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "bitslices": 700, "weights_compared": 20000, "selections": 6000, "selections_with_ties": 800, "cluster_queries": 200}
ASSUMPTIONS = ["pyroaring's set operations are right"]


def judge(ctx, rng, matching, bitslice, want, what):
    want = {d: w for d, w in want.items() if w}
    ctx.equal(set(matching), set(want), "the accumulated documents are wrong", query=what)
    got = list(utilities.weight_bitslice(bitslice))
    ctx.equal(len(got), len({d for d, _ in got}), "a document is weighted twice", query=what)
    ctx.equal(dict(got), want, "accumulated weights are wrong", query=what)
    ctx.ev("weights_compared", len(want))
    ctx.ev("bitslices")
    ranked = sorted(want.values(), reverse=True)
    ks = {1, 2, 3, len(ranked) - 1, len(ranked), len(ranked) + 1, 10, rng.randint(1, 50)}
    ks |= {rng.randint(1, max(1, len(ranked))) for _ in range(3)}
    before = (BitMap(matching), [BitMap(b) for b in bitslice])
    for k in sorted(k for k in ks if k > 0):
        top = utilities.bstm(matching, bitslice, k)
        if len(ranked) <= k:
            expected = set(want)
        else:
            expected = {d for d, w in want.items() if w >= ranked[k - 1]}
            ctx.ev("selections_with_ties", len(expected) > k)
        ctx.check(set(top) == expected, "the top documents by weight are wrong", k=k, query=what, missing=sorted(expected - set(top))[:10],
                  extra=sorted(set(top) - expected)[:10], weights=ranked[:60])  # fmt: skip
        ctx.check(matching == before[0] and list(bitslice) == before[1], "selecting changed its inputs", k=k, query=what)
        ctx.ev("selections")
    ctx.state("weight_distributions", ranked)
    return len(set(ranked))


def case(ctx, rng, i):
    levels = 0
    # synthetic sets, straight through the arithmetic
    for _ in range(3):
        universe = rng.choice([4, 30, 300, 70000])
        base = rng.choice([0, 0, 65530, 2**32 - 70001])
        count = rng.choice([0, 1, 2, 3, 7, 8, 9, rng.randint(0, 40), rng.randint(100, 600) if universe < 1000 else 20])
        if universe == 4 and rng.random() < 0.05:
            count = rng.choice([1023, 1024, 2047, 4096, 5000])
        sets = []
        for _ in range(count):
            r = rng.random()
            if r < 0.1:
                s = BitMap()
            elif r < 0.2 and sets:
                s = BitMap(rng.choice(sets))
            elif r < 0.3:
                lo = rng.randrange(universe)
                s = BitMap(range(base + lo, base + min(universe, lo + rng.randint(1, 200))))
            else:
                size = rng.randint(0, min(universe, rng.choice([2, 20, 200])))
                s = BitMap(base + x for x in rng.sample(range(universe), size))
            sets.append(FrozenBitMap(s) if rng.random() < 0.1 else s)
        copies = [BitMap(s) for s in sets]
        matching, bitslice = utilities.compute_bitslice(iter(sets))
        ctx.check(all(a == b for a, b in zip(sets, copies)), "accumulating changed a document set passed in")
        levels = max(levels, judge(ctx, rng, matching, bitslice, collections.Counter(d for s in copies for d in s), f"{count} sets"))
    # features of an index
    idx, items, nf = lib.modelled_index(ctx, rng, vocab=(3, 30), clusters=rng.choice([1, 3]))
    docs = lib.index_docs(idx)
    model = ref.RefIndex(items)
    if docs:
        for _ in range(3):
            feats = []
            want = collections.Counter()
            for _ in range(rng.randint(0, 30)):
                if rng.random() < 0.5:
                    f = rng.choice(sorted(docs))
                    want.update(docs[f])
                    feats.append(f)
                elif rng.random() < 0.8:
                    f = rng.choice(list(model.features))
                    want.update(model.features[f])
                    feats.append(f)
                else:
                    feats.append(rng.choice([("text", "not there at all"), max(docs) + 1000]))
            ctx.note(f"union_bitslice({feats})")
            matching, bitslice = idx.union_bitslice(feats)
            levels = max(levels, judge(ctx, rng, matching, bitslice, want, feats))
        rows = lib.model_rows(idx)
        for c in idx.cluster_ids:
            want = collections.Counter()
            for f, (fc, _, _) in rows.items():
                if fc == c:
                    want.update(docs[f])
            matching, bitslice = idx.cluster_query(c)
            levels = max(levels, judge(ctx, rng, matching, bitslice, want, f"cluster {c}"))
            ctx.ev("cluster_queries")
    if levels > 2:
        ctx.distinct((items, levels, i))
    if i % 65 == 0:
        ctx.sample({"features": nf, "levels": levels})
