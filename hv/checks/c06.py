"""C06: collocation counts."""

from .. import gen, lib, pools, ref

RULE = (
    "A case indexes a random corpus with one to three positional fields and small vocabularies, and "
    "counts collocations of random feature sets with windows from 0 to 60 (to a million in documents of up to 12000 tokens) under two batchings, "
    "comparing every count and total with a naive count over the source documents. Non-trivial: some "
    "collocation count was neither 0 nor all occurrences of its feature."
)
QUICK = {"cases": 200, "budget": 120}
THOROUGH = {"cases": 6000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "queries": 500, "counts_compared": 1500, "partial_counts": 100, "long_documents": 10}
ASSUMPTIONS = ["MemCorpus (hv/gen.py) is a correct implementation of the corpus protocol"]


def case(ctx, rng, i):
    n = gen.sized(rng.choice([1, 2, 3, rng.randint(3, 15), rng.randint(5, 40)]))
    shape = gen.Shape(
        rng, vocab=(2, rng.choice([4, 10, 25])), length=(rng.choice([0, 1]), rng.choice([2, 6, 15, 60])), max_fields=3
    )
    items = gen.corpus_items(rng, n, shape)
    long, many = i % 16 == 5, i == 3
    if many:  # batches
        items = [(k, {"text": rng.choices(gen.WORDS[:5], k=rng.choice([1, 1, 2, 3]))}) for k in range(1100)]
        n = len(items)
    if long:
        items = gen.long_items(rng, (300, 2000, 30000))
        n = len(items)
        ctx.ev("long_documents", n)
    model = ref.RefIndex(items)
    fields = sorted(model.seqs)
    if not fields:
        return
    partial = False
    for b in [1] if many else rng.sample([1, 2, 3, 5, max(1, n // 2), n, n + 5], 2):
        idx = lib.new_index(ctx, gen.MemCorpus(items), pools.InlinePool(4) if many else lib.make_pool(ctx, rng, chaos=0.1), name=f"i{b}.db")
        lib.earlier(ctx, rng, idx, shape)
        idx.index(doc_batch_size=b, index_positions=True)
        for _ in range(4):
            field = rng.choice(fields)
            vocab = [v for f, v in model.features if f == field]
            chosen = {ref.vkey(v): v for v in (rng.choice(vocab) for _ in range(gen.sized(rng.randint(1, 4))))}
            window = rng.choice(gen.LONG_WINDOWS if long else [0, 1, 1, 2, 3, 5, 10, 60])
            ids = [idx.lookup_feature_id((field, v)) for v in chosen.values()]
            rng.shuffle(ids)
            ctx.note(f"collocations of {field} {list(chosen.values())} window {window} batch {b}")
            counts, total, covered = idx.count_collocations(field, ids, window)

            pos, want_total, want_covered = {}, 0, 0
            want = {}
            for doc_id, seq in model.seqs[field].items():
                hits = [j for j, v in enumerate(seq) if ref.vkey(v) in chosen]
                want_total += len(hits)
                inside = {j for j in range(len(seq)) if ref.near(j, hits, window)}
                want_covered += len(inside)
                for j, v in enumerate(seq):
                    if ref.vkey(v) not in chosen:
                        w = want.setdefault(ref.vkey(v), [0, 0])
                        w[0] += j in inside
                        w[1] += 1
            got = {}
            for fid, c in counts.items():
                f, v = idx.lookup_feature(fid)
                ctx.equal(f, field, "a feature of another field is counted", feature=(f, v))
                got[ref.vkey(v)] = list(c)
            query = (field, list(chosen.values()), window, b)
            ctx.equal(got, want, "collocation counts are wrong", query=query)
            ctx.equal(total, want_total, "the number of searched positions is wrong", query=query)
            ctx.equal(covered, want_covered, "the number of covered positions is wrong", query=query)
            ctx.ev("queries")
            ctx.ev("counts_compared", len(want))
            some = sum(0 < a < b2 for a, b2 in want.values())
            ctx.ev("partial_counts", some)
            partial |= bool(some)
            ctx.state("results", (query, sorted(want.items())))
    if partial:
        ctx.distinct(items)
    if i % 60 == 0:
        ctx.sample({"documents": items[:2], "fields": fields})
