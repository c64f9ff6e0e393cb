"""C19: field summaries and intersections."""

from pyroaring import BitMap, FrozenBitMap

from .. import gen, lib, ref

RULE = (
    "A case indexes one to four versions of a random corpus with every value type, with and without "
    "positions, and after each compares the summary of every field, the ordered iteration over every "
    "field under several thresholds, and the intersections with random, feature and empty queries. "
    "Non-trivial: fields of several values, at least one left out by a threshold."
)
QUICK = {"cases": 260, "budget": 120}
THOROUGH = {"cases": 9000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "field_summaries_compared": 400, "values_iterated": 10000, "values_below_threshold": 2000, "intersections": 10000, "after_reindex": 90}
ASSUMPTIONS = ["values are ordered as SQLite orders them: numbers, text by its bytes, blobs"]


def broad_case(ctx, rng):
    """A field of more values than are otherwise around."""
    idx, items = lib.broad_index(ctx, rng, 25000)
    model = ref.RefIndex(items)
    lib.check_field_summary(ctx, idx, model, False)
    values = model.fields()["t"]
    want = [(ref.vkey(v), len(values[v]), values[v]) for v in sorted(values, key=lib.sql_key)]
    ctx.equal([(ref.vkey(v), c, set(d)) for v, c, d in idx.iter_field_docs("t")], want, "iterating over a field", field="t")
    query = BitMap(rng.sample(range(len(items)), len(items) // 2))
    got_values, totals, inter = idx.intersect_queries_with_field({"q": query}, "t")
    ctx.equal([ref.vkey(v) for v in got_values], [w[0] for w in want], "the values of an intersection")
    ctx.equal(totals, [w[1] for w in want], "the totals of an intersection")
    ctx.equal(inter["q"], [len(w[2] & set(query)) for w in want], "the counts of an intersection")
    ctx.distinct(items)


def case(ctx, rng, i):
    if i == 1:
        return broad_case(ctx, rng)
    shape = gen.Shape(rng, vocab=(2, 40), positional=True)
    n = gen.sized(rng.choice([1, 2, rng.randint(2, 20), rng.randint(10, 60)]))
    items = gen.corpus_items(rng, n, shape)
    idx = lib.new_index(ctx, gen.MemCorpus(items), lib.make_pool(ctx, rng, chaos=0.1))
    cut = False
    for version in range(rng.choice([1, 1, 2, 4])):
        if version:
            items = [(k, shape.doc(rng) if rng.random() < 0.5 else d) for k, d in items if rng.random() < 0.8]
            idx.corpus = gen.MemCorpus(items)
            ctx.ev("after_reindex")
        positions = rng.random() < 0.5
        ctx.note(f"index {len(items)} documents, positions {positions}")
        idx.index(index_positions=positions, doc_batch_size=rng.choice([2, 5, 100]))
        model = ref.RefIndex(items)
        lib.check_field_summary(ctx, idx, model, positions)
        n = len(items)
        for field, values in model.fields().items():
            largest = max(map(len, values.values()))
            for least in [None, 1, 2, largest, largest + 1, rng.randint(1, n)]:
                got = list(idx.iter_field_docs(field) if least is None else idx.iter_field_docs(field, min_docs=least))
                keep = [v for v in values if len(values[v]) >= (least or 1)]
                want = [(ref.vkey(v), len(values[v]), values[v]) for v in sorted(keep, key=lib.sql_key)]
                ctx.equal([(ref.vkey(v), c, set(d)) for v, c, d in got], want, "iterating over a field", field=field, min_docs=least)
                ctx.ev("values_iterated", len(want))
                ctx.ev("values_below_threshold", len(values) - len(keep))
                cut |= 0 < len(keep) < len(values)
            queries = {"none": BitMap(), "all": BitMap(range(n)), 7: BitMap(rng.sample(range(n), rng.randint(0, n)))}
            queries["feature", 1] = idx[rng.choice(list(model.features))]
            queries["frozen"] = FrozenBitMap(rng.sample(range(n), rng.randint(0, n)))
            if rng.random() < 0.1:
                queries = {}
            vs, totals, inter = idx.intersect_queries_with_field(queries, field)
            order = sorted(values, key=lib.sql_key)
            ctx.equal(list(map(ref.vkey, vs)), list(map(ref.vkey, order)), "the values of an intersection", field=field)
            ctx.equal(list(totals), [len(values[v]) for v in order], "the totals of an intersection", field=field)
            ctx.equal(
                {k: list(x) for k, x in inter.items()}, {k: [len(set(q) & values[v]) for v in order] for k, q in queries.items()},
                "the overlaps of queries with a field", field=field,
            )  # fmt: skip
            ctx.ev("intersections", len(order) * len(queries))
        ctx.equal(list(idx.iter_field_docs("no such field")), [], "an unknown field has values")
        ctx.equal(idx.intersect_queries_with_field({}, "no such field")[:2], ([], []), "an unknown field has values")
        ctx.state("versions", (items, positions))
    if cut:
        ctx.distinct(items)
    if i % 65 == 0:
        ctx.sample({"fields": {f: len(v) for f, v in model.fields().items()}})
