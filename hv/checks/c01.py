"""C01: the boolean index is exact."""

from pyroaring import BitMap

from .. import gen, lib, pools, ref

RULE = (
    "A case indexes a random corpus (0 to some hundred documents; list, tuple, set and "
    "frozenset fields of words, odd unicode, integers, floats, bytes and mixed types; missing and "
    "empty fields; keys of several kinds in any order) with a random batch size on an inline, "
    "a chaotic (random order, delayed, overlapping) or a spawned process pool, and compares the "
    "complete index with a naive one. Non-trivial: at least 2 documents, 2 features and 2 batches."
)
QUICK = {"cases": 360, "budget": 120}
THOROUGH = {"cases": 9000, "budget": 500}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "features_compared": 500, "lookups": 500, "multi_batch_runs": 30, "chaos_runs": 10}
ASSUMPTIONS = [
    "MemCorpus (hv/gen.py) is a correct implementation of the corpus protocol",
    "SQLite and pyroaring store what they are given",
]


def big_case(ctx, rng):
    """More documents than fit one 16 bit container of a bitmap."""
    n = 66000 + rng.randrange(3000)
    items = [(i, {"n": {i % 7, "x" if i % 3 else "y"}, "t": [str(i % 11)]}) for i in range(n)]
    pool = pools.InlinePool(4)
    idx = lib.new_index(ctx, gen.PlainCorpus(items), pool)
    idx.index(doc_batch_size=rng.choice([16384, 20000, 65536, 70000]))
    model = ref.RefIndex(items)
    lib.check_boolean(ctx, idx, model)
    lib.check_doc_keys(ctx, idx, model)
    ctx.ev("runs_beyond_16_bits")
    ctx.distinct(n)


def long_case(ctx, rng):
    """A document of more tokens, and of more values, than fit one 16 bit container."""
    items = [
        (0, {"t": [f"w{rng.randrange(30000)}" for _ in range(70000)] + ["the end"], "s": {"one"}}),
        (1, {"s": {f"v{k}" for k in range(40000)}, "t": ["the end"]}),
        (2, {"t": ["w1", "w2"] * 35000, "s": set()}),
    ]
    idx = lib.new_index(ctx, gen.MemCorpus(items), pools.InlinePool(4))
    idx.index(doc_batch_size=rng.choice([1, 2, 5]))
    model = ref.RefIndex(items)
    lib.check_boolean(ctx, idx, model, rng, probe=3000)
    ctx.ev("long_documents")
    ctx.distinct(items)


def case(ctx, rng, i):
    if i == 1:
        return long_case(ctx, rng)
    if i == 0 or (ctx.thorough and i % 1500 == 0):
        return big_case(ctx, rng)
    n = gen.ndocs(rng)
    items = gen.corpus_items(rng, n, positional=False)
    opts = lib.index_options(rng, n)
    kind = "inline"
    if i % 40 == 5:
        pool, kind = lib.real_pool(2), "processes"
    else:
        pool = lib.make_pool(ctx, rng)
        kind = type(pool).__name__
    positions = rng.random() < 0.5 and not any(
        None in v for _, d in items for v in d.values() if isinstance(v, (list, tuple))
    )
    if rng.random() < 0.15:
        opts["working_dir"] = ctx.tmp()
    ctx.note(f"{n} documents, {opts}, positions={positions}, pool={kind}")
    corpus = gen.MemCorpus(items)
    idx = lib.new_index(ctx, corpus, pool)
    idx.index(index_positions=positions, **opts)
    model = ref.RefIndex(items)
    batches = -(-n // opts["doc_batch_size"])

    lib.check_doc_keys(ctx, idx, model)
    lib.check_boolean(ctx, idx, model, rng)

    # Features that aren't there.
    for missing in [("nofield", "x"), ("text", "no such value"), ("text", 424242)]:
        if missing in model.features:
            continue
        ctx.equal(set(idx[missing]), set(), "an absent feature retrieves documents", feature=missing)
        try:
            idx.lookup_feature_id(missing)
        except KeyError:
            ctx.ev("absent_lookups_refused")
        else:
            ctx.fail("looking up an absent feature did not raise KeyError", feature=missing)
    top = max(lib.feature_ids(idx), default=0)
    ctx.equal(set(idx[top + 1]), set(), "an absent feature id retrieves documents")
    try:
        idx.lookup_feature(top + 1)
    except KeyError:
        ctx.ev("absent_lookups_refused")
    else:
        ctx.fail("looking up an absent feature id did not raise KeyError")

    # Boolean combinations behave like sets, and don't disturb the index.
    feats = list(model.features)
    for _ in range(min(5, len(feats))):
        a, b = rng.choice(feats), rng.choice(feats)
        x, y = idx[a], idx[b]
        x &= y
        y |= idx[a]
        ctx.equal(set(x), model.get(a) & model.get(b), "intersection of two queries")
        ctx.equal(set(y), model.get(a) | model.get(b), "union of two queries")
        ctx.equal(set(idx[a]), model.get(a), "a query changed after using its result")
        ctx.ev("boolean_combinations")

    # A second connection sees the same.
    if rng.random() < 0.2:
        other = lib.Index(idx.db_path, pool=pool)
        ctx.defer(other.close)
        lib.check_boolean(ctx, other, model, rng, probe=20)
        ctx.ev("reopened")

    if kind == "ChaosPool":
        ctx.ev("chaos_runs")
        ctx.state("completion_orders", tuple(pool.completion))
    elif kind == "processes":
        ctx.ev("process_runs")
    if batches > 1:
        ctx.ev("multi_batch_runs")
    ctx.ev("documents_indexed", n)
    if n > 1 and batches > 1 and len(model.features) > 1:
        ctx.distinct((items, opts))
    if n and i % 50 == 1:
        ctx.sample({"documents": items[:3], "options": opts, "pool": kind, "features": len(feats)})
