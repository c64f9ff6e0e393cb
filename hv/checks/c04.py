"""C04: recorded positions reproduce the token sequences."""

from .. import gen, lib, pools, ref

RULE = (
    "A case indexes a random corpus with sequence fields (empty, missing, repeated and long "
    "sequences, lists and tuples, all value types, beside set fields) with a random batch size, pool "
    "and completion order, and decodes every recorded position through the public passage search "
    "with a window of 0. Non-trivial: at least 2 documents with tokens in at least 2 batches."
)
QUICK = {"cases": 260, "budget": 120}
THOROUGH = {"cases": 7000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "positions_decoded": 5000, "sequences_rebuilt": 1000, "multi_batch_runs": 40, "runs_without_positions": 10}
ASSUMPTIONS = ["MemCorpus (hv/gen.py) is a correct implementation of the corpus protocol"]


def long_case(ctx, rng):
    """More positions in a batch than fit one 16 bit container."""
    docs = rng.randint(40, 60)
    items = [
        (k, {"text": [rng.choice("abcdefgh") for _ in range(rng.choice([0, 1, 2000, 2500]))]})
        for k in range(docs)
    ]
    items[rng.randrange(docs)][1]["text"] = [rng.choice("abcdefgh") for _ in range(70000)] + ["end"]
    idx = lib.new_index(ctx, gen.MemCorpus(items), pools.InlinePool(3))
    idx.index(doc_batch_size=rng.choice([docs, docs // 2 + 1, 1000]), index_positions=True)
    model = ref.RefIndex(items)
    lib.check_positions(ctx, idx, model)
    lib.check_boolean(ctx, idx, model)
    ctx.ev("runs_beyond_16_bits")
    ctx.distinct(items)


def case(ctx, rng, i):
    if i == 0 or (ctx.thorough and i % 500 == 0):
        return long_case(ctx, rng)
    n = gen.ndocs(rng, 100)
    shape = gen.Shape(rng, positional=True, vocab=(2, 30), length=(rng.choice([0, 0, 1]), rng.choice([3, 12, 40])))
    items = gen.corpus_items(rng, n, shape)
    pool = lib.make_pool(ctx, rng)
    opts = lib.index_options(rng, n)
    idx = lib.new_index(ctx, gen.MemCorpus(items), pool)
    positions = rng.random() < 0.9
    if rng.random() < 0.3:  # a previous run with other settings leaves no trace
        idx.index(index_positions=not positions, doc_batch_size=rng.choice([1, 3, 50]) if n < 60 else 50)
        ctx.ev("earlier_run_with_other_setting")
    ctx.note(f"{n} documents, {opts}, positions={positions}")
    idx.index(index_positions=positions, **opts)
    model = ref.RefIndex(items)
    lib.check_positions(ctx, idx, model, positions)
    lib.check_boolean(ctx, idx, model, rng, probe=30)
    if not positions:
        ctx.ev("runs_without_positions")
    batches = -(-n // opts["doc_batch_size"])
    if batches > 1:
        ctx.ev("multi_batch_runs")
    if isinstance(pool, pools.ChaosPool):
        ctx.state("completion_orders", tuple(pool.completion))
    if positions and batches > 1 and sum(map(len, model.seqs.values())) > 1:
        ctx.distinct((items, opts))
    if i % 60 == 1:
        ctx.sample({"documents": items[:3], "options": opts})
