"""C16: queries retrieve and sample exactly their documents."""

import itertools
import math

from pyroaring import BitMap, FrozenBitMap

import hyperreal.index as hi

from .. import gen, lib, ref

RULE = (
    "A case indexes a random corpus with keys of one of six kinds, retrieves and renders random, "
    "empty, full and feature queries with and without sampling, and compares ids, keys and content of "
    "every document; and calls every operation on an index without a corpus, with a plain one and "
    "with a rendering one, checking what is refused and how; and in some cases counts how often each "
    "document is drawn in hundreds of samples. Non-trivial: a query of at least 2 but "
    "not all documents, on keys that don't equal the document ids."
)
QUICK = {"cases": 260, "budget": 120}
THOROUGH = {"cases": 9000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "documents_compared": 10000, "samples": 2000, "refusals": 300, "truncated_samples": 500, "draws": 5000, "pairs": 100, "places": 100000}
ASSUMPTIONS = ["MemCorpus (hv/gen.py) returns documents in the order of the keys requested", "a document drawn so rarely or often that fair draws do it once in 10^11 times isn't drawn fairly"]


def tail(n, p, x):
    """How likely it is to be as far on this side of the mean as x."""
    side = range(x + 1) if x < n * p else range(x, n + 1)
    return sum(math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(p) + (n - k) * math.log(1 - p)) for k in side)


def fair(ctx, draw, members, size, times, what):
    """Every member is as likely to be drawn as any other."""
    counts = dict.fromkeys(members, 0)
    pairs = dict.fromkeys(itertools.combinations(sorted(members), 2), 0)
    for _ in range(times):
        got = draw(size)
        ctx.equal(len(got), size, "a sample has the wrong size", sample=what)
        for d in got:
            ctx.check(d in counts, "a sample is not from the query", sample=what, document=d)
            counts[d] += 1
        for pair in itertools.combinations(sorted(got), 2):
            pairs[pair] += 1
    together = size * (size - 1) / len(members) / (len(members) - 1)
    for pair, count in pairs.items():
        if 0 < together < 1:
            ctx.check(tail(times, together, count) > 1e-12, f"{what}: two documents are sampled together too rarely or often", documents=pair, drawn=pairs, times=times, size=size)
    ctx.ev("pairs", len(pairs))
    for d, count in counts.items():
        ctx.check(tail(times, size / len(members), count) > 1e-11, f"{what}: a document is not as likely to be sampled as others", document=d, drawn=counts, times=times, size=size)
    ctx.ev("draws", times)


def balanced(ctx, rng, idx):
    """Of many documents, none are favoured for their place."""
    m = rng.choice([20, 60, 300])
    members = sorted(rng.sample(range(5 * m), m))
    q, place = BitMap(members), {d: n for n, d in enumerate(members)}
    size = rng.choice([1, 3, m // 5, m // 2])
    times = 80000 // size
    halves = [0] * 8
    sums = 0
    for _ in range(times):
        got = idx.sample_bitmap(q, size)
        ctx.equal(len(got), size, "a sample has the wrong size")
        for d in got:
            sums += place[d]
            halves[place[d] % 8] += 1
    # the mean and variance of the sum of the places, drawn without replacement
    mean = times * size * (m - 1) / 2
    spread = math.sqrt(times * size * (m + 1) * (m - size) / 12)
    ctx.check(abs(sums - mean) < 7.5 * spread, "documents are favoured for their place", away=(sums - mean) / spread, members=m, size=size, times=times)
    for n, count in enumerate(halves):
        p = len(range(n, m, 8)) / m
        around = math.sqrt(times * size * p * (1 - p) * (m - size) / (m - 1))
        ctx.check(abs(count - times * size * p) < 7.5 * around, "documents are favoured for their place", of=n, count=count, members=m, size=size, times=times)
    ctx.ev("places", times * size)


def capabilities(ctx, rng, idx, items, pool):
    """Exactly the operations that need a corpus are refused."""
    n = len(items)
    q = BitMap(range(n))
    feature = next(iter(ref.RefIndex(items).features), None)
    needs = {
        "base": {
            "docs": lambda x: list(x.docs(q)),
            "windows": lambda x: list(x.extract_matching_feature_windows(q, [feature] if feature else [], 1)),
            "index": lambda x: x.index(doc_batch_size=max(1, n)),
        },
        "html": {"render_docs_html": lambda x: x.render_docs_html(q)},
        "table": {"render_docs_table": lambda x: x.render_docs_table(q)},
        None: {
            "getitem": lambda x: x[feature or ("a", "b")],
            "keys": lambda x: x.convert_query_to_keys(q),
            "fields": lambda x: x.indexed_field_summary(),
            "init": lambda x: x.initialise_clusters(3),
            "refine": lambda x: x.refine_clusters(iterations=1),
            "top": lambda x: x.top_cluster_features(),
            "pivot": lambda x: list(x.pivot_clusters_by_query(q)),
            "sample": lambda x: x.structured_doc_sample(2),
            "graph": lambda x: x.create_cluster_cooccurrence_graph(),
        },
    }
    for name, corpus, offers in [
        ("no corpus", None, set()),
        ("plain corpus", gen.PlainCorpus(items), {"base"}),
        ("rendering corpus", gen.MemCorpus(items), {"base", "html", "table"}),
    ]:
        x = lib.Index(idx.db_path, corpus=corpus, pool=pool)
        try:
            before = lib.dump(idx.db_path, ["doc_key", "inverted_index", "position_index", "field_summary"])
            for need, ops in needs.items():
                for op, call in ops.items():
                    ctx.note(f"{op} with {name}")
                    if need is None or need in offers:
                        call(x)
                        ctx.ev("accepted")
                        continue
                    expected = hi.CorpusMissingError if corpus is None else hi.UnsupportedCorpusOperation
                    try:
                        call(x)
                    except expected:
                        ctx.ev("refusals")
                    else:
                        ctx.fail(f"{op} with {name} was not refused")
            after = lib.dump(idx.db_path, ["doc_key", "inverted_index", "position_index", "field_summary"])
            ctx.check(before == after, f"the index changed by using it with {name}", diff=lib.diff_dumps(before, after))
        finally:
            x.close()


def case(ctx, rng, i):
    n = gen.sized(rng.choice([1, 2, 5, rng.randint(3, 60), rng.randint(30, 150)]))
    shape = gen.Shape(rng, positional=True)
    items = gen.corpus_items(rng, n, shape)
    pool = lib.make_pool(ctx, rng, chaos=0.1)
    idx = lib.new_index(ctx, gen.MemCorpus(items), pool, seed=rng.randrange(10**6))
    lib.earlier(ctx, rng, idx, shape)
    idx.index(**lib.index_options(rng, n))
    model = ref.RefIndex(items)
    interesting = False
    for _ in range(8):
        kind = rng.choice(["random", "random", "feature", "all", "none", "one"])
        if kind == "random":
            q = BitMap(rng.sample(range(n), rng.randint(0, n)))
        elif kind == "feature" and model.features:
            q = idx[rng.choice(list(model.features))]
        elif kind == "all":
            q = BitMap(range(n))
        elif kind == "one":
            q = BitMap([rng.randrange(n)])
        else:
            q = BitMap()
        qs = set(q)
        if rng.random() < 0.1:
            q = FrozenBitMap(q)
        ctx.note(f"query {sorted(qs)[:40]}")
        got = list(idx.docs(q))
        ctx.equal(sorted(d for d, _, _ in got), sorted(qs), "not exactly the documents of the query", query=sorted(qs))
        for d, key, doc in got:
            ctx.equal(key, items[d][0], "a document comes with another document's key", doc_id=d)
            ctx.equal(doc, {"key": key, "fields": items[d][1]}, "a document comes with other content", doc_id=d)
            ctx.ev("documents_compared")
        ctx.equal(idx.convert_query_to_keys(q), {items[d][0]: d for d in qs}, "keys of the query", query=sorted(qs))
        for size in [None, rng.choice([0, 1, 2, 5, len(qs), len(qs) + 1, 1000])]:
            html = idx.render_docs_html(q, random_sample_size=size)
            ids = [r[0] for r in html]
            want = len(qs) if size is None else min(len(qs), size)
            ctx.equal((len(set(ids)), len(ids)), (want, want), "rendered the wrong number of documents", query=sorted(qs), size=size)
            ctx.check(set(ids) <= qs, "rendered a document outside the query", query=sorted(qs), got=ids)
            for d, key, text in html:
                ctx.equal((key, text), (items[d][0], f"<p>{items[d][0]!r}</p>"), "rendered another document", doc_id=d)
            table = idx.render_docs_table(q, random_sample_size=size)
            keys = [k for k, _ in table]
            ctx.equal((len(set(keys)), len(keys)), (want, want), "tabulated the wrong number of documents", query=sorted(qs), size=size)
            byk = {items[d][0]: d for d in qs}
            for k, row in table:
                ctx.check(k in byk, "tabulated a document outside the query", key=k)
                ctx.equal(row["title"], f"title of {k!r}", "tabulated another document", key=k)
            ctx.ev("documents_compared", 2 * want)
        for size in {0, 1, 2, len(qs) - 1, len(qs), len(qs) + 1, rng.randint(0, n + 3)}:
            if size < 0:
                continue
            s = idx.sample_bitmap(q, size)
            ctx.equal(len(s), min(size, len(qs)), "a sample has the wrong size", query=sorted(qs), size=size)
            ctx.check(set(s) <= qs, "a sample is not from the query", query=sorted(qs), size=size)
            if not isinstance(q, FrozenBitMap) and len(qs) < n and not isinstance(s, FrozenBitMap):
                s.add(n + 5)  # what we were given is ours
            ctx.equal(set(q), qs, "sampling changed the query", size=size)
            ctx.ev("samples")
            ctx.ev("truncated_samples", size < len(qs))
        interesting |= 1 < len(qs) < n and any(items[d][0] != d for d in qs)
        ctx.state("queries", (sorted(qs), items[0][0]))
    if i % 10 == 0 and n > 1:
        members = sorted(rng.sample(range(n), rng.randint(2, min(n, 9))))
        size = rng.choice([1, len(members) - 1, rng.randint(1, len(members) - 1)])
        q = BitMap(members)
        fair(ctx, lambda k: idx.sample_bitmap(q, k), members, size, 400, "a sample")
        fair(ctx, lambda k: [r[0] for r in idx.render_docs_html(q, random_sample_size=k)], members, size, 150, "rendered documents")
        if i % 20 == 0:
            passages = {d: [] for d in members}
            fair(ctx, lambda k: [r[0] for r in idx.render_passages_table(passages, random_sample_size=k)], members, size, 150, "rendered passages")
    if i % 10 == 5:
        balanced(ctx, rng, idx)
    if i % 3 == 0:
        capabilities(ctx, rng, idx, items, pool)
    if interesting:
        ctx.distinct(items)
    if i % 65 == 0:
        ctx.sample({"keys": [k for k, _ in items][:5], "query": sorted(qs)[:10]})
