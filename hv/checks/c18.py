"""C18: concordance windows show every match in its exact context."""

from pyroaring import BitMap

from .. import gen, lib, ref

RULE = (
    "A case extracts windows around random features (by id and by key, of sequence and set fields, "
    "absent ones) in random queries with window sizes from 0 to longer than any document, and compares "
    "every window, and its text form, with the source documents. Non-trivial: windows were clipped at "
    "both ends of documents, and some were not."
)
QUICK = {"cases": 300, "budget": 120}
THOROUGH = {"cases": 10000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "windows_compared": 2500, "clipped": 500, "unclipped": 300, "set_matches": 150, "texts_compared": 600, "sampled": 60}
ASSUMPTIONS = ["MemCorpus (hv/gen.py) is a correct implementation of the corpus protocol"]


def expected(fields, wanted, size):
    """{field: {value: windows}} of one document."""
    out = {}
    for field, values in wanted.items():
        found = {}
        vs = fields.get(field, set())
        if isinstance(vs, (list, tuple)):
            for j, v in enumerate(vs):
                if v in values:
                    found.setdefault(v, []).append(list(vs[max(0, j - size) : j + size + 1]))
        else:
            found = {v: [] for v in vs if v in values}
        out[field] = found
    return out


def case(ctx, rng, i):
    n = gen.sized(rng.choice([1, 3, rng.randint(2, 30)]))
    shape = gen.Shape(rng, vocab=(2, 25), length=(0, rng.choice([3, 10, 40])), positional=rng.random() < 0.5)
    items = gen.corpus_items(rng, n, shape)
    long = i % 16 == 5
    if long:
        items = gen.long_items(rng, (300, 1200))
        n = len(items)
        ctx.ev("long_documents", n)
    idx = lib.new_index(ctx, gen.MemCorpus(items), lib.make_pool(ctx, rng, chaos=0.05), seed=rng.randrange(10**6))
    lib.earlier(ctx, rng, idx, shape)
    idx.index(doc_batch_size=max(1, n // 2))
    model = ref.RefIndex(items)
    feats = list(model.features)
    if not feats:
        return
    clipped = unclipped = False
    for _ in range(3 if long else 6):
        chosen = [rng.choice(feats) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.2:
            chosen.append((rng.choice([f["name"] for f in shape.fields]), "no such value"))
        as_ids = [idx.lookup_feature_id(f) if f in model.features and rng.random() < 0.5 else f for f in chosen]
        wanted = {}
        for f, v in chosen:
            wanted.setdefault(f, set()).add(v)
        size = rng.choice([0, 1, 7, 400, 1500, 10**6] if long else [0, 1, 2, 3, 5, 10, 100])
        kind = rng.random()
        q = BitMap(range(n)) if kind < 0.5 else BitMap(rng.sample(range(n), rng.randint(0, n))) if kind < 0.8 else idx[chosen[0]]
        qs = set(q)
        kw = {}
        if rng.random() < 0.25:
            kw["random_sample_size"] = rng.choice([0, 1, 2, n])
            ctx.ev("sampled")
        ctx.note(f"windows of {as_ids} size {size} in {sorted(qs)[:30]} {kw}")
        got = list(idx.extract_matching_feature_windows(q, as_ids, size, **kw))
        ids = [d for _, d, _ in got]
        want_n = min(len(qs), kw.get("random_sample_size", n))
        ctx.equal((len(ids), len(set(ids))), (want_n, want_n), "wrong number of documents", query=sorted(qs), options=kw)
        ctx.check(set(ids) <= qs, "a document outside the query")
        for key, d, found in got:
            ctx.equal(key, items[d][0], "a document comes with another document's key", doc_id=d)
            want = expected(items[d][1], wanted, size)
            plain = {f: {v: [list(w) for w in ws] for v, ws in m.items()} for f, m in found.items()}
            typed = lambda x: {f: {ref.vkey(v): [[ref.vkey(t) for t in w] for w in ws] for v, ws in m.items()} for f, m in x.items()}
            ctx.equal(typed(plain), typed(want), "windows are not the occurrences in context", document=items[d][1], features=chosen, size=size)
            for f, m in want.items():
                length = len(items[d][1].get(f, ()))
                for v, ws in m.items():
                    ctx.ev("windows_compared", len(ws))
                    ctx.ev("set_matches", not ws)
                    short = sum(len(w) < 2 * size + 1 for w in ws)
                    ctx.ev("clipped", short)
                    ctx.ev("unclipped", len(ws) - short)
                    clipped |= bool(short and length > 1)
                    unclipped |= bool(len(ws) - short and size)
        ctx.state("queries", (sorted(qs), sorted(map(str, chosen)), size))

        text_fields = {f for f in wanted if all(isinstance(t, (str, type(None))) for d in model.docs for t in d.get(f, ()))}
        strings = [a for a, (f, _) in zip(as_ids, chosen) if f in text_fields]
        if strings:
            join = rng.choice([None, "", "_", " | "])
            extra = {} if join is None else {"join_character": join}
            sub = {f: v for f, v in wanted.items() if f in text_fields}
            for key, d, found in idx.concordances(q, strings, size, **extra):
                ctx.equal(key, items[d][0], "a concordance comes with another document's key")
                want = {
                    f: {v: [(" " if join is None else join).join(t for t in w if t is not None) for w in ws] for v, ws in m.items()}
                    for f, m in expected(items[d][1], sub, size).items()
                }
                ctx.equal({f: dict(m) for f, m in found.items()}, want, "the text of a concordance", document=items[d][1])
                ctx.ev("texts_compared")
    if clipped and unclipped:
        ctx.distinct(items)
    if i % 75 == 0:
        ctx.sample({"document": items[0], "features": chosen, "size": size})
