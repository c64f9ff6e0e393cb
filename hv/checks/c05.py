"""C05: passage search."""

import bisect

from .. import gen, lib, pools, ref

RULE = (
    "A case indexes a random positional corpus with a small vocabulary and runs random passage "
    "queries (1 to 20 clauses of 1 to 3 features by id or key, over one or several fields, windows 0 "
    "to 60, or to a million in documents of up to 12000 tokens) under two different batchings, comparing with the exact reference for up to two clauses "
    "and with soundness and completeness conditions beyond; results are rendered with random "
    "overhang and compared with the source tokens. Non-trivial: at least one query had a passage."
)
QUICK = {"cases": 160, "budget": 120}
THOROUGH = {"cases": 5000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "queries": 600, "passages": 1000, "exact_two_clause": 200, "many_clause": 100, "rendered": 300, "long_documents": 10}
ASSUMPTIONS = [
    "MemCorpus (hv/gen.py) is a correct implementation of the corpus protocol",
    "for three or more clauses only soundness and completeness are specified",
]


def normal(result):
    return {d: sorted(spans) for d, spans in result.items() if spans}


def check_many(ctx, model, field, clauses, window, spans, query):
    """Soundness and completeness for any number of clauses of one field."""
    pos = [model.feature_positions(field, c) for c in clauses]
    retained = {}
    for doc_id, doc_spans in spans.items():
        any_pos = sorted({p for q in pos for p in q.get(doc_id, [])})
        near_all = {p for p in any_pos if all(ref.near(p, q.get(doc_id, []), window) for q in pos)}
        seq_len = len(model.seqs[field].get(doc_id, []))
        last_end = None
        kept = set()
        for start, end, count in sorted(doc_spans):
            ctx.check(0 <= start <= end < seq_len, "span outside the document", query=query, doc_id=doc_id, span=(start, end))
            ctx.check(
                last_end is None or start - last_end > window, "passages are not merged", query=query,
                doc_id=doc_id, spans=doc_spans,
            )  # fmt: skip
            last_end = end
            inside = [p for p in any_pos if start <= p <= end]
            sound = [p for p in inside if p in near_all]
            ctx.check(
                start in near_all and end in near_all,
                "a passage starts or ends at a token that is not within the window of every clause",
                query=query, doc_id=doc_id, span=(start, end, count),
            )  # fmt: skip
            ctx.check(count <= len(sound), "more tokens counted than match", query=query, doc_id=doc_id, span=(start, end, count), sound=sound)
            gaps = [b - a for a, b in zip(sound, sound[1:])]
            ctx.check(all(g <= window for g in gaps), "a passage spans a gap wider than the window", query=query, doc_id=doc_id, span=(start, end))
            kept.update(p for p in any_pos if start <= p <= end)
        retained[doc_id] = kept
    # completeness: tokens pairwise within the window, one per clause
    docs = set.intersection(*(set(p) for p in pos)) if pos else set()
    for doc_id in docs:
        for combo in tuples(pos, doc_id, window):
            ctx.ev("required_tuples")
            missing = [p for p in combo if p not in retained.get(doc_id, ())]
            ctx.check(not missing, "tokens lying pairwise within the window were missed", query=query, doc_id=doc_id, tokens=combo)


def tuples(pos, doc_id, window, limit=40, steps=20000):
    out = []
    # The rarest first: whatever has to be near them isn't many.
    found = sorted((q[doc_id] for q in pos), key=len)
    left = [steps]

    def grow(k, chosen):
        if k == len(found):
            out.append(tuple(chosen))
            return
        low, high = 0, len(found[k])
        if chosen:
            low = bisect.bisect_left(found[k], max(chosen) - window)
            high = bisect.bisect_right(found[k], min(chosen) + window)
        for p in found[k][low:high]:
            left[0] -= 1
            if len(out) >= limit or left[0] < 0:
                return
            grow(k + 1, chosen + [p])

    grow(0, [])
    return out


def case(ctx, rng, i):
    n = gen.sized(rng.choice([1, 2, 3, rng.randint(3, 15), rng.randint(5, 40)]))
    shape = gen.Shape(
        rng, strings=True, vocab=(2, rng.choice([4, 10, 25])),
        length=(rng.choice([0, 1]), rng.choice([2, 6, 15, 60])), max_fields=3,
    )  # fmt: skip
    items = gen.corpus_items(rng, n, shape)
    long, many = i % 16 == 5, i == 3
    if many:  # batches
        items = [(k, {"text": rng.choices(gen.WORDS[:5], k=rng.choice([1, 2, 3, 4]))}) for k in range(1100)]
        n = len(items)
    if long:
        items = gen.long_items(rng)
        n = len(items)
        ctx.ev("long_documents", n)
    model = ref.RefIndex(items)
    batchings = [1, n] if many else rng.sample([1, 2, 3, 5, max(1, n // 2), n, n + 5], 2)
    indexes = []
    for b in batchings:
        idx = lib.new_index(ctx, gen.MemCorpus(items), pools.InlinePool(4) if many else lib.make_pool(ctx, rng, chaos=0.1), name=f"i{b}.db")
        lib.earlier(ctx, rng, idx, shape, 0.2)
        idx.index(doc_batch_size=b, index_positions=True)
        indexes.append(idx)
    if not model.seqs:
        ctx.equal(dict(indexes[0].score_passages_dnf([], 3)), {}, "passages without positions")
        return
    found = 0
    for _ in range(2 if many else 4 if gen.SIZE > 1 else 20 if ctx.thorough else 12):
        window = rng.choice(gen.LONG_WINDOWS if long else [0, 0, 1, 1, 2, 3, 5, 10, 25, 60])
        fields = rng.sample(sorted(model.seqs), rng.choice([1, 1, 1, min(2, len(model.seqs))]))
        nclauses = rng.choice([1, 1, 2, 2, 2, 3, 4, 5, rng.randint(6, 20)])
        clauses = []
        for _ in range(nclauses):
            clause = []
            for field in fields if rng.random() < 0.7 else [rng.choice(fields)]:
                vocab = [v for f, v in model.features if f == field]
                clause += [(field, rng.choice(vocab)) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.15:  # features that have no positions are no part of it
                other = [f for f in model.features if f[0] not in model.seqs]
                if other:
                    clause.append(rng.choice(other))
            clauses.append(clause)
        query = (clauses, window)
        ctx.note(f"passages {query}")
        results = []
        for idx in indexes:
            given = [
                [f if rng.random() < 0.5 else idx.lookup_feature_id(f) for f in clause] for clause in clauses
            ]
            raw = idx.score_passages_dnf(given, window)
            results.append(normal(raw))
        ctx.ev("queries")
        by_field = {}
        for clause in clauses:
            for field in {f for f, _ in clause if f in model.seqs}:
                by_field.setdefault(field, []).append({v for f, v in clause if f == field})
        exact = all(len(c) <= 2 for c in by_field.values())
        want = {}
        if exact:
            for field, cl in by_field.items():
                for doc_id, spans in ref.passages_upto2(model, field, cl, window).items():
                    want.setdefault(doc_id, []).extend((field, *s) for s in spans)
            want = {d: sorted(s) for d, s in want.items()}
        for res, idx, b in zip(results, indexes, batchings):
            if exact:
                ctx.equal(res, want, "the passages found are wrong", query=query, batch=b)
                ctx.ev("exact_two_clause" if nclauses > 1 else "exact_one_clause")
            else:
                for field, cl in by_field.items():
                    spans = {
                        d: [s[1:] for s in ss if s[0] == field]
                        for d, ss in res.items()
                        if any(s[0] == field for s in ss)
                    }
                    check_many(ctx, model, field, cl, window, spans, query)
                extra = {s[0] for ss in res.values() for s in ss} - set(by_field)
                ctx.check(not extra, "passages of a field that was not searched", query=query, extra=extra)
                ctx.ev("many_clause")
            found += sum(map(len, res.values()))
            ctx.ev("passages", sum(map(len, res.values())))
        if exact and nclauses == 2:
            again = normal(indexes[0].score_passages_dnf(list(reversed(clauses)), window))
            ctx.equal(again, want, "the order of two clauses matters", query=query)

        # rendering
        if rng.random() < 0.35 and results[0]:
            idx, res = indexes[0], results[0]
            overhang = rng.choice([0, 0, 1, 2, 5, 20])
            sample = rng.choice([None, None, 0, 1, 2, 100])
            raw = idx.score_passages_dnf(clauses, window)
            before = {d: list(s) for d, s in raw.items()}
            table = list(
                idx.render_passages_table(
                    raw, passage_overhang=overhang, batch_size=rng.choice([1, 2, 7, 1000]), random_sample_size=sample
                )
            )
            ctx.equal({d: list(s) for d, s in raw.items()}, before, "rendering changed the passages")
            ids = [row[0] for row in table]
            ctx.equal(len(set(ids)), len(ids), "a document was rendered twice", query=query)
            if sample is None:
                ctx.equal(set(ids), set(res), "not exactly the documents with passages are rendered", query=query)
            else:
                ctx.check(set(ids) <= set(res) and len(ids) == min(sample, len(res)), "wrong sample of documents rendered", query=query, sample=sample)
            for doc_id, key, rendered in table:
                ctx.equal(key, model.keys[doc_id], "rendered under another document's key")
                doc = model.docs[doc_id]
                expect = {f: v for f, v in doc.items() if isinstance(v, set)}
                for field, start, end, _ in before[doc_id]:
                    if not isinstance(expect.get(field), list):
                        expect[field] = []
                    expect[field].append(" ".join(doc[field][max(0, start - overhang) : end + overhang + 1]))
                ctx.equal(dict(rendered), expect, "a passage is rendered wrongly", overhang=overhang, passages=before[doc_id])
                ctx.ev("rendered")
    if found:
        ctx.distinct((items, batchings))
    if i % 50 == 0:
        ctx.sample({"documents": items[:2], "passages": found})
