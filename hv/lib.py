"""Shared driving and observing of real indexes."""

import collections
import os
import sqlite3

from pyroaring import BitMap

from . import core, gen, pools, ref

import hyperreal
from hyperreal.index import Index


def new_index(ctx, corpus, pool, *, seed=None, name="i.db", where=None):
    path = os.path.join(where or ctx.tmp(), name)
    idx = Index(path, corpus=corpus, pool=pool, random_seed=seed)
    ctx.defer(idx.close)
    return idx


def make_pool(ctx, rng, chaos=0.3):
    pool = pools.random_pool(rng, chaos)
    ctx.defer(lambda: pool.shutdown(wait=True, cancel_futures=True))
    return pool


def inline_pool(ctx, workers=3):
    return pools.InlinePool(workers)


_REAL = {}


def real_pool(workers=2):
    """One spawned process pool per shard process, made on first use."""
    if workers not in _REAL:
        _REAL[workers] = pools.process_pool(workers)
    return _REAL[workers]


def index_options(rng, n):
    out = {"doc_batch_size": rng.choice([1, 2, 3, 5, 7, max(1, n - 1), max(1, n), n + 1, 1000])}
    if rng.random() < 0.2:
        out["workers"] = rng.choice([1, 2, 5])
    if n > 60:  # keep the number of batches reasonable
        out["doc_batch_size"] = max(out["doc_batch_size"], n // 12)
    return out


def doc_keys(idx):
    """doc id -> key, through the public query to keys conversion."""
    n = idx.db.execute("select count(*) from doc_key").fetchone()[0]
    return {v: k for k, v in idx.convert_query_to_keys(BitMap(range(n))).items()}


def all_features(idx):
    """{(field, value): (docs_count, doc ids)}, including features of no documents."""
    out = {}
    for field, value, count, docs in idx.db.execute(
        "select field, value, docs_count, doc_ids from inverted_index"
    ):
        out[field, ref.vkey(value)] = (count, set(docs))
    return out


def feature_ids(idx):
    return {
        fid: (field, value)
        for fid, field, value in idx.db.execute("select feature_id, field, value from inverted_index")
    }


def check_boolean(ctx, idx, model, rng=None, probe=200):
    """The whole boolean index, against the reference."""
    want = {(f, ref.vkey(v)): docs for (f, v), docs in model.features.items()}
    got = {}
    for key, (count, docs) in all_features(idx).items():
        ctx.ev("features_compared")
        ctx.check(
            count == len(docs), "stored document count differs from the retrieved set",
            feature=key, count=count, docs=sorted(docs)[:50],
        )  # fmt: skip
        if docs:
            got[key] = docs
        else:
            ctx.check(key not in want, "feature retrieves nothing", feature=key)
    if got != want:
        missing = [k for k in want if k not in got]
        extra = [k for k in got if k not in want]
        diff = [(k, sorted(got[k] ^ want[k])[:20]) for k in want if k in got and got[k] != want[k]]
        ctx.fail(
            "indexed features differ from the documents' features",
            missing=missing[:5], extra=extra[:5], differing=diff[:5],
        )  # fmt: skip
    # the same through the lookups
    feats = list(model.features)
    if rng is not None and len(feats) > probe:
        feats = rng.sample(feats, probe)
    for feature in feats:
        by_key = idx[feature]
        fid = idx.lookup_feature_id(feature)
        ctx.equal(set(by_key), model.features[feature], "query by key is wrong", feature=feature)
        ctx.equal(set(idx[fid]), model.features[feature], "query by id is wrong", feature=feature)
        back = idx.lookup_feature(fid)
        ctx.equal(
            (back[0], ref.vkey(back[1])), (feature[0], ref.vkey(feature[1])),
            "looking up a feature by its id does not lead back to it", feature=feature,
        )  # fmt: skip
        ctx.ev("lookups")
    fields = model.fields()
    for field, values in fields.items():
        seen = [(v, c, set(d)) for v, c, d in idx.iter_field_docs(field)]
        ctx.equal(
            {ref.vkey(v): d for v, _, d in seen}, {ref.vkey(v): d for v, d in values.items()},
            "iterating over a field's values is wrong", field=field,
        )  # fmt: skip
        ctx.equal(len(seen), len(values), "a value was repeated", field=field)


def check_doc_keys(ctx, idx, model):
    n = len(model.keys)
    rows = list(idx.db.execute("select doc_id, doc_key from doc_key order by doc_id"))
    ctx.equal(
        rows, list(enumerate(model.keys)), "documents ids do not map onto the corpus' keys in order"
    )
    if n:
        ctx.equal(
            idx.convert_query_to_keys(BitMap(range(n))),
            {k: i for i, k in enumerate(model.keys)},
            "converting a query to keys is wrong",
        )
    ctx.ev("doc_ids_compared", n)


def check_positions(ctx, idx, model, positional=True):
    """Decode the recorded positions of every sequence field and compare."""
    want = model.seqs if positional else {}
    ctx.equal(
        set(idx.positional_fields), set(want), "the set of fields with recorded positions is wrong"
    )
    summary = {row[0]: row[4] for row in idx.indexed_field_summary()}
    for field, seqs in want.items():
        rebuilt = collections.defaultdict(dict)
        values = {v for s in seqs.values() for v in s}
        if gen.SIZE > 1:  # all of them would take minutes
            values = sorted(values, key=core.digest)[:40]
            seqs = {d: [v if v in values else None for v in s] for d, s in seqs.items()}
        for value in values:
            # with a window of 0 every position is a passage of its own
            for doc_id, spans in idx.score_passages_dnf([[(field, value)]], 0).items():
                for span_field, start, end, count in spans:
                    ctx.check(
                        span_field == field and start == end and count == 1,
                        "a single position is not reported as one", span=(span_field, start, end, count),
                    )  # fmt: skip
                    ctx.check(
                        start not in rebuilt[doc_id], "two tokens recorded at one position",
                        field=field, doc_id=doc_id, position=start,
                    )  # fmt: skip
                    rebuilt[doc_id][start] = value
                    ctx.ev("positions_decoded")
        for doc_id in set(seqs) | set(rebuilt):
            s = seqs.get(doc_id, [])
            got = rebuilt.get(doc_id, {})
            ctx.check(
                [(i, ref.vkey(v)) for i, v in sorted(got.items())]
                == [(i, ref.vkey(v)) for i, v in enumerate(s) if v is not None],
                "recorded positions do not reproduce the token sequence",
                field=field, doc_id=doc_id, want=s, got=sorted(got.items(), key=lambda x: x[0]),
            )  # fmt: skip
            ctx.ev("sequences_rebuilt")
        ctx.equal(
            summary.get(field), sum(map(len, seqs.values())),
            "the number of positions in the field summary is wrong", field=field,
        )  # fmt: skip


# -- complete logical state, for before/after comparisons --------------------
TABLES = [
    "doc_key", "inverted_index", "position_doc_map", "position_index", "field_summary",
    "cluster", "feature_cluster", "changed_cluster", "settings",
]  # fmt: skip


def plain(v):
    if isinstance(v, BitMap):
        return ("bm", tuple(v))
    return ref.vkey(v)


def dump(path, tables=TABLES):
    """Everything committed in an index file, read with a connection of our own."""
    db = sqlite3.connect(f"file:{path}?mode=rw", uri=True, detect_types=sqlite3.PARSE_DECLTYPES)
    try:
        return dump_db(db, tables)
    finally:
        db.close()


def dump_db(db, tables=TABLES):
    out = {}
    existing = {r[0] for r in db.execute("select name from sqlite_master where type = 'table'")}
    for t in tables:
        if t in existing:
            out[t] = sorted(tuple(map(plain, row)) for row in db.execute(f'select * from "{t}"'))
    return out


def diff_dumps(a, b):
    out = {}
    for t in sorted(set(a) | set(b)):
        x, y = a.get(t), b.get(t)
        if x != y:
            sx, sy = set(x or []), set(y or [])
            out[t] = {"only_first": sorted(sx - sy)[:4], "only_second": sorted(sy - sx)[:4]}
    return out


def integrity(ctx, path):
    db = sqlite3.connect(path)
    try:
        ctx.equal(db.execute("pragma integrity_check").fetchone()[0], "ok", "database file is corrupt")
        ctx.equal(
            db.execute("pragma foreign_key_check").fetchall(), [], "dangling references in the database"
        )
    finally:
        db.close()


# -- the model ----------------------------------------------------------------
def model_rows(idx_or_db):
    db = getattr(idx_or_db, "db", idx_or_db)
    return {f: (c, n, bool(p)) for f, c, n, p in db.execute(
        "select feature_id, cluster_id, docs_count, pinned from feature_cluster")}  # fmt: skip


def cluster_rows(idx_or_db):
    db = getattr(idx_or_db, "db", idx_or_db)
    return {
        c: (n, d, w, docs, bool(p))
        for c, n, d, w, docs, p in db.execute(
            "select cluster_id, feature_count, docs_count, weight, doc_ids, pinned from cluster"
        )
    }


def index_docs(idx_or_db):
    db = getattr(idx_or_db, "db", idx_or_db)
    return {f: set(d) for f, d in db.execute("select feature_id, doc_ids from inverted_index")}


def check_summaries(ctx, idx, where=""):
    """Every cluster's stored summary, against its members and the index."""
    docs = index_docs(idx)
    members = collections.defaultdict(set)
    for f, (c, n, _) in model_rows(idx).items():
        members[c].add(f)
        ctx.check(f in docs, f"a feature in the model is not in the index {where}", feature=f)
        ctx.equal(n, len(docs[f]), f"a feature's document count in the model is stale {where}", feature=f)
    rows = cluster_rows(idx)
    ctx.equal(
        set(rows), set(members), f"the clusters listed are not the clusters that have features {where}"
    )
    for c, (n, d, w, bm, _) in rows.items():
        union = set().union(*(docs[f] for f in members[c]))
        ctx.equal(n, len(members[c]), f"feature count of cluster {c} is stale {where}")
        ctx.equal(
            None if bm is None else set(bm), union,
            f"documents of cluster {c} are not the union of its features {where}",
        )  # fmt: skip
        ctx.equal(d, len(union), f"document count of cluster {c} is stale {where}")
        ctx.equal(
            w, sum(len(docs[f]) for f in members[c]), f"weight of cluster {c} is stale {where}"
        )
        ctx.ev("cluster_summaries_compared")
    # and through the public interface
    top = idx.top_cluster_features(top_k=2**62)
    ctx.equal([c for c, _, _ in top].__len__(), len(rows), f"clusters repeated or missing {where}")
    for c, d, feats in top:
        ctx.equal({f[0] for f in feats}, members[c], f"listed features of cluster {c} are wrong {where}")
        ctx.equal(d, len(set().union(*(docs[f] for f in members[c]))), f"listed document count {where}")
        ctx.equal(set(idx.cluster_docs(c)), set().union(*(docs[f] for f in members[c])), "cluster_docs")
        counts = [f[3] for f in feats]
        ctx.check(counts == sorted(counts, reverse=True), f"features of {c} are not in impact order {where}")
        ctx.equal(counts, [len(docs[f[0]]) for f in feats], f"listed feature counts are stale {where}")
    ctx.equal(sorted(rows), idx.cluster_ids, f"listed cluster ids {where}")
    sizes = [d for _, d, _ in top]
    ctx.check(sizes == sorted(sizes, reverse=True), f"clusters are not listed by document count {where}")


def ref_model(idx):
    m = ref.RefModel()
    for f, (c, _, p) in model_rows(idx).items():
        m.member[f] = c
        if p:
            m.fpin.add(f)
    for c, row in cluster_rows(idx).items():
        if row[4]:
            m.cpin.add(c)
    return m


def check_model(ctx, idx, m, where=""):
    rows = model_rows(idx)
    got = {f: c for f, (c, _, _) in rows.items()}
    if got != m.member:
        bad = {f: (got.get(f), m.member.get(f)) for f in set(got) | set(m.member) if got.get(f) != m.member.get(f)}
        ctx.fail(f"cluster membership is not what the edits asked for {where}", feature_got_want=dict(list(bad.items())[:8]))
    ctx.equal({f for f, r in rows.items() if r[2]}, m.fpin, f"pinned features {where}")
    ctx.equal(set(idx.pinned_cluster_ids), m.cpin, f"pinned clusters {where}")
    ctx.ev("models_compared")


def earlier(ctx, rng, idx, shape, chance=0.3):
    """
    Sometimes, other documents have been indexed in this file before, and every
    kind of query was answered: nothing of them is left in later answers.
    """
    if gen.SIZE > 1 or rng.random() > chance:
        return
    corpus, n = idx.corpus, rng.randint(1, 15)
    items = gen.corpus_items(rng, n, shape)
    idx.corpus = gen.MemCorpus(items)
    positions = not any(v is None for _, doc in items for vs in doc.values() for v in (vs if isinstance(vs, (list, tuple, set, frozenset)) else [vs]))
    idx.index(index_positions=positions, doc_batch_size=rng.choice([1, 4, 100]))
    everything = BitMap(range(n))
    by_field = {}
    for f, field, value in idx.db.execute("select feature_id, field, value from inverted_index").fetchall():
        by_field.setdefault(field, []).append(f)
        idx[f], idx[(field, value)], idx.lookup_feature(f), idx.lookup_feature_id((field, value))
    for field in idx.positional_fields:
        for window in (1, 5):
            idx.count_collocations(field, by_field[field], window)
            for f in by_field[field]:
                found = idx.score_passages_dnf([[f]], window)
            if all(isinstance(idx.lookup_feature(f)[1], str) for fs in by_field.values() for f in fs):
                list(idx.render_passages_table(found))
    if by_field:
        idx.initialise_clusters(rng.choice([1, 2, 5]))
        idx.top_cluster_features()
        for c in idx.cluster_ids:
            idx.cluster_docs(c), idx.cluster_query(c), idx.cluster_features(c)
        list(idx.pivot_clusters_by_query(everything)), idx.create_cluster_cooccurrence_graph(), idx.structured_doc_sample(2)
        if rng.random() < 0.5:
            idx.delete_clusters(idx.cluster_ids)
    list(idx.docs(everything)), idx.convert_query_to_keys(everything), idx.render_docs_html(everything, random_sample_size=2), idx.indexed_field_summary()
    for field in by_field:
        list(idx.iter_field_docs(field))
    idx.extract_matching_feature_windows(everything, [f for fs in by_field.values() for f in fs], 2)
    idx.corpus = corpus
    ctx.ev("indexes_with_a_past")


def modelled_index(ctx, rng, *, docs=None, pool=None, seed=None, clusters=None, positions=False, vocab=(5, 60), corpus_cls=None, **kw):
    """An index over random documents, with a model."""
    n = gen.sized(docs if docs is not None else rng.choice([3, 8, rng.randint(5, 40), rng.randint(20, 80)]))
    shape = kw.pop("shape", None) or gen.Shape(rng, vocab=vocab, positional=positions, **{k: v for k, v in kw.items() if k != "keys"})
    items = gen.corpus_items(rng, n, shape, **{k: v for k, v in kw.items() if k == "keys"})
    pool = pool or pools.InlinePool(rng.choice([1, 2, 3, 4]))
    idx = new_index(ctx, (corpus_cls or gen.MemCorpus)(items), pool, seed=seed if seed is not None else rng.randrange(10**6))
    if corpus_cls is None and n:
        earlier(ctx, rng, idx, shape, 0.15)
    idx.index(doc_batch_size=max(1, n // rng.choice([1, 2, 3])), index_positions=positions)
    nfeat = idx.db.execute("select count(*) from inverted_index").fetchone()[0]
    k = clusters if clusters is not None else rng.choice(gen.cluster_counts([1, 2, 3, 5, 8, 13]))
    if nfeat:
        idx.initialise_clusters(k)
    return idx, items, nfeat


def broad_index(ctx, rng, features=11000, docs=30, seed=None):
    """Few documents, with more features than are otherwise around."""
    items = [(k, {"t": set(), "kind": {k % 3}}) for k in range(docs)]
    for f in range(features):
        for k in rng.sample(range(docs), rng.choice([1, 1, 2, 5])):
            items[k][1]["t"].add(f"t{f:05d}")
    idx = new_index(ctx, gen.MemCorpus(items), pools.InlinePool(4), seed=rng.randrange(10**6))
    idx.index(doc_batch_size=rng.choice([7, docs]))
    ctx.ev("broad_indexes")
    return idx, items


def check_field_summary(ctx, idx, model, positional):
    """One row per field that has values, with what is present."""
    rows = {}
    for field, distinct, lo, hi, positions in idx.indexed_field_summary():
        ctx.check(field not in rows, "a field is listed twice", field=field)
        rows[field] = (distinct, ref.vkey(lo), ref.vkey(hi), positions)
    want = {}
    for field, values in model.fields().items():
        lo, hi = sql_min_max(values)
        seqs = model.seqs.get(field, {}) if positional else {}
        want[field] = (len(values), ref.vkey(lo), ref.vkey(hi), sum(map(len, seqs.values())))
    ctx.equal(rows, want, "the field summary is wrong")
    ctx.ev("field_summaries_compared", len(rows))


def sql_key(v):
    """SQLite's order: numbers, then text, then blobs."""
    if isinstance(v, (int, float)):
        return (0, v)
    if isinstance(v, str):
        return (1, v.encode("utf-8"))
    return (2, v)


def sql_min_max(values):
    s = sorted(values, key=sql_key)
    return s[0], s[-1]


# -- random edits of a model ---------------------------------------------------
def random_edit(ctx, rng, idx, m, *, refine=True, reinit=True):
    """One random edit, mirrored on the reference model where it is determined."""
    feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index order by feature_id")]
    clusters = sorted(m.clusters())
    some_feats = lambda k: [rng.choice(feats) for _ in range(rng.randint(1, k))] if feats else []
    some_clusters = lambda k: [rng.choice(clusters) for _ in range(rng.randint(1, k))] if clusters else []
    ops = ["create", "create", "merge", "merge", "delf", "delc", "pinf", "pinc"]
    if refine and (gen.SIZE == 1 or len(clusters) < 200):
        ops.append("refine")
    if reinit:
        ops.append("init")
    op = rng.choice(ops)
    if op == "create":
        f = some_feats(6)
        if rng.random() < 0.3 and m.member:
            f = rng.sample(sorted(m.member), min(len(m.member), rng.randint(1, 5)))
        if rng.random() < 0.05:
            f = []
        ctx.note(f"create_cluster_from_features({f})")
        got, want = idx.create_cluster_from_features(f), m.create(f)
        ctx.equal(got, want, "the id of a created cluster is not the next free one")
    elif op == "merge":
        c = some_clusters(4)
        if not c:
            return None
        if rng.random() < 0.15:
            c.insert(rng.randint(1, len(c)), max(clusters) + 7)  # no such cluster
        if rng.random() < 0.6:
            c = list(dict.fromkeys(c))
        ctx.note(f"merge_clusters({c})")
        ctx.equal(idx.merge_clusters(c), m.merge(c), "merging returned another cluster")
    elif op == "delf":
        f = some_feats(4) + ([max(feats, default=0) + 50] if rng.random() < 0.2 else [])
        ctx.note(f"delete_features({f})")
        idx.delete_features(f)
        m.delete_features(f)
    elif op == "delc":
        c = some_clusters(2) + ([max(clusters, default=0) + 50] if rng.random() < 0.2 else [])
        ctx.note(f"delete_clusters({c})")
        idx.delete_clusters(c)
        m.delete_clusters(c)
    elif op == "pinf":
        f, p = some_feats(5), rng.random() < 0.65
        ctx.note(f"pin_features({f}, {p})")
        idx.pin_features(f, p)
        m.pin_features(f, p)
    elif op == "pinc":
        c, p = some_clusters(3), rng.random() < 0.65
        ctx.note(f"pin_clusters({c}, {p})")
        idx.pin_clusters(c, p)
        m.pin_clusters(c, p)
    elif op == "refine":
        if not clusters:
            return None
        kw = refine_options(rng, len(clusters))
        if rng.random() < 0.4:
            kw["cluster_ids"] = sorted(set(some_clusters(4)))
        ctx.note(f"refine_clusters({kw})")
        idx.refine_clusters(**kw)
        m.__dict__.update(ref_model(idx).__dict__)  # judged by C09 to C12
    elif op == "init":
        kw = {"n_clusters": rng.choice([1, 2, 4, 9]), "min_docs": rng.choice([1, 1, 2, 3])}
        fields = [r[0] for r in idx.indexed_field_summary()]
        if fields and rng.random() < 0.5:
            kw["include_fields"] = rng.sample(fields, rng.randint(1, len(fields)))
        ctx.note(f"initialise_clusters({kw})")
        idx.initialise_clusters(**kw)
        check_initialised(ctx, idx, **kw)
        m.__dict__.update(ref_model(idx).__dict__)
    ctx.ev(f"edit:{op}")
    return op


def check_initialised(ctx, idx, n_clusters, min_docs=1, include_fields=None):
    """A fresh model: every eligible feature exactly once, spread evenly, nothing pinned."""
    want = {
        f
        for f, field, docs in idx.db.execute("select feature_id, field, doc_ids from inverted_index")
        if len(docs) >= min_docs and (include_fields is None or field in include_fields)
    }
    if include_fields is None and min_docs < 1:
        # features that disappeared are only candidates if their field is still in use
        present = {r[0] for r in idx.indexed_field_summary()}
        want = {f for f in want if idx.lookup_feature(f)[0] in present}
    rows = model_rows(idx)
    ctx.equal(set(rows), want, "the new model does not hold exactly the eligible features")
    sizes = collections.Counter(c for c, _, _ in rows.values())
    ctx.check(
        len(sizes) == min(n_clusters, len(want)), "wrong number of clusters after initialising",
        sizes=sizes, requested=n_clusters,
    )  # fmt: skip
    if sizes:
        ctx.check(
            max(sizes.values()) - min(sizes.values()) <= 1,
            "features are not spread evenly over the clusters", sizes=sizes,
        )  # fmt: skip
    ctx.check(not any(p for _, _, p in rows.values()), "a feature of a new model is pinned")
    ctx.equal(set(idx.pinned_cluster_ids), set(), "a cluster of a new model is pinned")


def refine_options(rng, n_clusters):
    kw = {"iterations": rng.choice([1, 1, 2, 3, 5])}
    if rng.random() < 0.5:
        kw["target_clusters"] = rng.randint(1, n_clusters + 5)
    if rng.random() < 0.4:
        kw["minimum_cluster_features"] = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.5:
        kw["tolerance"] = rng.choice([0, 0.05, 0.5, 1])
    if rng.random() < 0.5:
        kw["move_acceptance_probability"] = rng.choice([0, 0.1, 0.5, 0.9, 1])
    if rng.random() < 0.6:
        kw["group_test_batches"] = rng.choice([0, 1, 2, 3, 4])
        kw["group_test_top_k"] = rng.choice([1, 2, 3])
    return kw


# -- watching the committed state from outside ----------------------------------
class Watcher:
    """
    A connection of our own. At every statement of the watched connection it
    looks whether something was committed, and then judges what it sees.
    """

    def __init__(self, ctx, path):
        self.ctx = ctx
        self.db = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES, isolation_level=None, check_same_thread=False)
        ctx.defer(self.db.close)
        self.version = None
        self.problem = None
        self.commits = 0

    def attach(self, db):
        db.set_trace_callback(self.step)

    def step(self, statement):
        """Called before each statement; sqlite3 swallows what this raises."""
        self.ctx.ev("statements_watched")
        try:
            self.look(f"when the next statement is {' '.join(str(statement).split())[:150]}")
        except BaseException as e:
            self.problem = self.problem or e

    def look(self, where):
        version = self.db.execute("pragma data_version").fetchone()[0]
        if version != self.version:
            self.version = version
            self.commits += 1
            self.ctx.ev("committed_states_judged")
            self.db.execute("begin")
            try:
                check_committed(self.ctx, self.db, f"for another reader, {where}")
            finally:
                self.db.execute("commit")

    def verdict(self):
        if self.problem is not None:
            raise self.problem
        self.look("after the operation")


def check_committed(ctx, db, where):
    """The summaries of a committed state, from its rows alone."""
    docs = index_docs(db)
    members = collections.defaultdict(set)
    for f, c, n in db.execute("select feature_id, cluster_id, docs_count from feature_cluster"):
        ctx.check(f in docs, f"a feature in the model is not in the index {where}", feature=f)
        ctx.equal(n, len(docs[f]), f"a feature's document count in the model is stale {where}", feature=f)
        members[c].add(f)
    rows = cluster_rows(db)
    ctx.equal(set(rows), set(members), f"the clusters listed are not the clusters that have features {where}")
    for c, (n, d, w, bm, _) in rows.items():
        union = set().union(*(docs[f] for f in members[c]))
        want = (len(members[c]), len(union), sum(len(docs[f]) for f in members[c]), union)
        got = (n, d, w, None if bm is None else set(bm))
        ctx.equal(got, want, f"the summary of cluster {c} is stale {where}")


def failed_reads(ctx, rng, corpus, keys):
    """Ask for documents that aren't there, or stop reading early: nothing must stick."""
    asked = list(keys)
    asked.insert(rng.randint(0, len(asked)), "there is no such document")
    for name in ("docs", "render_docs_html", "render_docs_table"):
        ask = getattr(corpus, name, None)
        if ask is None:
            continue
        try:
            list(ask(asked))
        except Exception:
            ctx.ev("failed_reads")
        if name == "docs":
            some = iter(ask(keys))
            next(some, None)
            del some
        ctx.equal(corpus.db.in_transaction, False, f"a failed {name} left a transaction open")
