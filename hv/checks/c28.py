"""C28: the command line pipeline gives what the library gives."""

import csv
import json
import logging
import os
import random
import subprocess
import sys

import cherrypy
import concurrent.futures as cf
import networkx as nx
from click.testing import CliRunner
from pyroaring import BitMap

import hyperreal
import hyperreal.cli as cli
import hyperreal.server as S
from hyperreal import utilities
from hyperreal.corpus import PlainTextSqliteCorpus, StackExchangeCorpus, TwittersphereCorpus
from hyperreal.index import Index

from .. import faults, gen, lib, pools, ref, web
from ..core import Injected
from . import c24, c29

RULE = (
    "A case runs a sequence of commands (create, create again from a file that can't be read, index, model, model again with and without restart and confirmation, exports, samples, "
    "commands on files that aren't an index) with random options on random text files, and after each compares the files with those the library makes on a copy, and the exports, read back, with the index; "
    "some cases do the same with StackExchange dumps and tweets, and some run the real program in its own process, with its real worker processes, or let it serve its pages. "
    "Non-trivial: a case with a model of more than one cluster."
)
QUICK = {"cases": 72, "budget": 240}
THOROUGH = {"cases": 1400, "budget": 640}
LARGE = (24, 25)
REQUIRED = {
    "large_cases": 1,
    "commands": 700, "documents_compared": 1500, "models_like_the_library": 100, "exports_compared": 100, "samples_compared": 40, "unconfirmed": 30, "refused_files": 200, "broken_text_files": 20,
    "sites_imported": 8, "tweets_indexed": 4, "real_processes": 3, "served": 3,
}  # fmt: skip
ASSUMPTIONS = ["the plain text format is the documented one: a document per line, JSON strings decoded", "models of runs without a seed, or in other processes, are checked for consistency only"]
STALL_S = 300

WORKERS = 3


class QuickPool(pools.InlinePool):
    """What the commands get instead of starting processes."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        super().__init__(WORKERS)


class Served(Exception):
    pass


def refuse_to_serve(*args, **kwargs):
    raise Served("a server was started")


class Quick:
    """No worker processes, no servers."""

    def __enter__(self):
        self.saved = cf.ProcessPoolExecutor, S.launch_web_server, cherrypy.engine.start
        cf.ProcessPoolExecutor = QuickPool
        S.launch_web_server = refuse_to_serve
        cherrypy.engine.start = refuse_to_serve
        self.quiet = faults.quiet_manager()
        self.quiet.__enter__()
        logging.disable(logging.WARNING)

    def __exit__(self, *exc):
        logging.disable(logging.NOTSET)
        self.quiet.__exit__(*exc)
        cf.ProcessPoolExecutor, S.launch_web_server, cherrypy.engine.start = self.saved


def run(ctx, *args, text=None):
    args = [str(a) for a in args]
    ctx.note("hyperreal " + " ".join(a if len(a) < 60 else "..." + a[-50:] for a in args))
    ctx.ev("commands")
    r = CliRunner().invoke(cli.cli, args, input=text)
    if r.exception is not None and not isinstance(r.exception, (SystemExit, Exception)):
        raise r.exception
    r.why = repr(r.exception)
    # the objects of the command are not to outlive it
    if r.exception is not None:
        r.exception.__traceback__ = None
    r.exc_info = None
    return r


def done(ctx, r, what):
    ctx.equal(r.exit_code, 0, f"{what} failed", why=r.why, output=r.output[-500:])


def refused(ctx, r, what):
    ctx.check(r.exit_code != 0, f"{what} was accepted", output=r.output[-500:])


def case(ctx, rng, i):
    if i % 24 == 5:
        return serve(ctx, rng, i)
    if i % 24 == 11:
        return real(ctx, rng)
    with Quick():
        if i % 6 == 1:
            stackexchange(ctx, rng)
        elif i % 12 == 3:
            twitter(ctx, rng)
        elif i % 72 == 50:
            many_features(ctx, rng)
        else:
            pipeline(ctx, rng, i)


# -- corpora -------------------------------------------------------------------------
def line(rng):
    words = [rng.choice(gen.WORDS) for _ in range(rng.randint(1, 12))]
    for _ in range(rng.randint(0, 2)):
        words.insert(rng.randint(0, len(words)), rng.choice(["日本", "it's", "a\u2028b", "<b>&amp;", "é", "\u00a0", "semi;colon", "tab\there", "x\x0by", "'", "--", "''", "{{x}}", "#tag", 'say "hi"', "back\\slash", "\ufeff"]))
    if gen.SIZE > 1:
        words = [w + str(rng.randint(0, 40)) for w in words]
    out = " ".join(words)
    r = rng.random()
    if r < 0.08:
        out = rng.choice(["  ", "\t", " "]) + out
    elif r < 0.16:
        out += rng.choice(["  ", "\t"])
    elif r < 0.22:
        out = '"' + " ".join(rng.choice(gen.WORDS) for _ in range(3)) + '"'
    return out


KINDS = ["normal"] * 6 + ["wide", "comma", "escapes", "quote", "long"]


def text_file(rng, path, n, kind="normal"):
    lines = [line(rng) for _ in range(n)]
    if kind == "comma":
        lines.insert(rng.randint(0, len(lines)), "alpha beta, gamma")
    elif kind == "escapes":
        lines.insert(rng.randint(0, len(lines)), rng.choice(['"alpha\\nbeta"', '"alpha \\"beta\\" gamma"', '"\\u00e9t\\u00e9"']))
    elif kind == "quote":
        lines.insert(rng.randint(0, len(lines)), '"alpha" beta')
    elif kind == "wide":
        lines.insert(rng.randint(0, len(lines)), "alpha beta " * 11900)
    elif kind == "long":
        lines.insert(rng.randint(0, len(lines)), "alpha " * 24000)
    for _ in range(rng.randint(0, 3)):
        lines.insert(rng.randint(0, len(lines)), rng.choice(["", " ", "\t ", "\u3000"]))
    end = rng.choice(["\n", "\n", "\r\n"])
    data = end.join(lines) + rng.choice([end, ""])
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(data)
    return lines


def documented(lines):
    out = []
    for text in lines:
        if not text.strip():
            continue
        if len(text) > 1 and text[0] == text[-1] == '"':
            text = json.loads(text)
        out.append(text)
    return out


def first_cells(path):
    """What is made of a file that is not in the documented format after all (known findings)."""
    with open(path, encoding="utf-8") as f:
        return [row[0] for row in csv.reader(f) if row and row[0].strip()]


def stored(path):
    if not os.path.exists(path) or not content(path):
        return None  # nothing was ever created
    corpus = PlainTextSqliteCorpus(path)
    try:
        return [(k, d["text"]) for k, d in corpus.docs()]
    finally:
        corpus.close()


def create(ctx, rng, where, db, n, kind):
    path = os.path.join(where, "texts.txt")
    lines = text_file(rng, path, n, kind)
    before = stored(db)
    r = run(ctx, "plaintext-corpus", "create", path, db)
    want = documented(lines)
    if kind == "long" and r.exit_code != 0:
        ctx.known_finding("cli-create-long-line", "a document of more than 131072 characters is refused", why=r.why)
        if before is not None:
            ctx.equal(stored(db), before, "a corpus that could not be replaced changed")
            return before
        text_file(rng, path, n)
        return create(ctx, rng, where, db, n, "normal")
    done(ctx, r, "creating a corpus")
    got = stored(db)
    texts = [t for _, t in got]
    ctx.equal(len({k for k, _ in got}), len(got), "keys of a corpus are not unique")
    if texts != want:
        keys = {"comma": "cli-create-drops-text-after-comma", "escapes": "cli-create-no-json-escapes", "quote": "cli-create-unbalanced-quote"}
        if kind in keys and texts == first_cells(path):
            ctx.known_finding(keys[kind], "documents are not stored as documented", lines=[x for x in lines if x not in texts][:3])
        else:
            ctx.equal(texts, want, "the documents stored are not the lines of the file")
    ctx.ev("documents_compared", len(texts))
    ctx.state("text_files", (lines, kind))
    return got


def broken_create(ctx, rng, where, db):
    """A file that turns out to be no text on the way."""
    before = stored(db)
    path = os.path.join(where, "broken.txt")
    text_file(rng, path, rng.randint(0, 30))
    with open(path, "ab") as f:
        f.write(b"\nalpha \xff\xfe beta\n" + b"gamma\n" * rng.randint(0, 3))
    refused(ctx, run(ctx, "plaintext-corpus", "create", path, db), "creating a corpus from a file that isn't text")
    ctx.equal(stored(db), before, "a corpus that could not be replaced changed")
    refused(ctx, run(ctx, "plaintext-corpus", "create", os.path.join(where, "not there.txt"), db), "creating a corpus from a file that isn't there")
    ctx.equal(stored(db), before, "a corpus that could not be replaced changed")
    ctx.ev("broken_text_files")


# -- indexing --------------------------------------------------------------------------
def index(ctx, rng, command, corpus_db, index_db, items):
    args, positions = [], True
    if rng.random() < 0.6:
        args += ["--doc-batch-size", rng.choice([1, 2, 7, 1000]) if len(items) < 40 else rng.choice([20, 1000])]
    if rng.random() < 0.5:
        positions = rng.random() < 0.5
        args += ["--index-positions", positions if rng.random() < 0.5 else int(positions)]
    done(ctx, run(ctx, command, "index", corpus_db, index_db, *args), "indexing")
    idx = Index(index_db, pool=pools.InlinePool(2))
    try:
        model = ref.RefIndex(items)
        lib.check_boolean(ctx, idx, model, rng)
        lib.check_doc_keys(ctx, idx, model)
        if positions:
            lib.check_positions(ctx, idx, model)
        else:
            ctx.equal(idx.db.execute("select count(*) from position_index").fetchone()[0], 0, "positions were indexed")
        lib.check_field_summary(ctx, idx, model, positions)
        lib.check_summaries(ctx, idx, "after indexing")
    finally:
        idx.close()
    ctx.ev("documents_compared", len(items))


def plain_items(docs):
    return [(k, {"text": utilities.tokens(t)}) for k, t in docs]


# -- modelling -------------------------------------------------------------------------
def backup(src, dst):
    a, b = faults.real_connect(src), faults.real_connect(dst)
    a.backup(b)
    a.close()
    b.close()


def model_options(rng, fields):
    o = {"random_seed": rng.choice([0, rng.randrange(10**6), rng.randrange(10**6)])}
    if rng.random() < 0.8:
        o["iterations"] = rng.choice([1, 2, 5])
    if rng.random() < 0.7:
        o["clusters"] = rng.choice([1, 2, 3, 5, 9])
    if rng.random() < 0.85:
        o["min_docs"] = rng.choice([1, 1, 2, 5])
    if fields and rng.random() < 0.3:
        o["include_field"] = rng.sample(fields, rng.randint(1, len(fields)))
    for name, values in {
        "tolerance": [0, 0.5, 1], "move_acceptance_probability": [0, 0.1, 0.9, 1], "minimum_cluster_features": [2, 4], "group_test_batches": [0, 1, 3], "group_test_top_k": [1, 3],
    }.items():  # fmt: skip
        if rng.random() < 0.3:
            o[name] = rng.choice(values)
    return o


def option_args(o):
    out = []
    for k, v in o.items():
        for x in v if isinstance(v, list) else [v]:
            out += [f"--{k.replace('_', '-')}", x]
    return out


def model(ctx, rng, where, index_db, fields, restart=False, confirm=None):
    """Model from the command line, and with the library on a copy."""
    o = model_options(rng, fields)
    before = lib.dump(index_db)
    copy = os.path.join(where, "copy.db")
    backup(index_db, copy)
    text = None if confirm is None else confirm
    args = [*option_args(o), *(["--restart"] if restart else [])]
    rng.shuffle(args) if not o and restart else None
    r = run(ctx, "model", *args, index_db, text=text)
    now = lib.dump(index_db)
    what = f"(model {args}, answering {confirm!r})"
    twin = Index(copy, pool=QuickPool(), random_seed=o["random_seed"])
    failed = None
    try:
        has = bool(twin.cluster_ids)
        if has and restart and (confirm or "").strip().lower() not in ("y", "yes"):
            refused(ctx, r, f"restarting without confirmation {what}")
            ctx.equal(now, before, f"a model was changed without confirmation {what}", diff=lib.diff_dumps(now, before))
            ctx.ev("unconfirmed")
            return
        clusters = o.get("clusters")
        if restart or not has:
            clusters = clusters or 64
            docs = lib.index_docs(twin)
            names = lib.feature_ids(twin)
            want = {f for f, d in docs.items() if len(d) >= o.get("min_docs", 100) and (not o.get("include_field") or names[f][0] in o["include_field"])}
            twin.initialise_clusters(clusters, min_docs=o.get("min_docs", 100), include_fields=o.get("include_field"))
        else:
            want = set(lib.model_rows(twin))
        try:
            twin.refine_clusters(
                iterations=o.get("iterations", 10), target_clusters=clusters, tolerance=o.get("tolerance", 0.01), move_acceptance_probability=o.get("move_acceptance_probability", 0.5),
                minimum_cluster_features=o.get("minimum_cluster_features", 1), group_test_batches=o.get("group_test_batches"), group_test_top_k=o.get("group_test_top_k", 2),
            )  # fmt: skip
        except Exception as e:
            failed = e
    finally:
        twin.close()
    same = lib.dump(copy)
    os.remove(copy)
    if failed is None:
        done(ctx, r, f"modelling {what}")
    else:
        refused(ctx, r, f"what the library can't do {what}")
    ctx.equal(now, same, f"the model is not the one the library makes {what}", diff=lib.diff_dumps(now, same))
    idx = Index(index_db)
    try:
        ctx.equal(set(lib.model_rows(idx)), want, f"the features modelled are not those asked for {what}")
        if clusters:
            ctx.check(len(idx.cluster_ids) <= max(clusters, 1) or failed is not None, f"more clusters than asked for {what}", clusters=idx.cluster_ids)
        lib.check_summaries(ctx, idx, what)
    finally:
        idx.close()
    ctx.ev("models_like_the_library")
    ctx.state("model_commands", (sorted(o), restart, confirm, failed is None))


# -- exports ---------------------------------------------------------------------------
def exports(ctx, rng, where, index_db, options=(None, 0, 1, 3, 1000)):
    idx = Index(index_db, pool=QuickPool())
    try:
        out = os.path.join(where, "out.csv")
        if rng.random() < 0.5:
            with open(out, "w") as f:
                f.write("left over\n" * 5000)
        k = rng.choice(options)
        done(ctx, run(ctx, "export", "clusters", index_db, out, *([] if k is None else ["--top-k-features", k])), "exporting clusters")
        with open(out, encoding="utf-8", newline="") as f:
            rows = list(csv.reader(f))
        ctx.equal(rows[0], ["cluster_id", "feature_id", "field", "value", "docs_count"], "header of the exported clusters")
        docs, names, members = lib.index_docs(idx), lib.feature_ids(idx), lib.model_rows(idx)
        top = 10 if k is None else k or 10**9
        seen = {}
        for c, f, field, value, count in rows[1:]:
            f = int(f)
            ctx.check(f not in seen, "a feature is exported twice", feature=f)
            ctx.equal((int(c), field, value, int(count)), (members[f][0], str(names[f][0]), str(names[f][1]), len(docs[f])), "a feature exported, read back", feature=f)
            seen[f] = int(c)
        for c in idx.cluster_ids:
            mine = [f for f, row in members.items() if row[0] == c]
            got = [f for f, x in seen.items() if x == c]
            ctx.equal(len(got), min(top, len(mine)), "number of features exported of a cluster", cluster=c, options=k)
            low = min((len(docs[f]) for f in got), default=0)
            ctx.check(all(len(docs[f]) <= low for f in set(mine) - set(got)), "other features than the most frequent were exported", cluster=c)
        order = [int(r[0]) for r in rows[1:]]
        ctx.equal([c for c, n in zip(order, [None] + order) if c != n].__len__(), len(set(order)), "clusters are mixed up in the export")

        out = os.path.join(where, "out.graphml")
        o = {} if rng.random() < 0.4 else {"--top-k-features": rng.choice([1, 2, 5, 100])}
        label = rng.choice([None, "--include-field-in-label", "--exclude-field-in-label"])
        done(ctx, run(ctx, "export", "graph", index_db, out, *[x for kv in o.items() for x in kv], *([label] if label else [])), "exporting the graph")
        g = nx.read_graphml(out)
        want = idx.create_cluster_cooccurrence_graph(top_k=o.get("--top-k-features", 5), include_field_in_label=label != "--exclude-field-in-label")
        ctx.equal({n: (d["document_count"], d["label"]) for n, d in g.nodes(data=True)}, {str(n): (d["document_count"], d["label"]) for n, d in want.nodes(data=True)}, "nodes of the exported graph")
        edges = {frozenset((a, b)): d["weight"] for a, b, d in g.edges(data=True)}
        cdocs = {c: set(idx.cluster_docs(c)) for c in idx.cluster_ids}
        ctx.equal(set(g.nodes), {str(c) for c in cdocs}, "clusters in the exported graph")
        for a in cdocs:
            for b in cdocs:
                if a < b:
                    both = len(cdocs[a] & cdocs[b])
                    w = edges.pop(frozenset((str(a), str(b))), 0)
                    ctx.check(abs(w - both / (len(cdocs[a] | cdocs[b]) or 1)) < 1e-9, "weight of an edge in the exported graph", clusters=(a, b), got=w)
        ctx.equal(edges, {}, "extra edges in the exported graph")
        ctx.ev("exports_compared", 2)
        if len(cdocs) > 1:
            ctx.distinct((sorted(cdocs), rows))
    finally:
        idx.close()


def sample(ctx, rng, where, command, corpus, corpus_db, index_db, check_row):
    """Export a sample. `check_row(key, row)` compares a row with the document."""
    out = os.path.join(where, "sample.csv")
    n = rng.choice([None, 0, 1, 2, 7])
    before = lib.dump(index_db)
    done(ctx, run(ctx, command, "sample", corpus_db, index_db, out, *([] if n is None else [f"--docs-per-cluster={n}"])), "sampling")
    ctx.equal(lib.dump(index_db), before, "sampling changed the index")
    idx = Index(index_db)
    try:
        ids = {str(k): d for d, k in lib.doc_keys(idx).items()}
        cdocs = {c: set(idx.cluster_docs(c)) for c in idx.cluster_ids}
    finally:
        idx.close()
    with open(out, encoding="utf-8", newline="") as f:
        reader = csv.DictReader(f)
        rows = list(reader)
    taken, per = set(), {c: set() for c in cdocs}
    for row in rows:
        d, c = ids[row["doc_key"]], int(row["sampled_cluster"])
        ctx.check(d not in taken, "a document was sampled twice", key=row["doc_key"])
        ctx.check(d in cdocs[c], "a document was sampled for a cluster it isn't in", key=row["doc_key"], cluster=c)
        taken.add(d)
        per[c].add(d)
        marks = {int(k[8:]) for k, v in row.items() if k.startswith("cluster_") and v == "1"}
        ctx.equal(marks, {c for c, ds in cdocs.items() if d in ds}, "clusters of a sampled document", key=row["doc_key"])
        check_row(row["doc_key"], row)
    cap = 50 if n is None else n or 10**9
    for c, ds in per.items():
        ctx.check(len(ds) <= cap, "too many documents were sampled", cluster=c, options=n)
        ctx.check(len(ds) == cap or cdocs[c] <= taken, "too few documents were sampled", cluster=c, options=n)
    ctx.ev("samples_compared")


# -- files that aren't an index ----------------------------------------------------------
def foreign_file(rng, path):
    kind = rng.choice(["database", "marked", "text", "noise", "empty"])
    if kind in ("database", "marked"):
        db = faults.real_connect(path)
        db.execute("create table precious(a)")
        db.executemany("insert into precious values(?)", [(j,) for j in range(20)])
        if kind == "marked":
            db.execute(f"pragma application_id = {rng.choice([1, 252006673, 1715682359])}")
        db.commit()
        db.close()
    else:
        with open(path, "wb") as f:
            f.write({"text": b"just some text\n" * 60, "noise": bytes(rng.randrange(256) for _ in range(3000)), "empty": b""}[kind])
    return kind


def foreign(ctx, rng, where, corpus_db):
    path = os.path.join(where, "foreign.file")
    kind = foreign_file(rng, path)
    out = os.path.join(where, "never")
    commands = [
        ("model", path, "--min-docs", 1), ("model", "--restart", path), ("export", "graph", path, out), ("export", "clusters", path, out), ("plaintext-corpus", "sample", corpus_db, path, out),
        ("stackexchange-corpus", "sample", corpus_db, path, out), ("serve", path), ("plaintext-corpus", "serve", corpus_db, path), ("stackexchange-corpus", "serve", corpus_db, path), ("twittersphere-corpus", "serve", corpus_db, path),
    ]  # fmt: skip
    if kind != "empty":
        commands.append(("plaintext-corpus", "index", corpus_db, path))
    with open(path, "rb") as f:
        before = f.read()
    for args in rng.sample(commands, 6):
        r = run(ctx, *args, text="y\n")
        what = f"('{' '.join(map(str, args[:2]))}' on a file that is {kind})"
        refused(ctx, r, f"a file that isn't an index {what}")
        ctx.check("Served" not in r.why, f"a file that isn't an index was served {what}")
        with open(path, "rb") as f:
            ctx.check(f.read() == before, f"a file that isn't an index was changed {what}")
        ctx.check(not os.path.exists(out), f"something was exported {what}")
        ctx.ev("refused_files")
        gone = os.path.join(where, "nowhere.db")
        if args[1] != "index":
            refused(ctx, run(ctx, *[gone if a == path else a for a in args], text="y\n"), f"a file that isn't there {what}")
            ctx.check(not os.path.exists(gone), f"a file was created {what}")
    os.remove(path)


# -- cases -----------------------------------------------------------------------------
def many_features(ctx, rng):
    """All the features of a large vocabulary, in one cluster, exported."""
    where = ctx.tmp()
    index_db = os.path.join(where, "index.db")
    idx = Index(index_db, corpus=gen.MemCorpus([(0, {"text": [f"w{j}" for j in range(rng.randint(33000, 36000))]})]), pool=QuickPool())
    idx.index()
    idx.initialise_clusters(1)
    idx.close()
    exports(ctx, rng, where, index_db, (0,))


def pipeline(ctx, rng, i):
    where = ctx.tmp()
    corpus_db, index_db = os.path.join(where, "corpus.db"), os.path.join(where, rng.choice(["index.db", "in dex é.db"]))
    n = rng.choice([0, 1, 3, rng.randint(4, 30), rng.randint(4, 30), rng.randint(4, 30), 130]) if gen.SIZE == 1 else rng.randint(45, 70) * gen.SIZE
    docs = create(ctx, rng, where, corpus_db, n, rng.choice(KINDS))
    if rng.random() < 0.3:
        docs = create(ctx, rng, where, corpus_db, rng.randint(1, 30), rng.choice(KINDS))
    if rng.random() < 0.6:
        broken_create(ctx, rng, where, corpus_db)
    index(ctx, rng, "plaintext-corpus", corpus_db, index_db, plain_items(docs))
    if not docs:
        return
    if gen.SIZE > 1:
        # Everything in one cluster, and all of it exported
        done(ctx, run(ctx, "model", "--min-docs", 1, "--clusters", 1, "--iterations", 1, index_db), "modelling")
        exports(ctx, rng, where, index_db, (0,))
        # From an empty model again
        idx = Index(index_db, pool=QuickPool())
        idx.delete_clusters(idx.cluster_ids)
        idx.close()
    texts = {str(k): t for k, t in docs}

    def same_text(key, row):
        ctx.equal(row["text"], texts[key], "text of a sampled document", key=key)

    for step in range(rng.randint(3, 6)):
        model(ctx, rng, where, index_db, ["text", "nothing"], restart=step > 0 and rng.random() < 0.6, confirm=rng.choice([None, "y\n", "Y\n", "y\n", "n\n", "\n", "", "N\n", "yes\n"]))
        if rng.random() < 0.5:
            exports(ctx, rng, where, index_db)
        if rng.random() < 0.3:
            sample(ctx, rng, where, "plaintext-corpus", PlainTextSqliteCorpus, corpus_db, index_db, same_text)
        if rng.random() < 0.15:
            docs = create(ctx, rng, where, corpus_db, gen.sized(rng.randint(1, 30)), "normal")
            texts.clear()
            texts.update((str(k), t) for k, t in docs)
            index(ctx, rng, "plaintext-corpus", corpus_db, index_db, plain_items(docs))
    foreign(ctx, rng, where, corpus_db)
    if i % 12 == 0:
        ctx.sample({"documents": [t for _, t in docs[:3]], "options": "see RULE"})


def content(path):
    """Every table of a corpus, as a bag of rows."""
    db = faults.real_connect(path)
    try:
        tables = [r[0] for r in db.execute("select name from sqlite_master where type = 'table'")]
        return {t: sorted(map(repr, db.execute(f'select * from "{t}"'))) for t in tables}
    finally:
        db.close()


def stackexchange(ctx, rng):
    where = ctx.tmp()
    corpus_db, twin_db, index_db = (os.path.join(where, x) for x in ("corpus.db", "twin.db", "index.db"))
    twin = StackExchangeCorpus(twin_db)
    ctx.defer(twin.close)
    for url in rng.sample(["https://stackoverflow.com", "https://tex.stackexchange.com"], rng.choice([1, 2])):
        site = c24.Site(rng, url)
        for _ in range(rng.choice([1, 1, 2])):
            files = site.write(where, None)
            done(ctx, run(ctx, "stackexchange-corpus", "add-site", *files, url, corpus_db), "adding a site")
            twin.add_site_data(*files, url)
            ctx.equal(content(corpus_db), content(twin_db), "the site as imported from the command line")
            ctx.ev("sites_imported")
            site.update()
    broken = os.path.join(where, "broken.xml")
    with open(broken, "w") as f:
        f.write('<posts><row Id="1" ')
    refused(ctx, run(ctx, "stackexchange-corpus", "add-site", broken, *files[1:], url, corpus_db), "adding a broken dump")
    ctx.equal(content(corpus_db), content(twin_db), "a failed import changed the corpus")
    items = [(k, twin.index(d)) for k, d in twin.docs()]
    index(ctx, rng, "stackexchange-corpus", corpus_db, index_db, items)
    for _ in range(2):
        model(ctx, rng, where, index_db, sorted({f for _, d in items for f in d}), restart=rng.random() < 0.4, confirm="y\n")
    exports(ctx, rng, where, index_db)
    table = {str(k): row for k, row in twin.render_docs_table([k for k, _ in items])}

    def same_row(key, row):
        for f in StackExchangeCorpus.table_fields:
            want = table[key][f]
            ctx.equal(row[f], "" if want is None else str(want), "a field of a sampled post", key=key, field=f)

    sample(ctx, rng, where, "stackexchange-corpus", StackExchangeCorpus, corpus_db, index_db, same_row)
    foreign(ctx, rng, where, corpus_db)


def twitter(ctx, rng):
    where = ctx.tmp()
    corpus_db, index_db = os.path.join(where, "tweets.db"), os.path.join(where, "index.db")
    tweets = c29.Tweets(rng, corpus_db)
    tweets.db.commit()
    tweets.db.close()
    corpus = TwittersphereCorpus(corpus_db)
    ctx.defer(corpus.close)
    items = [(k, corpus.index(d)) for k, d in corpus.docs()]
    index(ctx, rng, "twittersphere-corpus", corpus_db, index_db, items)
    for _ in range(2):
        model(ctx, rng, where, index_db, sorted({f for _, d in items for f in d}), restart=rng.random() < 0.4, confirm="y\n")
    refused(ctx, run(ctx, "twittersphere-corpus", "index", index_db, os.path.join(where, "other.db")), "indexing a database that holds no tweets")
    ctx.ev("tweets_indexed")


# -- the real program --------------------------------------------------------------------
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(hyperreal.__file__)))
PROGRAM = f"import sys; sys.path.insert(0, {ROOT!r}); from hyperreal.cli import cli; cli()"


def program(ctx, *args, text=None, code=PROGRAM):
    args = [str(a) for a in args]
    ctx.note("real: hyperreal " + " ".join(args))
    p = subprocess.run([sys.executable, "-c", code, *args], input=text, capture_output=True, text=True, timeout=300, env={**os.environ, "PYTHONPATH": ROOT})
    ctx.ev("commands")
    return p


def real(ctx, rng):
    """Separate processes, real worker processes, a real terminal's input."""
    where = ctx.tmp()
    corpus_db, index_db, texts = (os.path.join(where, x) for x in ("corpus.db", "index.db", "t.txt"))
    lines = text_file(rng, texts, rng.randint(5, 40))
    p = program(ctx, "plaintext-corpus", "create", texts, corpus_db)
    ctx.equal(p.returncode, 0, "creating a corpus failed", output=p.stderr[-500:])
    docs = stored(corpus_db)
    ctx.equal([t for _, t in docs], documented(lines), "the documents stored are not the lines of the file")
    p = program(ctx, "plaintext-corpus", "index", corpus_db, index_db, "--doc-batch-size", rng.choice([3, 1000]))
    ctx.equal(p.returncode, 0, "indexing failed", output=p.stderr[-800:])
    p = program(ctx, "model", index_db, "--min-docs", 1, "--clusters", 4, "--iterations", 2)
    ctx.equal(p.returncode, 0, "modelling failed", output=p.stderr[-800:])
    before = lib.dump(index_db)
    p = program(ctx, "model", index_db, "--restart", text=rng.choice(["n\n", ""]))
    ctx.equal((p.returncode, lib.dump(index_db)), (1, before), "restarting without confirmation")
    idx = Index(index_db, pool=pools.InlinePool(2))
    try:
        m = ref.RefIndex(plain_items(docs))
        lib.check_boolean(ctx, idx, m, rng)
        lib.check_positions(ctx, idx, m)
        lib.check_summaries(ctx, idx, "after real commands")
        ctx.equal(set(lib.model_rows(idx)), set(lib.index_docs(idx)), "the features modelled")
        ctx.check(1 <= len(idx.cluster_ids) <= 4, "the number of clusters", clusters=idx.cluster_ids)
        out = os.path.join(where, "g.graphml")
        p = program(ctx, "export", "graph", index_db, out)
        ctx.equal(p.returncode, 0, "exporting failed", output=p.stderr[-800:])
        ctx.equal(set(nx.read_graphml(out).nodes), {str(c) for c in idx.cluster_ids}, "clusters of the exported graph")
    finally:
        idx.close()
    ctx.ev("real_processes")


SERVE = """
import sys; sys.path.insert(0, %r)
import http.client, json
import cherrypy, cherrypy.process.wspbus as wspbus
import hyperreal.server as S
launch = S.launch_web_server
S.launch_web_server = lambda *a, **k: launch(*a, **{**k, "port": 0})
out, paths, args = json.loads(sys.argv.pop())
def block(bus, *a, **k):
    pages = {}
    for path in paths:
        c = http.client.HTTPConnection(*cherrypy.server.bound_addr[:2], timeout=60)
        c.request("GET", path)
        r = c.getresponse()
        pages[path] = (r.status, r.read().decode())
    with open(out, "w") as f:
        json.dump(pages, f)
    bus.exit()
wspbus.Bus.block = block
from hyperreal.cli import cli
cli(args)
"""


def serve(ctx, rng, i):
    """What is served is the index, with the documents of the corpus."""
    where = ctx.tmp()
    corpus_db, index_db = os.path.join(where, "corpus.db"), os.path.join(where, "index.db")
    kind = ["plaintext-corpus", "serve", "stackexchange-corpus"][(i // 24) % 3]
    if kind == "stackexchange-corpus":
        corpus = StackExchangeCorpus(corpus_db)
        site = c24.Site(rng, "https://tex.stackexchange.com")
        corpus.add_site_data(*site.write(where, None), site.url)
    else:
        corpus = PlainTextSqliteCorpus(corpus_db)
        corpus.replace_docs([f"d{j} " + line(rng) for j in range(rng.randint(3, 20))])
    ctx.defer(corpus.close)
    with faults.quiet_manager():
        idx = Index(index_db, corpus=corpus, pool=pools.InlinePool(2))
        idx.index()
        idx.initialise_clusters(3)
    f = rng.choice(sorted(lib.model_rows(idx)))
    want = idx.render_docs_html(idx[f])
    clusters = len(idx.cluster_ids)
    idx.close()
    out = os.path.join(where, "pages.json")
    paths = ["/index/", "/index/0/", f"/index/0/?feature_id={f}&exemplar_docs=100", "/index/0/details", "/index/1/"]
    args = ["serve", index_db] if kind == "serve" else [kind, "serve", corpus_db, index_db]
    p = program(ctx, json.dumps([out, paths, args]), code=SERVE % ROOT)
    ctx.check(os.path.exists(out), "nothing was served", command=args, output=p.stderr[-800:])
    with open(out) as fh:
        pages = json.load(fh)
    ctx.equal([pages[x][0] for x in paths], [200, 200, 200, 200, 404], "pages served", command=args)
    page = web.Page(pages["/index/0/"][1])
    ctx.equal(len(page.root.cls("feature-cluster")), clusters, "clusters served", command=args)
    page = web.Page(pages[paths[2]][1])
    lists = page.root.cls("doc-list", "ul")
    if kind == "serve":
        ctx.equal(lists, [], "documents were served without a corpus")
    else:
        lis = [n.text for n in lists[0].children if isinstance(n, web.Node)]
        ctx.equal(len(lis), len(want), "number of documents served", command=args)
        if kind == "plaintext-corpus":
            ctx.equal(lis, [str(t) for _, _, t in want], "documents served", command=args)
    ctx.ev("served")
