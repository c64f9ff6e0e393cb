"""C30: nothing is left behind, and pools are used as given."""

import concurrent.futures
import contextlib
import gc
import multiprocessing
import os
import signal
import sqlite3
import subprocess
import sys
import tempfile
import threading
import time
import urllib.parse
import weakref

from pyroaring import BitMap

from hyperreal import corpus as C
from hyperreal.index import Index

from .. import core, faults, gen, lib, pools, web
from ..core import Injected

RULE = (
    "A case uses an index in every way (edits, refining, queries, passages, exports, indexing, corpora of each kind), with documents, keys and worker tasks that fail in between, "
    "or serves it to random requests (pages, edits, wrong and failing ones), or runs a program with the default pool that succeeds, fails or is interrupted; after each step the open connections, "
    "files, temporary files, threads and processes are compared with those before, and all submissions, shutdowns and starts of worker pools are recorded. "
    "Non-trivial: at least one step failed."
)
QUICK = {"cases": 120, "budget": 170}
THOROUGH = {"cases": 1600, "budget": 640}
REQUIRED = {
    "steps": 350, "failed_steps": 50, "indexing_runs": 80, "failed_indexing_runs": 15, "closed": 40, "requests": 300, "failed_requests": 80,
    "programs": 5, "default_pools": 10, "batches_in_flight": 15, "failures_beside_slow_batches": 6, "corpora_closed": 8, "real_managers": 8,
}  # fmt: skip
ASSUMPTIONS = [
    "what is no longer referenced is released when the interpreter collects it",
    "a file that is open elsewhere keeps its write-ahead log",
]


# -- what is open -------------------------------------------------------------------
class Connection(sqlite3.Connection):
    def close(self):
        super().close()
        self.state["closed"] = True

    @property
    def released(self):
        return "closed" in self.state


class Tracker:
    """The live connections of this process, by file."""

    def __init__(self):
        self.lock = threading.Lock()
        self.made = []
        self.dropped = []  # files of connections that were forgotten, not closed
        self.real = sqlite3.connect

    def connect(self, *args, **kwargs):
        if "factory" not in kwargs and len(args) < 6:
            kwargs["factory"] = Connection
        db = self.real(*args, **kwargs)
        if isinstance(db, Connection):
            name = os.fspath(args[0] if args else kwargs["database"])
            name = name.decode() if isinstance(name, bytes) else name
            if name.startswith("file:"):
                name = urllib.parse.unquote(name[5:].split("?")[0])
            db.where = name if name.startswith(":") or not name else os.path.realpath(name)
            db.state = state = {}
            where = db.where
            weakref.finalize(db, lambda: state or self.dropped.append(where)).atexit = False
            with self.lock:
                self.made = [r for r in self.made if not getattr(r(), "released", True)]
                self.made.append(weakref.ref(db))
        return db

    def live(self, where):
        """Files below a directory, or elsewhere in temporary directories, that connections are open on."""
        out = []
        with self.lock:
            refs = [r() for r in self.made]
        for db in refs:
            if db is None or db.released:
                continue
            if db.where.startswith(where + os.sep):
                out.append(os.path.relpath(db.where, where))
            elif not db.where.startswith("/") or db.where.startswith(temporary_root()):
                out.append(db.where)
        return sorted(out)

    def __enter__(self):
        sqlite3.connect = self.connect
        return self

    def __exit__(self, *exc):
        sqlite3.connect = self.real


def temporary_root():
    return os.path.realpath(tempfile.gettempdir()) + os.sep


def open_files(where):
    """Names of the files below a directory that this process has open."""
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            name = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if name.startswith(where + os.sep):
            out.add(os.path.relpath(name, where))
        elif name.startswith(temporary_root()) and name.split(" (")[0].endswith((".db", "-wal", "-shm", "-journal")):
            out.add(name)
    return out


def leftovers():
    """Temporary files, other than those of the cases and of multiprocessing."""
    return {n for n in os.listdir(tempfile.gettempdir()) if not n.startswith(("case-", "pymp-"))}


class Pool(concurrent.futures.Executor):
    """Records what is done with the pool that is handed over."""

    def __init__(self, inner):
        self.inner, self.closed, self.lock = inner, 0, threading.Lock()
        self.submitted = self.flying = self.most = 0
        self.futures = []

    @property
    def _max_workers(self):
        return self.inner._max_workers

    def submit(self, fn, /, *args, **kwargs):
        with self.lock:
            self.submitted += 1
            self.flying += 1
            self.most = max(self.most, self.flying)
        try:
            f = self.inner.submit(fn, *args, **kwargs)
        except BaseException:
            self.landed()
            raise
        self.futures = [g for g in self.futures if not g.done()] + [f]
        f.add_done_callback(self.landed)
        return f

    def landed(self, _=None):
        with self.lock:
            self.flying -= 1

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed += 1


class Started:
    """Stands in for ProcessPoolExecutor: counts the pools that are started."""

    def __init__(self):
        self.pools = []

    def __call__(self, max_workers=None, *args, **kwargs):
        self.pools.append(pools.InlinePool(max_workers or 3))
        return self.pools[-1]

    def __enter__(self):
        self.real = concurrent.futures.ProcessPoolExecutor
        concurrent.futures.ProcessPoolExecutor = self
        return self

    def __exit__(self, *exc):
        concurrent.futures.ProcessPoolExecutor = self.real


def shard_setup(ctx):
    # Helpers that multiprocessing starts once, and keeps.
    m = multiprocessing.Manager()
    m.shutdown()
    web.start()


def shard_teardown(ctx):
    web.stop()


def case(ctx, rng, i):
    if i % 12 == 5:
        program(ctx, rng, i)
    elif i % 40 == 26:
        unfinished(ctx, rng)
    elif i % 10 == 3:
        overtaken(ctx, rng)
    elif i % 3 == 1:
        serving(ctx, rng)
    else:
        library(ctx, rng)


# -- the library ----------------------------------------------------------------------
class Tripping(gen.MemCorpus):
    """Fails at a key, a document or the features of one."""

    def __init__(self, items, where, at):
        super().__init__(items)
        self.where, self.at = where, at

    def __reduce__(self):
        return Tripping, (list(self.items), self.where, self.at)

    def keys(self):
        for n, k in enumerate(super().keys()):
            if self.where == "keys" and n == self.at:
                raise Injected("keys")
            yield k

    def docs(self, doc_keys=None):
        bad = list(super().keys())[self.at]
        for k, d in super().docs(doc_keys):
            if self.where == "docs" and k == bad:
                raise Injected("docs")
            yield k, d

    def index(self, doc):
        if self.where == "index" and doc["key"] == list(super().keys())[self.at]:
            raise Injected("index")
        return super().index(doc)


def settle(ctx, get, want, what, wait=8):
    """Something has to become as it was, at the latest when garbage has been collected."""
    got = get()
    deadline = time.time() + wait
    while got != want:
        gc.collect()
        got = get()
        if got == want or time.time() > deadline:
            break
        time.sleep(0.01)
    ctx.equal(got, want, what)


def judge(ctx, tracker, where, names, threads, temporary, what):
    """Only these files are open, once each, and there is nothing new beside them."""
    settle(ctx, lambda: tracker.live(where), sorted(names), f"other connections than before are open {what}")
    allowed = {n + s for n in names for s in ("", "-wal", "-shm", "-journal")}
    settle(ctx, lambda: open_files(where) - allowed, set(), f"files were left open {what}")
    settle(ctx, lambda: [p.name for p in multiprocessing.active_children()], [], f"processes were left running {what}")
    settle(ctx, lambda: [t.name for t in threading.enumerate() if t not in threads], [], f"threads were left running {what}")
    settle(ctx, lambda: leftovers() - temporary, set(), f"temporary files were left {what}")


def whole(ctx, path, before, what):
    """The file alone holds everything."""
    ctx.equal([s for s in ("-wal", "-shm", "-journal") if os.path.exists(path + s)], [], f"files were left beside the database {what}")
    ctx.check(lib.dump(path) == before, f"the file alone is not complete {what}")


def step(ctx, rng, idx, inner, items, corpus, tracker):
    """One use of an index. May fail, and says whether it did."""
    feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index")]
    clusters = idx.cluster_ids
    some = lambda xs, k: rng.sample(xs, min(len(xs), k))
    of = lambda field: [r[0] for r in idx.db.execute("select feature_id from inverted_index where field = ? order by feature_id", [field])]
    q = BitMap(some(range(len(items)), rng.randint(0, len(items))))
    uses = {
        "create": lambda: idx.create_cluster_from_features(some(feats, 4)),
        "delete": lambda: idx.delete_features(some(feats, 2)),
        "merge": lambda: idx.merge_clusters(some(clusters, 2) or [1]),
        "pin": lambda: idx.pin_features(some(feats, 3), True),
        "init": lambda: idx.initialise_clusters(rng.choice([1, 3, 5])),
        "refine": lambda: idx.refine_clusters(iterations=rng.choice([1, 3]), target_clusters=rng.choice([None, 2, 6])),
        "pivot": lambda: list(idx.pivot_clusters_by_query(q)),
        "pivot, unfinished": lambda: next(iter(idx.pivot_clusters_by_query(q)), None),
        "graph": lambda: idx.create_cluster_cooccurrence_graph(),
        "docs": lambda: list(idx.docs(q)),
        "docs, unfinished": lambda: next(iter(idx.docs(q)), None),
        "html": lambda: idx.render_docs_html(q, random_sample_size=3),
        "table": lambda: idx.render_docs_table(q),
        "fields": lambda: [list(idx.iter_field_docs(r[0])) for r in idx.indexed_field_summary()],
        "field, unfinished": lambda: [next(iter(idx.iter_field_docs(r[0])), None) for r in idx.indexed_field_summary()],
        "top": lambda: idx.top_cluster_features(),
        "concordances": lambda: idx.extract_matching_feature_windows(q, some(feats, 3), 2),
        "passages": lambda: [idx.score_passages_dnf({f: [some(of(f), 2)]}, 3) for f in idx.positional_fields],
        "collocations": lambda: [idx.count_collocations(f, some(of(f), 2), 3) for f in idx.positional_fields],
        "sample": lambda: idx.structured_doc_sample(2),
        "bad cluster": lambda: idx.merge_clusters([None, {}]),
        "bad feature": lambda: idx.lookup_feature_id(("no", "such")),
        "bad edit": lambda: idx.create_cluster_from_features([{}]),
        "index": lambda: idx.index(doc_batch_size=rng.choice([1, 3, 100]), index_positions=rng.random() < 0.5, working_dir=rng.choice([None, ctx.tmp()])),
    }
    names = sorted(uses)
    op = rng.choice(names + ["index"] * 8 + ["refine"] * 2)
    fault = None
    if op == "index":
        ctx.ev("indexing_runs")
    if rng.random() < 0.35:
        if op == "index" and rng.random() < 0.6 and items and corpus is None:
            fault = rng.choice(["keys", "docs", "index"])
            idx.corpus = Tripping(items, fault, rng.randrange(len(items)))
            if isinstance(inner, pools.ChaosPool):
                inner.delay = 0.05  # the other batches take a while
                ctx.ev("failures_beside_slow_batches")
        elif hasattr(inner, "arm"):
            fault = rng.choice(["task", "after", "broken", "submit"])
            inner.arm(rng.choice([0, 0, 1, 2, 5]), fault)
    what = f"after {op}" + (f" with failing {fault}" if fault else "")
    ctx.note(what)
    tracker.dropped.clear()
    failed = held = None
    if isinstance(idx._pool, Pool):
        idx._pool.futures = []
    try:
        uses[op]()
    except BaseException as e:
        if not (fault or op.startswith("bad ")):
            raise
        if not op.startswith("bad ") and not isinstance(e, (Injected, concurrent.futures.process.BrokenProcessPool, KeyboardInterrupt)):
            raise
        failed = True
        if corpus is None:
            held = e
        ctx.ev("failed_steps")
        ctx.ev("failed_indexing_runs", op == "index")
        what += f" ({type(e).__name__})"
    finally:
        if op == "index" and isinstance(idx._pool, Pool):
            ctx.check(all(f.done() for f in idx._pool.futures), "indexing ended before its batches")
        if corpus is None:
            idx.corpus = gen.MemCorpus(items)
        if hasattr(inner, "disarm"):
            inner.disarm()
        elif inner is not None:
            inner.delay = 0.001
    # garbage collection isn't what closes the databases of the workers
    ctx.equal([x for x in tracker.dropped if not x.endswith("c.db")], [], f"databases were forgotten, not closed, {what}")
    ctx.ev("steps")
    ctx.state("steps", (op, fault, failed))
    return failed, what, held


def library(ctx, rng):
    manager = rng.random() < 0.25
    with Tracker() as tracker, Started() as started, contextlib.nullcontext() if manager else faults.quiet_manager():
        ctx.ev("real_managers", manager)
        d = os.path.realpath(ctx.tmp())
        path = os.path.join(d, "i.db")
        threads, temporary = set(threading.enumerate()), leftovers()
        n = rng.choice([1, 4, rng.randint(5, 30)])
        items = gen.corpus_items(rng, n, vocab=(3, 25), strings=rng.random() < 0.5)
        corpus, names = None, ["i.db"]
        if rng.random() < 0.3:
            corpus = C.PlainTextSqliteCorpus(os.path.join(d, "c.db"))
            corpus.replace_docs([" ".join(rng.choice("abcdefgh") for _ in range(rng.randint(0, 9))) for _ in range(n)])
            names.append("c.db")
            before_corpus = lib.dump(os.path.join(d, "c.db"), ["doc"])
        own = rng.random() < 0.35
        if own:
            inner = None
            idx = Index(path, corpus=corpus or gen.MemCorpus(items), random_seed=1)
            list(idx.indexed_field_summary()), idx.cluster_ids, idx.top_cluster_features(), idx[("a", "b")]
            ctx.equal(len(started.pools), 0, "worker processes are started before there is any work for them")
        else:
            inner = pools.ChaosPool(rng.choice([1, 2, 3]), seed=rng.random(), delay=0.001) if rng.random() < 0.4 else pools.FaultPool(rng.choice([1, 3]))
            pool = Pool(inner)
            ctx.defer(lambda: inner.shutdown(wait=True, cancel_futures=True))
            threads = set(threading.enumerate())
            idx = Index(path, corpus=corpus or gen.MemCorpus(items), pool=pool, random_seed=1)
        ctx.defer(idx.close)
        idx.index(doc_batch_size=4, index_positions=True)
        if idx.db.execute("select count(*) from inverted_index").fetchone()[0]:
            idx.initialise_clusters(3)
        any_failed, kept = False, []
        judge(ctx, tracker, d, names, threads, temporary, "after indexing")
        for _ in range(rng.randint(6, 14)):
            failed, what, held = step(ctx, rng, idx, inner, items, corpus, tracker)
            any_failed |= bool(failed)
            # also while the error is still being looked at
            judge(ctx, tracker, d, names, threads, temporary, what)
            if held is None or rng.random() < 0.5:
                kept.clear()
            kept.append(held)
            del held
        if own:
            ctx.check(len(started.pools) <= 1, "more than one worker pool was started", started=len(started.pools))
            ctx.check(not any(p.closed for p in started.pools), "the worker pool was shut down while it was in use")
            ctx.ev("default_pools")
        else:
            ctx.equal(len(started.pools), 0, "another worker pool was started beside the one provided")
            ctx.equal(pool.closed, 0, "the worker pool provided was shut down")
            flying(ctx, rng, idx)
        before = lib.dump(path)
        gone = idx.db
        idx.close()
        try:
            gone.execute("select 1")
        except sqlite3.ProgrammingError:
            pass
        else:
            ctx.fail("closing the index left its connection open")
        del gone
        if not own:
            ctx.equal(pool.closed, 0, "closing the index shut the worker pool provided down")
        judge(ctx, tracker, d, names[1:], threads, temporary, "after closing the index")
        whole(ctx, path, before, "after closing the index")
        ctx.ev("closed")
        if corpus is not None:
            corpora(ctx, rng, corpus, tracker, d, threads, temporary, before_corpus)
        if any_failed:
            ctx.distinct(before)


def corpora(ctx, rng, corpus, tracker, d, threads, temporary, before):
    """Copies have connections of their own, which end with them."""
    keys = list(corpus.keys())
    copy = pools.pickle.loads(pools.pickle.dumps(corpus))
    some = rng.sample(keys, len(keys) // 2)
    list(copy.docs(some)), corpus.render_docs_html(some), corpus.render_docs_table(some)
    next(iter(copy.docs(keys)), None)
    copy.close()
    judge(ctx, tracker, d, ["c.db"], threads, temporary, "after closing a copy of the corpus")
    try:
        corpus.replace_docs(x if n < 2 else 1 / 0 for n, x in enumerate("abc"))
    except ZeroDivisionError:
        pass
    judge(ctx, tracker, d, ["c.db"], threads, temporary, "after replacing the documents failed")
    corpus.close()
    judge(ctx, tracker, d, [], threads, temporary, "after closing the corpus")
    ctx.equal([s for s in ("-wal", "-shm", "-journal") if os.path.exists(corpus.db_path + s)], [], "files were left beside the corpus")
    ctx.check(lib.dump(corpus.db_path, ["doc"]) == before, "the documents changed")
    ctx.ev("corpora_closed")


def flying(ctx, rng, idx):
    """A long corpus doesn't pile up in front of the workers."""
    if rng.random() < 0.4:
        return
    workers = rng.choice([1, 2, 3])
    pool = Pool(pools.ChaosPool(workers, seed=rng.random(), delay=0.002))
    path = os.path.join(ctx.tmp(), "f.db")
    asked = rng.choice([None, None, 1, 2])
    x = Index(path, corpus=gen.MemCorpus([(f"k{n}", {"f": {n % 7}}) for n in range(60)]), pool=pool)
    try:
        with faults.quiet_manager():
            x.index(doc_batch_size=1, workers=asked)
    finally:
        x.close()
        pool.inner.shutdown()
    limit = 2 * (asked or workers) + 2
    ctx.check(pool.most <= limit, "batches pile up in front of the workers", most=pool.most, workers=workers, asked=asked)
    ctx.ev("batches_in_flight")


def overtaken(ctx, rng):
    """A batch fails while others are at work: they come to an end before indexing does."""
    d = os.path.realpath(ctx.tmp())
    n = rng.randint(4, 12)
    items = gen.corpus_items(rng, n, vocab=(3, 12))
    where = rng.choice(["keys", "docs", "index"])
    inner = pools.ChaosPool(rng.choice([2, 3, 5]), seed=rng.random(), delay=0.06)
    pool = Pool(inner)
    idx = Index(os.path.join(d, "o.db"), corpus=Tripping(items, where, rng.randrange(n)), pool=pool)
    work = os.path.join(d, "work")
    os.mkdir(work)
    try:
        with faults.quiet_manager():
            try:
                idx.index(doc_batch_size=1, working_dir=work)
            except Injected:
                busy, left = sum(not f.done() for f in pool.futures), os.listdir(work)
            else:
                ctx.fail("indexing did not fail", where=where)
        ctx.equal((busy, left), (0, []), "indexing ended before its batches", where=where)
        ctx.ev("failures_beside_slow_batches")
    finally:
        idx.close()
        inner.shutdown()


def unfinished(ctx, rng):
    """Indexing while an iteration over a field isn't finished (a known finding)."""
    with faults.quiet_manager():
        items = gen.corpus_items(rng, rng.randint(2, 12), vocab=(3, 12))
        idx = Index(os.path.join(ctx.tmp(), "u.db"), corpus=gen.MemCorpus(items), pool=pools.InlinePool(2))
        ctx.defer(idx.close)
        idx.index()
        started = [idx.iter_field_docs(r[0]) for r in idx.indexed_field_summary()]
        got = [next(it, None) for it in started]
        try:
            idx.index()
        except sqlite3.OperationalError as e:
            if "tempindex is locked" not in str(e):
                raise
            ctx.known_finding("index-during-field-iteration", "indexing fails while the documents of a field are being iterated over", error=str(e), started=len(got))
        ctx.ev("unfinished")


# -- the server -----------------------------------------------------------------------
def serving(ctx, rng):
    with Tracker() as tracker, Started() as started, faults.quiet_manager():
        d = os.path.realpath(ctx.tmp())
        path = os.path.join(d, "i.db")
        items = gen.corpus_items(rng, rng.randint(3, 25), vocab=(3, 25), strings=True)
        fault = pools.FaultPool(2)
        pool = Pool(fault)
        idx = Index(path, corpus=gen.MemCorpus(items), pool=pool, random_seed=1)
        idx.index(index_positions=rng.random() < 0.5)
        feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index")]
        fields = [r[0] for r in idx.indexed_field_summary()]
        if feats:
            idx.initialise_clusters(4)
        idx.close()
        corpus = None
        if rng.random() < 0.4:
            corpus = C.PlainTextSqliteCorpus(os.path.join(d, "c.db"))
            corpus.replace_docs([f"text {n}" for n in range(len(items))])
            corpus.close()
            web.SWITCH.use(path, pool, C.PlainTextSqliteCorpus, [corpus.db_path])
            # its keys are numbers from 1
            other = Index(path, corpus=C.PlainTextSqliteCorpus(corpus.db_path), pool=pool)
            other.index()
            other.initialise_clusters(2)
            feats = [r[0] for r in other.db.execute("select feature_id from inverted_index")]
            fields = ["text"]
            other.corpus.close()
            other.close()
            del other
        else:
            web.SWITCH.use(path, pool, gen.MemCorpus, [items])
        web.SWITCH.seed = rng.randrange(10**6)
        web.request("GET", "/index/0/")
        threads, temporary = set(threading.enumerate()), leftovers()
        failed = 0
        for _ in range(rng.randint(8, 20)):
            f = rng.choice(feats or [1])
            c = rng.randint(0, 6)
            method, url, params, fields_ = rng.choice([
                ("GET", "/index/0/", {}, None), ("GET", "/index/0/", {"feature_id": f}, None), ("GET", f"/index/0/cluster/{c}/", {}, None), ("GET", "/index/0/details", {}, None),
                ("GET", "/index/0/search", {"field": rng.choice(fields or ["x"]), "value": "a"}, None), ("GET", "/index/0/export_clusters", {}, None), ("GET", "/", {}, None), ("GET", "/index/", {}, None),
                ("GET", "/index/7/", {}, None), ("GET", "/index/0/no/such", {}, None), ("GET", "/index/0/", {"feature_id": "x"}, None), ("GET", "/index/0/cluster/delete", {"cluster_id": c}, None),
                ("GET", "/index/x/", {}, None), ("GET", f"/index/0/cluster/{c}/", {"odd": 1}, None),
                ("POST", "/index/0/cluster/delete", {}, [("cluster_id", c)]), ("POST", "/index/0/cluster/create", {}, [("feature_id", f)]), ("POST", "/index/0/cluster/merge", {}, [("cluster_id", c), ("cluster_id", 1)]),
                ("POST", "/index/0/cluster/refine", {}, [("target_clusters", 3), ("iterations", 1)]), ("POST", "/index/0/cluster/refine", {}, [("target_clusters", "many")]),
                ("POST", "/index/0/recreate_model", {}, [("clusters", 3), ("min_docs", 1), ("iterations", 1)]), ("POST", "/index/0/refine_model", {}, [("iterations", "x")]),
                ("POST", "/index/0/feature/pin", {}, [("feature_id", f)]),
            ])  # fmt: skip
            if rng.random() < 0.25:
                fault.arm(rng.choice([0, 0, 1, 3]), rng.choice(["task", "after", "broken"]))
            what = f"after {method} {url} {params} {fields_}"
            ctx.note(what)
            tracker.dropped.clear()
            r = web.request(method, url, params, fields_)
            fault.disarm()
            settle(ctx, lambda: tracker.live(d), [], f"a request left connections open {what}, answered with {r.status}")
            ctx.equal([x for x in tracker.dropped if x == path], [], f"a request forgot to close the index {what}, answered with {r.status}")
            failed += r.status >= 400
            ctx.ev("requests")
            ctx.ev("failed_requests", r.status >= 400)
            ctx.state("requests", (method, url.rstrip("0123456789/"), r.status))
        settle(ctx, lambda: tracker.live(d), [], f"requests left connections open {what}")
        judge(ctx, tracker, d, [], threads, temporary, "after the requests")
        ctx.equal([s for s in ("-wal", "-shm") if os.path.exists(path + s)], [], "files were left beside the index after the requests")
        ctx.equal((pool.closed, len(started.pools)), (0, 0), "the server's worker pool was shut down, or others started")
        if failed:
            ctx.distinct(items)


# -- programs -------------------------------------------------------------------------
PROGRAM = """
import os, sys, threading, time
sys.path[:0] = [{verif!r}, {repo!r}]
from hyperreal.corpus import PlainTextSqliteCorpus
from hyperreal.index import Index
from hv.checks import c30

def main():
    c = PlainTextSqliteCorpus("c.db", tokeniser=c30.{tokens})
    c.replace_docs([f"one word{{n}} and word{{n % 5}}" for n in range(40)])
    i = Index("i.db", corpus=c, random_seed=1)
    if {interrupt}:
        threading.Timer({interrupt}, lambda: os.kill(os.getpid(), 2)).start()
    i.index(doc_batch_size=5)
    i.initialise_clusters(5)
    i.refine_clusters(iterations=2)
    if {error}:
        raise RuntimeError("at the end")
    if {close}:
        i.close()
    print("done")

if __name__ == "__main__":
    main()
"""


def fine(text):
    return text.split()


def broken(text):
    if "word17" in text:
        raise Injected("tokens")
    return text.split()


def killing(text):
    """The worker dies."""
    if "word17" in text:
        os._exit(3)
    return text.split()


def slow(text):
    time.sleep(0.05)
    return text.split()


def program(ctx, rng, i):
    d = ctx.tmp()
    kind = ["fine", "broken", "killing", "interrupted", "unclosed", "error"][(i // 12) % 6]
    script = os.path.join(d, "program.py")
    with open(script, "w") as f:
        f.write(PROGRAM.format(
            verif=core.VERIF, repo=core.REPO, tokens={"broken": "broken", "killing": "killing", "interrupted": "slow"}.get(kind, "fine"),
            interrupt=rng.choice([0.5, 1.0, 2.0]) if kind == "interrupted" else 0, error=kind == "error", close=kind == "fine",
        ))  # fmt: skip
    tmp = os.path.join(d, "tmp")
    os.mkdir(tmp)
    out = open(os.path.join(d, "out.txt"), "w+")
    env = dict(os.environ, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([sys.executable, script], cwd=d, env=env, stdout=out, stderr=out, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        try:
            p.wait(120)
        except subprocess.TimeoutExpired:
            ctx.fail(f"a program does not end ({kind})", output=tail(out))
        if kind in ("fine", "unclosed"):
            ctx.equal(p.returncode, 0, f"a program failed ({kind})", output=tail(out))
        elif kind != "interrupted":
            ctx.check(p.returncode != 0, f"a program did not fail ({kind})", output=tail(out))
        deadline = time.time() + 30
        while alive(p.pid) and time.time() < deadline:
            time.sleep(0.05)
        ctx.check(not alive(p.pid), f"processes outlive the program that started them ({kind})", output=tail(out))
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out.close()
    if kind not in ("killing", "interrupted"):
        ctx.equal([n for n in os.listdir(tmp)], [], f"a program left temporary files ({kind})")
    if kind == "fine":
        ctx.equal([n for n in os.listdir(d) if n.startswith("i.db-")], [], "files were left beside the index")
    ctx.ev("programs")
    ctx.state("programs", kind)
    ctx.distinct((kind, i))


def alive(group):
    try:
        os.killpg(group, 0)
        return True
    except ProcessLookupError:
        return False


def tail(f):
    f.flush()
    with open(f.name, errors="replace") as g:
        return g.read()[-1500:]
