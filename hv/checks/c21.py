"""C21: readers see one committed state and concurrent edits serialise."""

import array
import collections
import copy
import io
import os
import pickle
import random
import sqlite3
import threading
import time

from pyroaring import BitMap

import hyperreal.index as H
from hyperreal.index import Index

from .. import faults, gen, lib, pools, ref
from ..core import Violation

RULE = (
    "A case has a model and (a) runs every reading operation once for each of its statements with commits of another connection "
    "(edits, re-indexing) right before it, comparing with what a fresh index reads from copies of each committed state, and keeps one index open all along that has to see every commit; (b) runs edits, "
    "refinement and re-indexing with another edit at each statement, comparing result and content with both serial orders run for "
    "real on copies; runs each kind of work that operations hand to the pool with a commit at each of its statements; (c) runs histories of two to four editing connections, switched at statements or free running, and searches a serial order "
    "of the successful edits in a reference model. Non-trivial: a result that differs between the states a reader could see, or a history with refused edits."
)
QUICK = {"cases": 72, "budget": 170}
THOROUGH = {"cases": 900, "budget": 640}
REQUIRED = {
    "reads_with_commits": 1500, "reads_between_different_results": 150, "pairs": 500, "pairs_refused": 80, "reads_after_commits": 8000, "tasks_with_commits": 400, "tasks_between_different_results": 100, "pairs_both": 80,
    "histories": 80, "history_edits": 500, "history_refusals": 30, "serial_orders_found": 80, "free_running_histories": 15,
}  # fmt: skip
ASSUMPTIONS = [
    "work that an operation hands to the pool opens the index for itself: each piece of it has to see one state, but not that of the operation that started it",
    "an edit that is refused because of another connection (sqlite3.OperationalError, IndexingError) may be tried again by its caller",
]

REFUSED = (sqlite3.OperationalError, H.IndexingError)


def plain(x):
    if isinstance(x, (BitMap, H.FrozenBitMap)):
        return ("docs", tuple(x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((plain(k), plain(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple, array.array)):
        return tuple(plain(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    return ref.vkey(x)


def outcome(fn, *args):
    try:
        return ("ok", plain(fn(*args)))
    except Exception as e:
        return ("raised", type(e).__name__)


class Setting:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.dir = ctx.tmp()
        self.base = os.path.join(self.dir, "base.db")
        self.shape = gen.Shape(rng, vocab=(4, 20))
        self.n = rng.choice([3, rng.randint(4, 18)])
        self.items = gen.corpus_items(rng, self.n, shape=self.shape)
        self.positional = rng.random() < 0.5
        self.items2 = gen.corpus_items(rng, max(1, self.n - rng.randint(-4, 2)), shape=self.shape, keys=None)
        idx = Index(self.base, corpus=gen.MemCorpus(self.items), pool=pools.InlinePool(2), random_seed=5)
        with faults.quiet_manager():
            idx.index(doc_batch_size=7, index_positions=self.positional)
        self.feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index order by feature_id")]
        self.keys = [(f, v) for f, v in idx.db.execute("select field, value from inverted_index order by feature_id")]
        if self.feats:
            idx.initialise_clusters(rng.choice([2, 3, 5]))
            idx.pin_features(rng.sample(self.feats, len(self.feats) // 7))
            idx.delete_features(rng.sample(self.feats, len(self.feats) // 8))
            if rng.random() < 0.4:
                idx.pin_clusters(idx.cluster_ids[:1])
        self.clusters = idx.cluster_ids
        idx.db.execute("pragma wal_checkpoint(truncate)")
        idx.close()
        self.copies = 0

    def path(self):
        self.copies += 1
        return os.path.join(self.dir, f"c{self.copies}.db")

    def fresh(self, src=None):
        path = self.path()
        faults.copy_db(src or self.base, path)
        return path

    def open(self, path, seed=7, corpus=None, timeout=None):
        idx = Index(path, corpus=corpus or gen.MemCorpus(self.items), pool=pools.InlinePool(2), random_seed=seed)
        if timeout is not None:
            idx.db.execute(f"pragma busy_timeout={timeout}")
        return idx

    def backup(self, path):
        """A copy of what is committed, by a connection of our own."""
        out = self.path()
        src, dst = faults.real_connect(path), faults.real_connect(out)
        src.backup(dst)
        src.close()
        dst.close()
        return out

    # -- operations, with fixed arguments -------------------------------------
    def edit(self, kind=None, n_clusters=None):
        rng = self.rng
        feats = [rng.choice(self.feats) for _ in range(rng.randint(1, 4))]
        clusters = rng.sample(self.clusters, rng.randint(1, min(3, len(self.clusters))))
        kind = kind or rng.choice(["create", "create", "merge", "merge", "delf", "delc", "pinf", "pinc"])
        if kind == "create":
            return kind, (feats,), lambda i: i.create_cluster_from_features(feats)
        if kind == "merge":
            return kind, (clusters,), lambda i: i.merge_clusters(clusters)
        if kind == "delf":
            return kind, (feats,), lambda i: i.delete_features(feats)
        if kind == "delc":
            clusters = clusters[:1]
            return kind, (clusters,), lambda i: i.delete_clusters(clusters)
        if kind == "pinf":
            pin = rng.random() < 0.6
            return kind, (feats, pin), lambda i: i.pin_features(feats, pin)
        if kind == "pinc":
            pin = rng.random() < 0.6
            return kind, (clusters, pin), lambda i: i.pin_clusters(clusters, pin)
        if kind == "init":
            n = rng.randint(1, 5)
            return kind, (n,), lambda i: i.initialise_clusters(n)
        if kind == "index":
            items = self.items2 if rng.random() < 0.8 else self.items

            positions = self.positional if rng.random() < 0.85 else not self.positional

            def reindex(i):
                i.corpus = gen.MemCorpus(items)
                i.index(doc_batch_size=10, index_positions=positions)

            return kind, (), reindex
        kw = lib.refine_options(rng, len(self.clusters))
        kw["iterations"] = min(kw["iterations"], 2)
        if rng.random() < 0.3:
            kw["cluster_ids"] = sorted(rng.sample(self.clusters, rng.randint(1, len(self.clusters))))
        return "refine", (kw,), lambda i: i.refine_clusters(**kw)

    def reads(self):
        rng = self.rng
        docs = BitMap(rng.sample(range(self.n), rng.randint(1, self.n)))
        c = rng.choice(self.clusters)
        feats = [rng.choice(self.feats + self.keys) for _ in range(rng.randint(2, 6))]
        field = rng.choice(self.keys)[0]
        k, per = rng.choice([0, 1, 3, 1000]), rng.choice([0, 1, 3])
        sel = rng.sample(self.clusters, rng.randint(1, len(self.clusters)))
        queries = {"a": docs, "b": BitMap(range(0, self.n, 2))}

        def block(i):
            i.db.execute("begin")
            out = [i.cluster_ids, i.pinned_cluster_ids, i.top_cluster_features(3), i.indexed_field_summary(), [i[f] for f in feats]]
            out += [i.cluster_docs(x) for x in i.cluster_ids] + [i.cluster_features(x) for x in i.cluster_ids]
            i.db.execute("commit")
            return out

        def managed(i):
            with i:
                ids = i.cluster_ids
                return [(x, i.cluster_docs(x), i.cluster_features(x), i.cluster_query(x)) for x in ids]

        return {
            "top_cluster_features": lambda i: i.top_cluster_features(top_k=k),
            "structured_doc_sample": lambda i: i.structured_doc_sample(per),
            "structured_doc_sample of clusters": lambda i: i.structured_doc_sample(per, cluster_ids=sel),
            "cluster_query": lambda i: i.cluster_query(c),
            "union_bitslice": lambda i: i.union_bitslice(feats),
            "convert_query_to_keys": lambda i: i.convert_query_to_keys(docs),
            "intersect_queries_with_field": lambda i: i.intersect_queries_with_field(queries, field),
            "iter_field_docs": lambda i: list(i.iter_field_docs(field)),
            "a transaction of reads": block,
            "a with block": managed,
        }

    def more_reads(self):
        """Operations that also hand work to the pool, or consist of a single statement."""
        rng = self.rng
        docs = BitMap(rng.sample(range(self.n), rng.randint(1, self.n)))
        c = rng.choice(self.clusters)
        field = rng.choice(self.keys)[0]
        feats = [f for f, k in zip(self.feats, self.keys) if k[0] == field]
        some, other = rng.sample(feats, min(3, len(feats))), rng.choice(self.feats)

        def graph(i):
            g = i.create_cluster_cooccurrence_graph(top_k=2)
            return [sorted((x, d["document_count"], d["label"]) for x, d in g.nodes(data=True)), sorted((*sorted(e[:2]), e[2]["weight"]) for e in g.edges(data=True))]

        return {
            "pivot_clusters_by_query": lambda i: sorted(i.pivot_clusters_by_query(docs, top_k=3), key=lambda r: (-r[1], r[0])),
            "create_cluster_cooccurrence_graph": graph,
            "count_collocations": lambda i: i.count_collocations(field, some, 2),
            "score_passages_dnf": lambda i: {d: sorted(p) for d, p in i.score_passages_dnf([some, feats[:5]], 3).items()},
            "cluster_docs": lambda i: i.cluster_docs(c),
            "cluster_features": lambda i: i.cluster_features(c),
            "cluster_ids": lambda i: (i.cluster_ids, i.pinned_cluster_ids, i.next_cluster_id()),
            "indexed_field_summary": lambda i: (i.indexed_field_summary(), i.positional_fields),
            "looking features up": lambda i: [(i.lookup_feature(f), i.lookup_feature_id(k), i[f], i[k]) for f, k in zip(self.feats, self.keys)],
            "looking up": lambda i: (i.lookup_feature(other), i[other]),
        }


def case(ctx, rng, i):
    with faults.installed(), faults.quiet_manager():
        st = Setting(ctx, rng)
        if not st.feats or len(st.clusters) < 2:
            return
        readers(ctx, rng, st)
        tasks(ctx, rng, st)
        pairs(ctx, rng, st)
        for _ in range(6 if ctx.thorough else 3):
            history(ctx, rng, st, free=rng.random() < 0.3)
        if i % 8 == 0:
            ctx.sample({"features": len(st.feats), "clusters": len(st.clusters), "copies": st.copies})


# -- readers ---------------------------------------------------------------------
def readers(ctx, rng, st):
    path = st.fresh()
    writer = st.open(path, seed=1)
    veteran = st.open(path)
    states = [st.backup(path)]
    reads = st.reads()
    uptodate(ctx, st, veteran, reads | st.more_reads(), states[-1])
    for name, read in reads.items():
        # how many statements does it have in this state
        probe = st.open(path)
        count = [0]
        probe.db.hook = lambda sql: count.__setitem__(0, count[0] + 1)
        outcome(read, probe)
        try:
            probe.close()
        except Exception:
            pass
        limit = 24 if ctx.thorough else 8
        for at in faults.points(rng, count[0], limit):
            reader = st.open(path)
            seen = states[-1:]
            many = rng.random() < 0.2
            step = [0]

            def hook(sql):
                n = step[0]
                step[0] += 1
                if n == at or (many and n > at and rng.random() < 0.4):
                    for _ in range(rng.choice([1, 1, 2])):
                        # Often back to a new model, so that there is something to read.
                        r = rng.random()
                        kind = "index" if r < 0.15 else "init" if r < 0.3 or len(writer.cluster_ids) < 2 else None
                        try:
                            st.edit(kind)[2](writer)
                        except sqlite3.IntegrityError:
                            continue
                        seen.append(st.backup(path))

            reader.db.hook = hook
            got = outcome(read, reader)
            reader.db.hook = None
            try:
                reader.close()
            except Exception:
                pass
            wants = []
            for s in seen:
                again = st.open(st.fresh(s))
                wants.append(outcome(read, again))
                again.close()
            ctx.check(
                got in wants, f"{name} did not see a single committed state (commits from statement {at} of {count[0]})",
                got=got, states=wants,
            )  # fmt: skip
            states = [seen[-1]]
            ctx.ev("reads_with_commits")
            ctx.state("read_schedules", (name, at, len(seen)))
            if len(set(wants)) > 1:
                ctx.ev("reads_between_different_results")
                ctx.state("reads_between_different_results", (name, wants))
            for s in seen[:-1]:
                remove(s)
        uptodate(ctx, st, veteran, reads | st.more_reads(), states[-1])
    writer.close()
    veteran.close()


def uptodate(ctx, st, veteran, reads, state):
    """An index that has been open all along sees what others have committed."""
    again = st.open(st.fresh(state))
    for name, read in reads.items():
        if name == "a with block":  # this closes the index
            continue
        veteran.random.seed(7)
        again.random.seed(7)
        got, want = outcome(read, veteran), outcome(read, again)
        ctx.check(got == want, f"{name} does not see what was committed before it began", got=got, want=want)
        ctx.ev("reads_after_commits")
        ctx.state("reads_after_commits", (name, want))
    again.close()


# -- work handed to the pool ----------------------------------------------------------
class Packed:
    """A call as it would cross to a worker, for an index to be filled in there."""

    def __init__(self, fn, args, kwargs):
        out = io.BytesIO()

        class Out(pickle.Pickler):
            def persistent_id(self, x):
                return "index" if isinstance(x, Index) else None

        Out(out).dump((fn, args, kwargs))
        self.data = out.getvalue()
        self.name = getattr(fn, "__name__", type(fn).__name__)

    def __call__(self, idx):
        class In(pickle.Unpickler):
            def persistent_load(self, _):
                return idx

        fn, args, kwargs = In(io.BytesIO(self.data)).load()
        return fn(*args, **kwargs)


class Recorder(pools.InlinePool):
    def __init__(self):
        super().__init__(2)
        self.calls = []

    def submit(self, fn, /, *args, **kwargs):
        self.calls.append(Packed(fn, args, kwargs))
        return super().submit(fn, *args, **kwargs)


def tasks(ctx, rng, st):
    """Each piece of work that an operation hands to the pool sees a single state."""
    path = st.fresh()
    idx = st.open(path)
    idx._pool = Recorder()
    docs = BitMap(rng.sample(range(st.n), rng.randint(1, st.n)))
    list(idx.pivot_clusters_by_query(docs, top_k=3))
    idx.create_cluster_cooccurrence_graph()
    if st.positional:
        for field in sorted(idx.positional_fields):
            feats = [f for f, k in zip(st.feats, st.keys) if k[0] == field]
            some = rng.sample(feats, min(3, len(feats)))
            idx.count_collocations(field, some, 2)
            idx.score_passages_dnf([some, feats[:5]], 3)
    idx.refine_clusters(iterations=1, group_test_batches=0)
    by_name = collections.defaultdict(list)
    for call in idx._pool.calls:
        by_name[call.name].append(call)
    idx.close()
    remove(path)

    path = st.fresh()
    writer = st.open(path, seed=1)
    states = [st.backup(path)]
    for name in sorted(by_name):
        call = rng.choice(by_name[name])
        probe = st.open(path)
        count = [0]
        probe.db.hook = lambda sql: count.__setitem__(0, count[0] + 1)
        outcome(call, probe)
        shut(probe)
        for at in faults.points(rng, count[0], 16 if ctx.thorough else 7):
            worker = st.open(path)
            seen = states[-1:]
            step = [0]

            def hook(sql):
                n = step[0]
                step[0] += 1
                if n == at:
                    try:
                        st.edit(rng.choice(["index", "index", "init", "merge", "create"]))[2](writer)
                    except (sqlite3.IntegrityError, IndexError):
                        return
                    seen.append(st.backup(path))

            worker.db.hook = hook
            got = outcome(call, worker)
            try:
                worker.db.hook = None
            finally:
                shut(worker)
            wants = []
            for s in seen:
                again = st.open(st.fresh(s))
                wants.append(outcome(call, again))
                shut(again)
            ctx.check(got in wants, f"work for the pool ({name}) did not see a single committed state (commit at statement {at} of {count[0]})", got=got, states=wants)
            states = [seen[-1]]
            ctx.ev("tasks_with_commits")
            ctx.ev("tasks_between_different_results", len(set(wants)) > 1)
            ctx.state("task_schedules", (name, at))
            for s in seen[:-1]:
                remove(s)
    writer.close()


def shut(idx):
    try:
        idx.close()
    except Exception:
        pass


def remove(path):
    for suffix in ("", "-wal", "-shm"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)


# -- two edits ---------------------------------------------------------------------
KINDS = ("create", "merge", "delf", "delc", "pinf", "pinc", "init", "refine", "refine", "index")


def pairs(ctx, rng, st):
    for kind in KINDS:
        a = st.edit(rng.choice(KINDS))
        b = st.edit(kind)
        what = f"{a[0]}{a[1]} while {b[0]}{b[1]} runs"
        ctx.note(what)

        # Both orders, and each alone, for real.
        serial = {}
        for order in ((a, b), (b, a), (a,), (b,)):
            path = st.fresh()
            results = []
            for op in order:
                idx = st.open(path, seed=11 if op is a else 13)
                results.append(attempt(op, idx))
                idx.close()
            serial[tuple("a" if op is a else "b" for op in order)] = (dict(zip(["a" if op is a else "b" for op in order], results)), lib.dump(path))
            remove(path)

        probe_path = st.fresh()
        idx = st.open(probe_path)
        count = [0]
        idx.db.hook = lambda sql: count.__setitem__(0, count[0] + 1)
        attempt(b, idx)
        idx.close()
        remove(probe_path)

        for at in faults.points(rng, count[0], 16 if ctx.thorough else 6):
            path = st.fresh()
            one = st.open(path, seed=11, timeout=0)
            two = st.open(path, seed=13, timeout=0)
            step, res = [0], {}

            def hook(sql):
                n = step[0]
                step[0] += 1
                if n == at:
                    res["a"] = attempt(a, one)

            two.db.hook = hook
            res["b"] = attempt(b, two)
            two.db.hook = None
            for idx in (one, two):
                ctx.equal(idx.db.in_transaction, False, f"a transaction was left open ({what}, statement {at})")
            now = lib.dump(path)
            done = [k for k in "ab" if res.get(k, ("refused",))[0] != "refused"]
            orders = {2: [("a", "b"), ("b", "a")], 1: [tuple(done)]}.get(len(done), [])
            ctx.check(orders, f"neither of two edits was done ({what}, statement {at})", results=res)
            ok = any(all(serial[o][0][k] == res[k] for k in done) and serial[o][1] == now for o in orders)
            ctx.check(
                ok, f"the outcome of two edits is not that of any serial order ({what}, statement {at} of {count[0]})", results=res,
                differs={o: (serial[o][0], lib.diff_dumps(now, serial[o][1])) for o in orders},
            )  # fmt: skip
            lib.check_summaries(ctx, two, f"({what}, statement {at})")
            lib.integrity(ctx, path)
            one.close()
            two.close()
            remove(path)
            ctx.ev("pairs")
            ctx.ev("pairs_both" if len(done) == 2 else "pairs_refused")
            ctx.state("pairs", (a[0], b[0], at, tuple(done)))


def attempt(op, idx):
    """A refused edit, one that fails whoever else there is, or its result."""
    try:
        return ("done", plain(op[2](idx)))
    except REFUSED as e:
        return ("refused", str(e))
    except Exception as e:
        return ("raised", type(e).__name__)


# -- histories -----------------------------------------------------------------------
class Scheduler:
    """Lets one thread run at a time, and may hand over before each statement."""

    def __init__(self, seed, n, stay, watcher):
        self.watcher = watcher
        self.rng = random.Random(seed)
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.turn = 0
        self.stay = stay
        self.trace = []

    def step(self, me, sql):
        with self.cond:
            if self.rng.random() > self.stay:
                self.turn = self.rng.choice(sorted(self.alive))
                self.cond.notify_all()
            while self.turn != me:
                self.cond.wait()
            self.trace.append(me)
            self.watcher.step(sql)

    def start(self, me):
        with self.cond:
            while self.turn != me:
                self.cond.wait()

    def leave(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.alive:
                self.turn = self.rng.choice(sorted(self.alive))
                self.cond.notify_all()


def history(ctx, rng, st, free):
    path = st.fresh()
    n = rng.choice([2, 2, 3, 4])
    scripts = [[st.edit() for _ in range(rng.randint(2, 4))] for _ in range(n)]
    blind = rng.random() < 0.3  # also refinement, whose outcome no reference knows
    if blind:
        for s in scripts:
            s.insert(rng.randint(0, len(s)), st.edit(rng.choice(["refine", "refine", "init", "index"])))
    before = st.open(path)
    m0 = lib.ref_model(before)
    watcher = lib.Watcher(ctx, path)
    sched = Scheduler(rng.random(), n, rng.choice([0.3, 0.7, 0.9]), watcher)
    clock = threading.Lock()
    ticks = [0]
    events = []
    errors = []

    def tick():
        with clock:
            ticks[0] += 1
            return ticks[0]

    def run(me, seed):
        r = random.Random(seed)
        try:
            if not free:
                sched.start(me)
            idx = st.open(path, seed=me, timeout=None if free else 0)
            if free:
                idx.db.hook = lambda sql: time.sleep(r.choice([0, 0, 0, 0.0003, 0.001]))
            else:
                idx.db.hook = lambda sql: sched.step(me, sql)
            for op in scripts[me]:
                start = tick()
                res = attempt(op, idx)
                events.append((start, tick(), me, op, res))
                if idx.db.in_transaction:
                    raise Violation(f"a transaction was left open after {op[0]}{op[1]}", {"result": res})
            idx.db.hook = None
            idx.close()
        except BaseException as e:
            errors.append(e)
        finally:
            if not free:
                sched.leave(me)

    threads = [threading.Thread(target=run, args=(k, rng.random()), daemon=True) for k in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
        if t.is_alive():
            raise TimeoutError("an editing thread did not finish")
    if errors:
        raise errors[0]
    log = [(s, e, me, op[0], op[1], res) for s, e, me, op, res in events]
    for x in sorted(log, key=lambda x: x[0]):
        ctx.note(x)
    watcher.verdict()
    lib.check_summaries(ctx, before, "after concurrent edits")
    lib.integrity(ctx, path)
    done = [x for x in log if x[5][0] != "refused"]
    ctx.ev("histories")
    ctx.ev("free_running_histories", free)
    ctx.ev("history_edits", len(log))
    ctx.ev("history_refusals", len(log) - len(done))
    ctx.state("interleavings", sched.trace if not free else [(x[2], x[3], x[5][0]) for x in sorted(log)])
    for x in done:
        ctx.check(x[5][0] == "done" or blind, "a valid edit failed instead of being refused", edit=x)
    if not blind:
        final = lib.ref_model(before)
        order = serialise(m0, final, done)
        ctx.check(order is not None, "no serial order of the successful edits explains their results and the final model", history=sorted(log), final=final.__dict__, initial=m0.__dict__)
        ctx.ev("serial_orders_found")
        ctx.state("serial_orders", [(done[k][2], done[k][3]) for k in order])
    if len(done) < len(log):
        ctx.distinct((log, done))
    before.close()
    remove(path)


def apply(m, kind, args):
    m = copy.deepcopy(m)
    name = {"create": "create", "merge": "merge", "delf": "delete_features", "delc": "delete_clusters", "pinf": "pin_features", "pinc": "pin_clusters"}[kind]
    return m, getattr(m, name)(*args)


def freeze(m):
    return (tuple(sorted(m.member.items())), frozenset(m.fpin), frozenset(m.cpin))


def serialise(m0, final, done):
    """An order of the edits that explains everything, respecting real time; or None."""
    want = freeze(final)
    dead = set()
    todo = frozenset(range(len(done)))

    def go(m, left, order):
        if not left:
            return order if freeze(m) == want else None
        key = (left, freeze(m))
        if key in dead:
            return None
        first_end = min(done[k][1] for k in left)
        for k in left:
            if done[k][0] > first_end:
                continue  # something else had finished before this began
            nm, res = apply(m, done[k][3], done[k][4])
            if plain(res) != done[k][5][1]:
                continue
            out = go(nm, left - {k}, order + [k])
            if out is not None:
                return out
        dead.add(key)
        return None

    return go(m0, todo, [])
