"""C03: indexing is all or nothing under failures and crashes."""

import os
import tempfile
import time
import multiprocessing.util

from hyperreal.index import Index, IndexingError

from .. import faults, gen, lib, pools, ref
from ..core import Injected

RULE = (
    "A case has an index file (new, or indexed before, half of the time with a model) and indexes another corpus into it "
    "again and again from the same start, making each run fail once: documents and keys that can't be read, worker tasks that "
    "fail, lose their result, can't be submitted or break the pool, every statement before and after it ran, statements "
    "half way, and the whole process dying at any statement of any connection or in the middle of one. The file is compared "
    "with its content before and after an undisturbed run. Non-trivial: at least 20 of these runs were stopped."
)
LEVEL = "fault_enumeration"
QUICK = {"cases": 56, "budget": 160}
THOROUGH = {"cases": 900, "budget": 640}
LARGE = (28, 25)
REQUIRED = {
    "large_cases": 1,
    "failed_documents": 150, "failed_tasks": 150, "failed_statements": 350, "interrupted_statements": 60, "crashes": 300,
    "crashes_within_statements": 150, "retries": 200, "nested_runs_refused": 40, "pool_survived": 1, "runs_over_a_model": 15,
}  # fmt: skip
ASSUMPTIONS = [
    "a crash is the death of the process: no power loss",
    "an interrupt while the last clean up runs (after the commit) is not considered",
]


class Deadly(gen.MemCorpus):
    """Kills the process that indexes one of its documents."""

    def index(self, doc):
        if self.trip == ("kill", doc["key"]):
            os._exit(9)
        if self.trip and self.trip[0] == "slow":
            if doc["key"] == self.trip[1]:
                time.sleep(0.004)
                raise gen.CorpusTrip("injected")
            time.sleep(0.002)
        return super().index(doc)


def shard_setup(ctx):
    multiprocessing.util.get_temp_dir()  # keeps it out of the directories that are watched


class Setting:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.dir = ctx.tmp()
        self.base = os.path.join(self.dir, "base.db")
        self.path = os.path.join(self.dir, "i.db")
        self.temp = ctx.tmp()
        self.work = ctx.tmp() if rng.random() < 0.4 else None
        self.positions = rng.random() < 0.5
        shape = gen.Shape(rng, vocab=(3, 20), length=(0, 6), positional=True)
        self.old = None
        idx = Index(self.base, pool=pools.InlinePool(2), random_seed=1)
        if rng.random() < 0.8:
            self.old = gen.corpus_items(rng, gen.sized(rng.randint(0, 12)), shape=shape)
            idx.corpus = gen.MemCorpus(self.old)
            idx.index(doc_batch_size=5, index_positions=rng.random() < 0.5)
            self.model = rng.random() < 0.7 and idx.db.execute("select 1 from inverted_index").fetchone() is not None
            if self.model:
                idx.initialise_clusters(rng.choice([1, 3, 5]))
                some = [r[0] for r in idx.db.execute("select feature_id from inverted_index")]
                idx.pin_features(rng.sample(some, len(some) // 3))
                idx.delete_features(rng.sample(some, len(some) // 5))
                ctx.ev("runs_over_a_model")
        else:
            self.model = False
        idx.db.execute("pragma wal_checkpoint(truncate)")
        idx.close()
        n = gen.sized(rng.choice([1, 2, rng.randint(2, 12), rng.randint(5, 25)]))
        self.new = gen.corpus_items(rng, n, shape=shape)
        if self.old and rng.random() < 0.4:  # a changed corpus with some of the old documents
            keep = {k for k, _ in self.old}
            self.new = self.old[: len(self.old) // 2] + [x for x in self.new if x[0] not in keep]
        self.n = len(self.new)
        self.batch = rng.choice([1, 2, 3, max(1, self.n // 2), 1000] if gen.SIZE == 1 else [5, 300, 10000])
        self.before = lib.dump(self.base)
        self.fresh()

    def fresh(self):
        faults.copy_db(self.base, self.path)
        return self.path

    def open(self, pool=None, trip=None, cls=gen.MemCorpus):
        return Index(self.path, corpus=cls(self.new, trip), pool=pool or pools.InlinePool(2), random_seed=1)

    def run(self, idx):
        idx.index(doc_batch_size=self.batch, index_positions=self.positions, working_dir=self.work)

    def leftovers(self, what):
        self.ctx.equal([x for x in os.listdir(self.temp) if not x.startswith("pymp-")], [], f"temporary files were left behind ({what})")
        if self.work:
            self.ctx.check(os.path.isdir(self.work), f"the working directory was removed ({what})")
            self.ctx.equal(os.listdir(self.work), [], f"files were left in the working directory ({what})")

    def whole(self, what, *, stopped=True):
        """Before or after; how it turned out."""
        now = lib.dump(self.path)
        if now == self.before:
            return "before"
        if now == self.after and not stopped:
            return "after"
        if now == self.after:
            self.ctx.fail(f"a run that failed was stored ({what})")
        self.ctx.fail(
            f"the index is neither the old nor the new one ({what})",
            against_before=lib.diff_dumps(now, self.before), against_after=lib.diff_dumps(now, self.after),
        )  # fmt: skip

    def usable(self, idx, what, retry):
        """The same object works on, and can index again."""
        self.ctx.equal(idx.db.in_transaction, False, f"a transaction was left open ({what})")
        if not retry:
            return
        idx.corpus = gen.MemCorpus(self.new)
        self.run(idx)
        now = lib.dump(self.path)
        if now != self.after:
            self.ctx.fail(f"indexing again after a failure gives another index ({what})", diff=lib.diff_dumps(now, self.after))
        self.leftovers(what)
        self.ctx.ev("retries")
        # foreign keys are enforced as before: deleting cascades, bad references don't pass
        self.ctx.equal(idx.db.execute("pragma foreign_keys").fetchone()[0], 1, f"referential integrity is no longer enforced ({what})")


def failing(st, idx, what, errors, *, must=True, retry=False):
    """Run, expecting one of the errors, and judge what is left. Returns whether it was stopped."""
    st.ctx.note(what)
    try:
        st.run(idx)
    except errors:
        raised = True
    else:
        raised = False
        st.ctx.check(not must, f"a failure was not reported ({what})")
    st.leftovers(what)
    out = st.whole(what, stopped=raised)
    st.ctx.check(raised or out == "after", f"indexing reported success without storing anything ({what})")
    return raised


def case(ctx, rng, i):
    temp = tempfile.tempdir
    try:
        if i % 16 == 3:
            with_processes(ctx, rng, i)
        with faults.installed() as plan:
            run(ctx, rng, i, plan)
    finally:
        tempfile.tempdir = temp


def undisturbed(st):
    """What a run that isn't disturbed leaves."""
    idx = st.open()
    try:
        st.run(idx)
        model = ref.RefIndex(st.new)
        lib.check_boolean(st.ctx, idx, model)
        lib.check_doc_keys(st.ctx, idx, model)
        if st.positions:
            lib.check_positions(st.ctx, idx, model)
        lib.check_summaries(st.ctx, idx)
    finally:
        idx.close()
    st.after = lib.dump(st.path)
    st.leftovers("undisturbed run")


def run(ctx, rng, i, plan):
    st = Setting(ctx, rng)
    tempfile.tempdir = st.temp
    ctx.note(f"{st.n} documents in batches of {st.batch} over {None if st.old is None else len(st.old)}, model={st.model}, working_dir={bool(st.work)}")
    undisturbed(st)
    limit = 60 if ctx.thorough else 12
    stopped = 0
    with faults.quiet_manager():
        # documents that fail
        trips = [(kind, k) for kind in ("docs", "index", "keys") for k, _ in st.new]
        for trip in rng.sample(trips, min(len(trips), limit // 2)):
            st.fresh()
            chaos = rng.random() < 0.3
            pool = pools.ChaosPool(3, rng.random()) if chaos else pools.InlinePool(3)
            switch = pools.SwitchPool(pool)
            idx = st.open(switch, trip)
            failing(st, idx, f"trip {trip}", gen.CorpusTrip)
            if chaos:
                pool.shutdown(wait=True, cancel_futures=False)
                st.leftovers("once all tasks ended")
                switch.inner = pools.InlinePool(3)
            st.usable(idx, f"trip {trip}", rng.random() < 0.4)
            idx.close()
            ctx.ev("failed_documents")
            stopped += 1

        # worker tasks that fail
        tasks = -(-st.n // st.batch)
        points = [(at, kind) for at in range(tasks) for kind in ("task", "after", "broken", "submit")]
        for at, kind in rng.sample(points, min(len(points), limit // 2)):
            st.fresh()
            pool = pools.FaultPool(2)
            idx = st.open(pool)
            pool.arm(at, kind)
            what = f"{kind} of task {at}"
            failing(st, idx, what, (Injected, KeyboardInterrupt, pools.cf.process.BrokenProcessPool))
            pool.disarm()
            st.usable(idx, what, rng.random() < 0.4)
            idx.close()
            ctx.ev("failed_tasks")
            stopped += 1

        # every statement
        st.fresh()
        idx = st.open()
        plan.watch(idx.db)
        st.run(idx)
        log = plan.log
        plan.reset()
        idx.close()
        last = max(n for n, sql in enumerate(log) if faults.closes(sql))
        first = next(n for n, sql in enumerate(log) if sql.lower().startswith(("begin", "savepoint")))
        for at in faults.points(rng, last - first, limit):
            at += first + 1
            when = "before" if faults.closes(log[at]) or faults.opens(log[at]) else rng.choice(["before", "after"])
            error = faults.fault_errors(rng, when)
            st.fresh()
            idx = st.open()
            plan.arm(idx.db, at, when, error)
            what = f"{error.__name__} {when} {log[at]}"
            failing(st, idx, what, error)
            ctx.check(plan.fired is not None, "the planned statement was not reached", at=at)
            plan.reset()
            st.usable(idx, what, rng.random() < 0.3)
            idx.close()
            ctx.ev("failed_statements")
            ctx.state("failed_statements", (log[at], when))
            stopped += 1

        # statements that stop half way
        for _ in range(limit // 4):
            st.fresh()
            idx = st.open()
            stop = faults.Interruption(idx.db, rng.choice([0, 1, 2, 5, 11, 23, 50]), every=rng.choice([20, 100]))
            what = "statement interrupted half way"
            hit = failing(st, idx, what, faults.sqlite3.Error, must=False)
            stop.off()
            ctx.ev("interrupted_statements", hit)
            if hit:
                st.usable(idx, what, rng.random() < 0.5)
                stopped += 1
            idx.close()

        # the process dies
        for steps, share in ((None, 1), (60, 2)):
            st.fresh()
            count = crash_run(st, -1, steps)
            ctx.equal(lib.dump(st.path), st.after, "an undisturbed run gives another index")
            for at in faults.points(rng, count, limit // share):
                st.fresh()
                code = faults.in_child(lambda: crash_run(st, at, steps))
                what = f"death at {at} of {count} {'statements' if not steps else 'steps'}"
                ctx.check(code in (0, faults.CRASHED), "the child failed", code=code)
                outcome = st.whole(what, stopped=False)
                ctx.check(code == faults.CRASHED or outcome == "after", "a finished run is not stored")
                if code == faults.CRASHED:
                    ctx.ev("crashes_within_statements" if steps else "crashes")
                    ctx.state("crash_outcomes", (at, count, steps, outcome))
                    stopped += 1
                clear(st)
                lib.integrity(ctx, st.path)
                idx = st.open()
                lib.check_summaries(ctx, idx, what)
                if outcome == "before":
                    st.usable(idx, what, rng.random() < 0.3)
                idx.close()

    # inside a transaction
    st.fresh()
    idx = st.open()
    inner = st.open()
    inner.__enter__()
    try:
        st.run(inner)
    except IndexingError:
        ctx.ev("nested_runs_refused")
    else:
        ctx.fail("indexing in an open transaction was not refused")
    st.whole("refused run")
    st.leftovers("refused run")
    ctx.equal(inner.db.in_transaction, True, "the refused run ended the transaction it was in")
    inner.__exit__(None, None, None)
    st.whole("refused run, afterwards")
    st.usable(idx, "refused run of another object", True)
    idx.close()
    if stopped >= 20:
        ctx.distinct((st.new, st.old))
    if i % 8 == 0:
        ctx.sample({"documents": st.n, "batch": st.batch, "before": None if st.old is None else len(st.old), "statements": len(log), "stopped_runs": stopped})


def clear(st):
    """A killed process can't clean up."""
    import shutil

    for d in (st.temp, st.work):
        for x in os.listdir(d) if d else ():
            shutil.rmtree(os.path.join(d, x), ignore_errors=True)


def crash_run(st, at, steps):
    idx = st.open()
    point = faults.CrashPoint(at, steps).attach(idx.db)
    opener = faults.sqlite3.connect

    def connect(*args, **kwargs):
        db = opener(*args, **kwargs)
        point.attach(db)
        return db

    faults.sqlite3.connect = connect
    try:
        st.run(idx)
    finally:
        faults.sqlite3.connect = opener
        point.detach(idx.db)
        idx.close()
    return point.count


def with_processes(ctx, rng, i):
    """Failures of documents and workers in real processes."""
    st = Setting(ctx, rng)
    tempfile.tempdir = st.temp
    st.new = gen.corpus_items(rng, 12)
    st.n, st.batch = 12, 1
    undisturbed(st)
    pool = lib.real_pool(2)
    for _ in range(3):
        st.fresh()
        idx = st.open(pool, ("slow", st.new[rng.randint(0, 3)][0]), Deadly)
        failing(st, idx, "a document failed in a worker process", gen.CorpusTrip)
        time.sleep(0.05)
        st.leftovers("a document failed in a worker process")
        idx.corpus = gen.MemCorpus(st.new)
        st.run(idx)
        lib.check_boolean(ctx, idx, ref.RefIndex(st.new))
        ctx.ev("pool_survived")
        idx.close()
    if i % 32 == 3:
        st.fresh()
        pool = pools.process_pool(2)
        switch = pools.SwitchPool(pool)
        idx = st.open(switch, ("kill", st.new[rng.randrange(12)][0]), Deadly)
        failing(st, idx, "a worker process died", pools.cf.process.BrokenProcessPool)
        pool.shutdown(wait=True, cancel_futures=True)
        switch.inner = pools.InlinePool(2)
        st.usable(idx, "a worker process died", True)
        idx.close()
        ctx.ev("killed_workers")
