"""C20: a failed or killed edit leaves the model untouched and usable."""

import os

from hyperreal.index import Index

from .. import faults, gen, lib, pools
from ..core import Injected, Violation

RULE = (
    "A case has a model and one edit of each kind (create, merge, delete, pin, initialise, refine with random options). Each edit "
    "is made to fail at statements before and after they ran, half way through them, in worker tasks that fail, lose their result or "
    "break the pool, and by the process dying at statements of any connection; then invalid edits are tried. After every failure the "
    "file is compared with its content before and after an undisturbed edit, and the same object edits again. "
    "Non-trivial: at least 60 of these edits were stopped."
)
LEVEL = "fault_enumeration"
QUICK = {"cases": 40, "budget": 160}
THOROUGH = {"cases": 700, "budget": 640}
LARGE = (20, 12)
REQUIRED = {
    "large_cases": 1,
    "failed_statements": 1200, "failed_tasks": 400, "interrupted_statements": 100, "crashes": 500, "later_edits_saved": 1500,
    "invalid_edits": 200, "failed_commits": 80, "nested_failures": 40,
}  # fmt: skip
ASSUMPTIONS = ["a crash is the death of the process: no power loss", "no interrupt arrives between opening a transaction and the statement that guards it"]

KINDS = ("create", "merge", "delc", "delf", "pinf", "pinc", "init", "refine", "refine")


class Setting:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.dir = ctx.tmp()
        self.base = os.path.join(self.dir, "base.db")
        self.path = os.path.join(self.dir, "i.db")
        items = gen.corpus_items(rng, gen.sized(rng.choice([3, rng.randint(4, 25)])), vocab=(4, 30))
        idx = Index(self.base, corpus=gen.MemCorpus(items), pool=pools.InlinePool(2), random_seed=5)
        idx.index(doc_batch_size=7)
        self.feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index order by feature_id")]
        if self.feats:
            idx.initialise_clusters(rng.choice(gen.cluster_counts([1, 2, 4, 7])))
            idx.pin_features(rng.sample(self.feats, len(self.feats) // 6))
            idx.delete_features(rng.sample(self.feats, len(self.feats) // 8))
            if rng.random() < 0.4:
                idx.pin_clusters(idx.cluster_ids[:1])
        self.clusters = idx.cluster_ids
        self.members = lib.model_rows(idx)
        idx.db.execute("pragma wal_checkpoint(truncate)")
        idx.close()
        self.before = lib.dump(self.base)

    def open(self, pool=None):
        faults.copy_db(self.base, self.path)
        return self.again(pool)

    def again(self, pool=None):
        return Index(self.path, pool=pool or pools.InlinePool(2), random_seed=7)

    def edit(self, rng, kind):
        """A function doing one edit that is always the same."""
        feats = [rng.choice(self.feats) for _ in range(rng.randint(1, 5) if gen.SIZE == 1 else len(self.feats))]
        clusters = rng.sample(self.clusters, rng.randint(1, len(self.clusters)))
        if kind == "create":
            return f"create_cluster_from_features({feats})", lambda i: i.create_cluster_from_features(feats)
        if kind == "merge":
            return f"merge_clusters({clusters})", lambda i: i.merge_clusters(clusters)
        if kind == "delc":
            return f"delete_clusters({clusters})", lambda i: i.delete_clusters(clusters)
        if kind == "delf":
            return f"delete_features({feats})", lambda i: i.delete_features(feats)
        if kind == "pinf":
            return f"pin_features({feats})", lambda i: i.pin_features(feats)
        if kind == "pinc":
            return f"pin_clusters({clusters})", lambda i: i.pin_clusters(clusters)
        if kind == "init":
            n = rng.randint(1, 6)
            return f"initialise_clusters({n})", lambda i: i.initialise_clusters(n)
        kw = lib.refine_options(rng, len(self.clusters))
        kw["iterations"] = min(kw["iterations"], 2)
        return f"refine_clusters({kw})", lambda i: i.refine_clusters(**kw)

    def settle(self, after, what, raised):
        """Before or after, nothing else."""
        now = lib.dump(self.path)
        if now == self.before:
            self.ctx.check(raised or after == self.before, f"an edit succeeded without being saved ({what})")
            return "before"
        if now == after:
            self.ctx.check(not raised, f"an edit that failed was saved ({what})")
            return "after"
        self.ctx.fail(
            f"part of an edit was saved ({what})", against_before=lib.diff_dumps(now, self.before), against_after=lib.diff_dumps(now, after),
        )  # fmt: skip

    def usable(self, rng, idx, what):
        """No transaction is open, and another edit is made, right, and seen by others."""
        ctx = self.ctx
        ctx.equal(idx.db.in_transaction, False, f"a transaction was left open ({what})")
        m = lib.ref_model(idx)
        lib.random_edit(ctx, rng, idx, m, refine=False)
        lib.check_model(ctx, idx, m, f"after {what}")
        lib.check_summaries(ctx, idx, f"after {what}")
        ctx.equal(lib.dump_db(idx.db), lib.dump(self.path), f"a later edit was not saved ({what})")
        ctx.ev("later_edits_saved")


def case(ctx, rng, i):
    with faults.installed() as plan:
        run(ctx, rng, i, plan)


def run(ctx, rng, i, plan):
    st = Setting(ctx, rng)
    if not st.feats or not st.clusters:
        return
    stopped = 0
    limit = 5 if gen.SIZE > 1 else 40 if ctx.thorough else 7
    for kind in KINDS:
        name, edit = st.edit(rng, kind)
        ctx.note(name)
        stopped += faulty(ctx, rng, st, plan, name, edit, limit)
    stopped += nested(ctx, rng, st, plan)
    invalid(ctx, rng, st)
    if stopped >= 60:
        ctx.distinct((st.before["feature_cluster"], stopped))
    if i % 8 == 0:
        ctx.sample({"features": len(st.feats), "clusters": len(st.clusters), "stopped_edits": stopped})


def faulty(ctx, rng, st, plan, name, edit, limit):
    pool = pools.FaultPool(2)
    idx = st.open(pool)
    plan.watch(idx.db)
    pool.arm(-1, "task")
    edit(idx)
    log, tasks = plan.log, pool.seen
    plan.reset()
    idx.close()
    after = lib.dump(st.path)
    first = next((n for n, sql in enumerate(log) if faults.opens(sql)), 0)
    last = max((n for n, sql in enumerate(log) if faults.closes(sql)), default=len(log) - 1)
    stopped = 0

    points = set(faults.points(rng, last - first, limit)) | {last - first - 1}
    for at in sorted(points):
        at += first + 1
        edge = faults.opens(log[at]) or faults.closes(log[at])
        when = "before" if edge else rng.choice(["before", "after"])
        error = faults.fault_errors(rng, when)
        idx = st.open()
        plan.arm(idx.db, at, when, error)
        what = f"{error.__name__} {when} {log[at]} in {name}"
        try:
            edit(idx)
            ctx.fail(f"a failure was not reported ({what})", fired=plan.fired)
        except (error, faults.sqlite3.OperationalError):
            pass
        plan.reset()
        st.settle(after, what, True)
        st.usable(rng, idx, what)
        idx.close()
        ctx.ev("failed_statements")
        ctx.ev("failed_commits", at == last)
        ctx.state("failed_statements", (log[at], when))
        stopped += 1

    points = [(at, kind) for at in range(tasks) for kind in ("task", "after", "broken", "submit")]
    for at, kind in rng.sample(points, min(len(points), limit)):
        pool = pools.FaultPool(2)
        idx = st.open(pool)
        pool.arm(at, kind)
        what = f"{kind} of task {at} in {name}"
        try:
            edit(idx)
            ctx.fail(f"a failure was not reported ({what})")
        except (Injected, KeyboardInterrupt, pools.cf.process.BrokenProcessPool):
            pass
        pool.disarm()
        st.settle(after, what, True)
        st.usable(rng, idx, what)
        idx.close()
        ctx.ev("failed_tasks")
        stopped += 1

    for _ in range(limit // 3):
        idx = st.open()
        stop = faults.Interruption(idx.db, rng.choice([0, 1, 2, 3, 5, 9, 20]), every=rng.choice([10, 40]))
        what = f"statement interrupted half way in {name}"
        try:
            edit(idx)
            raised = False
        except faults.sqlite3.Error:
            raised = True
        stop.off()
        st.settle(after, what, raised)
        if raised:
            st.usable(rng, idx, what)
            ctx.ev("interrupted_statements")
            stopped += 1
        idx.close()

    for steps in (None, 40):
        count = dying(st, edit, -1, steps)
        for at in faults.points(rng, count, max(5, limit // 3)):
            faults.copy_db(st.base, st.path)
            code = faults.in_child(lambda: dying(st, edit, at, steps))
            what = f"death at {at} of {count} {'steps' if steps else 'statements'} in {name}"
            ctx.check(code in (0, faults.CRASHED), "the child failed", code=code)
            now = lib.dump(st.path)
            ctx.check(now in (st.before, after), f"part of an edit survived ({what})", against_before=lib.diff_dumps(now, st.before), against_after=lib.diff_dumps(now, after))
            if code == 0:
                ctx.equal(now, after, f"a finished edit was not saved ({what})")
            else:
                ctx.ev("crashes")
                stopped += 1
            if rng.random() < 0.3:
                lib.integrity(ctx, st.path)
                idx = st.again()
                st.usable(rng, idx, what)
                idx.close()
    return stopped


def dying(st, edit, at, steps):
    if at < 0:
        faults.copy_db(st.base, st.path)
    idx = st.again()
    point = faults.CrashPoint(at, steps).attach(idx.db)
    opener = faults.sqlite3.connect

    def connect(*args, **kwargs):
        db = opener(*args, **kwargs)
        point.attach(db)
        return db

    faults.sqlite3.connect = connect
    try:
        edit(idx)
    finally:
        faults.sqlite3.connect = opener
        point.detach(idx.db)
        idx.close()
    return point.count


def nested(ctx, rng, st, plan):
    """Edits in a transaction of the caller: a failing one is undone alone, the others stand."""
    done = 0
    for _ in range(2):
        idx = st.open()
        idx.db.execute("begin")
        k = idx.create_cluster_from_features(st.feats[:2])
        held = lib.dump_db(idx.db)
        name, edit = st.edit(rng, rng.choice(KINDS[:7]))
        plan.watch(idx.db)
        edit(idx)
        log = plan.log
        plan.reset()
        idx.db.execute("rollback")
        idx.db.execute("begin")
        k = idx.create_cluster_from_features(st.feats[:2])
        inner = [n for n, sql in enumerate(log) if not faults.opens(sql)]
        at = rng.choice(inner)
        error = faults.fault_errors(rng)
        plan.arm(idx.db, at, "before", error)
        what = f"{error.__name__} before {log[at]} in {name}, inside a transaction"
        try:
            edit(idx)
            ctx.fail(f"a failure was not reported ({what})")
        except (error, faults.sqlite3.OperationalError):
            pass
        plan.reset()
        ctx.equal(lib.dump(st.path), st.before, f"something was saved before the transaction of the caller ended ({what})")
        ctx.equal(lib.dump_db(idx.db), held, f"the failed edit is not undone, or more than it ({what})")
        ctx.equal(idx.db.in_transaction, True, f"a failed edit ended the transaction of the caller ({what})")
        idx.db.execute("commit")
        m = lib.ref_model(idx)
        ctx.equal({f for f, c in m.member.items() if c == k}, set(st.feats[:2]), f"an earlier edit of the transaction was lost ({what})")
        lib.check_summaries(ctx, idx, what)
        st.usable(rng, idx, what)
        idx.close()
        ctx.ev("nested_failures")
        done += 1
    return done


def invalid(ctx, rng, st):
    """Edits that can't be done raise or do nothing, and never a part."""
    bad = max(st.feats) + 100
    good = st.feats[: rng.randint(1, 4)]
    calls = {
        "create from features that don't exist": lambda i: i.create_cluster_from_features(good + [bad]),
        "create from things that aren't ids": lambda i: i.create_cluster_from_features(good + [object()]),
        "merge nothing": lambda i: i.merge_clusters([]),
        "merge things that aren't ids": lambda i: i.merge_clusters(st.clusters[:2] + [object()]),
        "delete things that aren't ids": lambda i: i.delete_features(good + [object()]),
        "delete clusters that aren't ids": lambda i: i.delete_clusters(st.clusters[:1] + [object()]),
        "pin things that aren't ids": lambda i: i.pin_features(good + [object()]),
        "pin clusters that aren't ids": lambda i: i.pin_clusters(st.clusters[:1] + [object()]),
        "refine without iterations": lambda i: i.refine_clusters(iterations=0),
        "initialise from fields that aren't text": lambda i: i.initialise_clusters(2, include_fields=["text", object()]),
        "an iterator that fails": lambda i: i.delete_features(trip(good)),
        "an iterator of clusters that fails": lambda i: i.pin_clusters(trip(st.clusters[:1])),
    }
    for what, call in calls.items():
        idx = st.open()
        try:
            call(idx)
            ctx.fail(f"an invalid edit was accepted: {what}")
        except Violation:
            raise
        except Exception:
            pass
        now = lib.dump(st.path)
        ctx.equal(now, st.before, f"an invalid edit changed the model: {what}", diff=lib.diff_dumps(now, st.before))
        st.usable(rng, idx, what)
        idx.close()
        ctx.ev("invalid_edits")


def trip(ids):
    yield from ids
    raise Injected("injected")
