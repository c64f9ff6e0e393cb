"""C22: opening and migrating files is safe."""

import gc
import io
import os
import pathlib
import sqlite3
import threading

from hyperreal import corpus as C
from hyperreal.index import Index

from .. import faults, gen, lib, pools, ref
from ..core import Injected

RULE = (
    "A case turns the file of a random index back into an earlier version (4 to 9, with the triggers, leftovers and journal modes of the time), "
    "opens it, compares documents, features, clusters, pins and statistics, and edits and re-indexes it; the process dies, and statements fail, throughout the migration "
    "and the creation of new files; current files are reopened; and foreign databases and odd paths of every kind are opened and asked about. "
    "Non-trivial: an old file with a model in it."
)
LEVEL = "fault_enumeration"
QUICK = {"cases": 80, "budget": 170}
THOROUGH = {"cases": 900, "budget": 640}
LARGE = (40, 25)
REQUIRED = {
    "large_cases": 1,
    "migrations": 100, **{f"from_version_{v}": 5 for v in range(4, 10)}, "crashes": 400, "failed_statements": 200, "unchanged_reopenings": 50,
    "foreign_refused": 700, "asked": 1000, "odd_paths": 250, "reindexed_after_migration": 50, "edits_after_migration": 200, "died_creating": 80,
    "overlapping_openings": 500, "openings_within_another": 400, "openings_together": 200,
}  # fmt: skip
ASSUMPTIONS = [
    "old files are synthesised from what the migrations add: no historical files are available",
    "SQLite may leave its own -wal and -shm files beside a database in WAL mode that is only looked at",
    "while one opener is in a transaction, another may be told that the database is locked; nothing else",
]


def case(ctx, rng, i):
    with faults.installed() as plan, faults.quiet_manager():
        version = 4 + i % 6
        old, facts = make_old(ctx, rng, version)
        migrate(ctx, rng, old, facts, version)
        interrupted(ctx, rng, plan, old, facts, version)
        current(ctx, rng, facts)
        creating(ctx, rng)
        for src in (old, None):
            overlapping(ctx, rng, src, facts, version)
            together(ctx, rng, src, facts, version)
        foreign(ctx, rng, old, facts)
        paths(ctx, rng, facts)
        if facts["members"]:
            ctx.distinct((version, facts["dump"]))
        if i % 8 == 0:
            ctx.sample({"version": version, "features": len(facts["docs"]), "clusters": len(set(facts["members"].values()))})


# -- old files ------------------------------------------------------------------
def make_old(ctx, rng, version):
    """A file of an earlier version, and what has to be in it after migrating."""
    d = ctx.tmp()
    now = os.path.join(d, "now.db")
    items = gen.corpus_items(rng, gen.sized(rng.choice([0, 1, 3, 8] + [rng.randint(3, 25)] * 4)), vocab=(4, 30))
    idx = Index(now, corpus=gen.MemCorpus(items), pool=pools.InlinePool(2), random_seed=3)
    positions = rng.random() < 0.4 and version >= 9
    if rng.random() < 0.93:
        if rng.random() < 0.4:  # some features no longer have documents
            idx.corpus = gen.MemCorpus(gen.corpus_items(rng, 5))
            idx.index()
            idx.corpus = gen.MemCorpus(items)
        idx.index(doc_batch_size=9, index_positions=positions)
        feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index")]
        if feats and rng.random() < 0.9:
            idx.initialise_clusters(rng.choice(gen.cluster_counts([1, 2, 5])), min_docs=rng.choice([0, 1]))
            idx.delete_features(rng.sample(feats, len(feats) // 5))
            for f in rng.sample(feats, min(len(feats), rng.choice([0, 0, 1, 3]))):
                idx.create_cluster_from_features([f])
            if version >= 8:
                idx.pin_features(rng.sample(feats, len(feats) // 6))
                if rng.random() < 0.5:
                    idx.pin_clusters(idx.cluster_ids[:1])
    idx.db.execute("pragma wal_checkpoint(truncate)")
    idx.close()
    facts = state(now)
    facts["items"], facts["positional"] = items, positions
    facts["current"] = now

    old = os.path.join(d, "old.db")
    faults.copy_db(now, old)
    db = faults.real_connect(old, isolation_level=None)
    run = db.execute
    run("pragma foreign_keys=0")
    run("begin")
    for name in ("insert_feature_checks", "update_feature_checks", "delete_feature_checks"):
        run(f"drop trigger {name}")
    run("alter table field_summary rename to fs")
    run("create table field_summary(field text primary key, distinct_values integer, min_value, max_value)")
    run("insert into field_summary select field, distinct_values, min_value, max_value from fs")
    run("drop table fs")
    if version < 8 or rng.random() < 0.3:
        if version < 9 and rng.random() < 0.5:
            run("create table skipgram_count(feature_id_a integer, feature_id_b integer, distance integer, docs_count integer)")
            run("insert into skipgram_count values(1, 2, 3, 4)")
        if version < 9:
            run("drop table position_index")
            run("drop table position_doc_map")
    run("alter table feature_cluster rename to fc")
    run("alter table cluster rename to c")
    run("drop index cluster_features")
    pin = ", pinned bool default 0" if version >= 8 else ""
    stats = ", docs_count integer default 0, weight integer default 0, doc_ids roaring_bitmap" if version >= 5 else ""
    run(f"create table cluster(cluster_id integer primary key, feature_count integer default 0{stats}{pin})")
    run(
        "create table feature_cluster(feature_id integer primary key references inverted_index(feature_id) on delete cascade, "
        f"cluster_id integer references cluster(cluster_id) on delete cascade, docs_count integer{pin})"
    )
    columns = "cluster_id, feature_count" + (", docs_count, weight, doc_ids" if stats else "") + (", pinned" if pin else "")
    run(f"insert into cluster({columns}) select {columns} from c")
    columns = "feature_id, cluster_id, docs_count" + (", pinned" if pin else "")
    run(f"insert into feature_cluster({columns}) select {columns} from fc")
    run("drop table fc")
    run("drop table c")
    run("create index cluster_features on feature_cluster(cluster_id, docs_count)")
    run("drop table changed_cluster")
    if version >= 5 and rng.random() < 0.7:  # came with the statistics
        run("create table changed_cluster(cluster_id integer primary key references cluster on delete cascade)")
        if rng.random() < 0.4:
            # changes that were not summarised yet
            run("insert into changed_cluster select cluster_id from cluster limit 2")
            run("update cluster set docs_count = 0, weight = 0, doc_ids = null where cluster_id in (select cluster_id from changed_cluster)")
            if rng.random() < 0.5:
                # of which one has lost its last feature
                run("insert into cluster(cluster_id, feature_count) values(900, 2)")
                run("insert into changed_cluster values(900)")
    if rng.random() < 0.2:
        run("insert into cluster(cluster_id, feature_count) values(901, 0)")
    if rng.random() < 0.6:
        run("create trigger ensure_cluster before insert on feature_cluster begin insert or ignore into cluster(cluster_id) values (new.cluster_id); end")
        run("create trigger update_cluster_feature_counts after insert on feature_cluster begin update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id; end")
        run("create trigger delete_feature_cluster after delete on feature_cluster begin update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id; end")
    if rng.random() < 0.3:
        run("delete from settings")
    run(f"pragma user_version={version}")
    run("pragma application_id=715973853")  # what files out there carry
    run("commit")
    run("pragma journal_mode=" + rng.choice(["delete", "wal"]))
    db.close()
    return old, facts


def state(path):
    """What an index holds, by meaning rather than layout."""
    db = faults.real_connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    try:
        got = lib.dump_db(db, ["doc_key", "inverted_index", "position_doc_map", "position_index"])
        rows = lib.model_rows(db)
        return {
            "dump": got,
            "docs": lib.index_docs(db),
            "members": {f: c for f, (c, _, _) in rows.items()},
            "fpin": {f for f, r in rows.items() if r[2]},
            "cpin": {c for c, r in lib.cluster_rows(db).items() if r[4]},
            "fields": sorted(lib.plain(r) for r in map(tuple, db.execute("select field from field_summary"))),
            "summary": sorted(tuple(map(ref.vkey, r)) for r in db.execute("select field, distinct_values, min_value, max_value, position_count from field_summary")),
        }
    finally:
        db.close()


def same(ctx, path, facts, what):
    got = state(path)
    for k, message in (
        ("dump", "documents or features changed"), ("members", "clusters changed"), ("fpin", "pinned features changed"), ("cpin", "pinned clusters changed"),
        ("summary", "the field summary is wrong"),
    ):  # fmt: skip
        want = facts[k]
        if k == "dump":
            got[k] = {t: v for t, v in got[k].items() if v or t in want}
            want = {t: v for t, v in want.items() if v or t in got[k]}
        ctx.equal(got[k], want, f"{message} {what}")


def open_old(path, corpus=None):
    return Index(path, corpus=corpus, pool=pools.InlinePool(2), random_seed=1)


def remove(path):
    for suffix in ("", "-wal", "-shm", "-journal"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)


def fresh(ctx, src):
    dst = os.path.join(ctx.tmp(), "x.db")
    remove(dst)
    faults.copy_db(src, dst)
    return dst


def migrated(ctx, rng, path, facts, what, deep=False):
    """Open it: it has to be the current version of the same index, and work."""
    idx = open_old(path, gen.MemCorpus(facts["items"]))
    same(ctx, path, facts, what)
    version = idx.db.execute("pragma user_version").fetchone()[0]
    want = faults.real_connect(facts["current"])
    ctx.equal(version, want.execute("pragma user_version").fetchone()[0], f"the version of the file is not current {what}")
    want.close()
    ctx.equal(idx.db.in_transaction, False, f"a transaction was left open {what}")
    lib.check_summaries(ctx, idx, what)
    ctx.equal(Index.is_index_db(path), True, f"a migrated index isn't recognised {what}")
    if deep:
        m = lib.ref_model(idx)
        for _ in range(3):
            lib.random_edit(ctx, rng, idx, m)
            lib.check_model(ctx, idx, m, what)
            lib.check_summaries(ctx, idx, what)
            ctx.ev("edits_after_migration")
        idx.index(doc_batch_size=8, index_positions=facts["positional"])
        if facts["dump"]["doc_key"]:
            got = lib.dump_db(idx.db, ["doc_key", "inverted_index", "position_doc_map", "position_index"])
            if not facts["positional"]:
                ctx.equal(got, facts["dump"], f"re-indexing the same documents gives something else {what}")
            else:
                ctx.equal(got["inverted_index"], facts["dump"]["inverted_index"], f"re-indexing the same documents gives other features {what}")
        ctx.ev("reindexed_after_migration")
        lib.check_model(ctx, idx, m, what)
        lib.check_summaries(ctx, idx, what)
        lib.integrity(ctx, path)
    idx.close()


def migrate(ctx, rng, old, facts, version):
    for deep in (False, True):
        path = fresh(ctx, old)
        ctx.equal(Index.is_index_db(path), True, f"an index of version {version} isn't recognised")
        migrated(ctx, rng, path, facts, f"after migrating from version {version}", deep)
        ctx.ev("migrations")
    ctx.ev(f"from_version_{version}")
    # And once more: nothing is left to do.
    path = fresh(ctx, old)
    open_old(path).close()
    before = read(path)
    open_old(path).close()
    ctx.equal(read(path), before, "opening a migrated index changed it again")


def read(path):
    with open(path, "rb") as f:
        return f.read()


def dying(path, at, steps):
    """Open an index, dying at the n-th statement or step of whatever it opens."""
    point = faults.CrashPoint(at, steps)
    opener = sqlite3.connect

    def connect(*args, **kwargs):
        db = opener(*args, **kwargs)
        point.attach(db)
        return db

    sqlite3.connect = connect
    try:
        idx = open_old(path)
        point.detach(idx.db)
        idx.close()
    finally:
        sqlite3.connect = opener
    return point.count


def interrupted(ctx, rng, plan, old, facts, version):
    limit = 40 if ctx.thorough else 6
    untouched = old_dump(old)
    for steps in (None, 50):
        count = dying(fresh(ctx, old), -1, steps)
        for at in faults.points(rng, count, limit):
            path = fresh(ctx, old)
            code = faults.in_child(lambda: dying(path, at, steps))
            ctx.check(code in (0, faults.CRASHED), "the child failed", code=code)
            what = f"after dying at {at} of {count} {'steps' if steps else 'statements'} of migrating from version {version}"
            half(ctx, rng, path, facts, untouched, what)
            ctx.ev("crashes")
            ctx.state("migration_crash_points", (version, steps, at, count))

    # Statements that fail, in this process
    conns = []
    opener = sqlite3.connect

    def connect(*args, **kwargs):
        db = opener(*args, **kwargs)
        conns.append(db)
        if len(conns) == 1:
            if at < 0:
                plan.watch(db)
            else:
                plan.arm(db, at, "before", error)
        return db

    at, error = -1, Injected
    sqlite3.connect = connect
    try:
        open_old(fresh(ctx, old)).close()
        count = plan.count
        plan.reset()
        for at in faults.points(rng, count, limit):
            conns.clear()
            path = fresh(ctx, old)
            error = rng.choice([Injected, KeyboardInterrupt, sqlite3.OperationalError, MemoryError])
            failed = False
            try:
                open_old(path).close()
            except (error, sqlite3.OperationalError):
                failed = True
            ctx.check(failed, "a failure while opening was not reported", statement=plan.fired)
            what = f"after {error.__name__} at {plan.fired} of migrating from version {version}"
            plan.reset()
            while conns:
                conns.pop().close()
            gc.collect()
            sqlite3.connect = opener
            half(ctx, rng, path, facts, untouched, what)
            sqlite3.connect = connect
            ctx.ev("failed_statements")
    finally:
        sqlite3.connect = opener
        plan.reset()


def old_dump(path):
    db = faults.real_connect(path)
    try:
        return db.execute("pragma user_version").fetchone()[0], sorted(db.execute("select type, name, sql from sqlite_master").fetchall(), key=repr)
    finally:
        db.close()


def half(ctx, rng, path, facts, untouched, what):
    """Old or current, nothing in between, and it can be opened."""
    lib.integrity(ctx, path)
    got = old_dump(path)
    if got != untouched:
        ctx.equal(got[0], current_version(facts), f"the file is neither of the old nor the current version {what}")
        same(ctx, path, facts, what)
        db = faults.real_connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
        lib.check_committed(ctx, db, what)
        db.close()
        ctx.ev("found_migrated")
    else:
        ctx.ev("found_old")
    migrated(ctx, rng, path, facts, what)


def current_version(facts):
    db = faults.real_connect(facts["current"])
    try:
        return db.execute("pragma user_version").fetchone()[0]
    finally:
        db.close()


# -- current files ----------------------------------------------------------------
def current(ctx, rng, facts):
    path = fresh(ctx, facts["current"])
    before = read(path)
    for _ in range(2):
        idx = open_old(path)
        idx.cluster_ids
        idx.close()
        ctx.equal(read(path), before, "opening a current index changed the file")
        ctx.ev("unchanged_reopenings")
    ctx.equal(sorted(os.listdir(os.path.dirname(path))), ["x.db"], "opening and closing left files behind")


def creating(ctx, rng):
    """New files: complete, or still nothing."""
    count = dying(os.path.join(ctx.tmp(), "new.db"), -1, None)
    for at in faults.points(rng, count, 30 if ctx.thorough else 5):
        path = os.path.join(ctx.tmp(), "new.db")
        code = faults.in_child(lambda: dying(path, at, None))
        ctx.check(code in (0, faults.CRASHED), "the child failed", code=code)
        what = f"after dying at {at} of {count} statements of creating an index"
        idx = Index(path, corpus=gen.MemCorpus([(1, {"a": ["x", "y"]})]), pool=pools.InlinePool(2))
        idx.index()
        idx.initialise_clusters(1)
        lib.check_summaries(ctx, idx, what)
        ctx.equal(len(idx[("a", "x")]), 1, f"the index does not work {what}")
        idx.close()
        ctx.equal(Index.is_index_db(path), True, f"the index isn't recognised {what}")
        ctx.ev("died_creating")


# -- several openers ------------------------------------------------------------
def use(idx, facts, new):
    """What the opener that comes first does with the index."""
    if new:
        idx.corpus = gen.MemCorpus(SMALL)
        idx.index(index_positions=True)
        idx.initialise_clusters(2)
    idx.db.execute("replace into settings values('left_here', 'x')")


SMALL = [(1, {"t": ["x", "y", "x"]}), (2, {"t": ["y", "z"]})]


def settled(ctx, rng, path, facts, what, used):
    """After several openers: one index, with everything in it."""
    if facts is None:
        idx = open_old(path, gen.MemCorpus(SMALL))
        if used:
            ctx.equal(idx.settings.get("left_here"), "x", f"a setting was lost {what}")
            ctx.equal(sorted(idx[("t", "x")]), [0], f"the documents of another opener were lost {what}")
            ctx.equal(len(idx.cluster_ids), 2, f"the clusters of another opener were lost {what}")
        idx.index()
        lib.check_summaries(ctx, idx, what)
        ctx.equal(len(idx[("t", "y")]), 2, f"the index does not work {what}")
        idx.close()
        lib.integrity(ctx, path)
    else:
        if used:
            db = faults.real_connect(path)
            ctx.equal(db.execute("select value from settings where key = 'left_here'").fetchall(), [("x",)], f"a setting was lost {what}")
            db.close()
        migrated(ctx, rng, path, facts, what)


def overlapping(ctx, rng, src, facts, version):
    """Another opener comes, works and goes in between two statements of the first."""
    new = src is None

    def start():
        path = os.path.join(ctx.tmp(), "x.db")
        return path if new else fresh(ctx, src)

    def first(path, at):
        """Returns how many statements it took, and what became of the other one."""
        seen = {"n": 0, "other": "never came", "early": []}
        opener = sqlite3.connect

        def trace(sql):
            if sql.startswith("--"):
                return  # within a statement
            n = seen["n"]
            seen["n"] += 1
            if at < 0 and not conns[0].in_transaction:
                seen["early"].append(n)
            if n == at:
                inside = conns[0].in_transaction
                try:
                    idx = open_old(path)
                except sqlite3.OperationalError as e:
                    seen["other"] = "waits" if inside and "locked" in str(e) else e
                except BaseException as e:
                    seen["other"] = e
                else:
                    try:
                        use(idx, facts, new)
                        seen["other"] = "came"
                    except BaseException as e:
                        # It has come to read, at worst.
                        seen["other"] = "waits" if inside and "locked" in str(e) else e
                    idx.close()

        conns = []

        def connect(*args, **kwargs):
            if conns:
                kwargs["timeout"] = 0.002
            db = opener(*args, **kwargs)
            conns.append(db)
            if len(conns) == 1:
                db.set_trace_callback(trace)
            return db

        sqlite3.connect = connect
        try:
            idx = open_old(path)
            idx.db.set_trace_callback(None)
            idx.close()
        finally:
            sqlite3.connect = opener
            for db in conns:
                db.close()
        return seen["n"], seen["other"], seen["early"]

    count, _, early = first(start(), -1)
    # What is decided before anything is locked is what can be out of date.
    for at in sorted({*faults.points(rng, count, 60 if ctx.thorough else 6), *early[:40]}):
        path = start()
        what = f"when another opener came before statement {at} of {count} of " + ("creating it" if new else f"migrating it from version {version}")
        try:
            other = first(path, at)[1]
        except Exception as e:
            ctx.fail(f"opening an index failed {what}", error=repr(e))
        ctx.check(isinstance(other, str), f"the other opener failed {what}", error=repr(other))
        ctx.ev("overlapping_openings")
        if other == "came":
            ctx.ev("openings_within_another")
        settled(ctx, rng, path, None if new else facts, what, other == "came")
        ctx.state("overlaps", (version if not new else 0, at, other))


def together(ctx, rng, src, facts, version):
    """Several threads, each opening the same file."""
    new = src is None
    path = os.path.join(ctx.tmp(), "x.db") if new else fresh(ctx, src)
    results = []
    barrier = threading.Barrier(3)

    def run():
        barrier.wait()
        try:
            open_old(path).close()
            results.append("opened")
        except BaseException as e:
            results.append(e)

    threads = [threading.Thread(target=run) for _ in range(3)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    what = "when three opened it at once"
    for r in results:
        ctx.check(r == "opened" or (isinstance(r, sqlite3.OperationalError) and "locked" in str(r)), f"opening an index failed {what}", error=repr(r), version=version, new=new)
        ctx.ev("openings_together")
    settled(ctx, rng, path, None if new else facts, what, False)


# -- foreign files ------------------------------------------------------------------
def foreign(ctx, rng, old, facts):
    d = ctx.tmp()
    made = []

    def make(name, *statements, source=None, journal=None):
        path = os.path.join(d, name)
        if source:
            faults.copy_db(source, path)
        db = faults.real_connect(path, isolation_level=None)
        for s in statements:
            db.execute(s)
        db.execute(f"pragma journal_mode={journal or rng.choice(['delete', 'wal', 'delete'])}")
        db.close()
        made.append(path)

    table = rng.choice(["create table x(a, b)", "create table doc(a)", "create view v as select 1", "create table settings(key, value)", "create table cluster(cluster_id)"])
    fill = [] if "view" in table else [f"insert into {table.split()[2].split('(')[0]} default values"]
    for version in {0, 1, 2, 3, rng.randint(4, 9), 10, 11, 12, rng.randint(13, 2**31 - 1), -rng.randint(1, 2**31 - 1)}:
        make(f"v{version}.db", table, *fill, f"pragma user_version={version}")
    make("other_app.db", table, *fill, "pragma user_version=10", "pragma application_id=1196444487")
    make("claims.db", table, "pragma user_version=3", "pragma application_id=715973853")
    for version in (0, 1, 3, 11, 99, -1):
        make(f"unknown{version}.db", f"pragma user_version={version}", source=rng.choice([old, facts["current"]]))
    corpus = os.path.join(d, "texts.db")
    c = C.PlainTextSqliteCorpus(corpus)
    c.replace_docs(["a text", "another"])
    del c
    gc.collect()
    made.append(corpus)
    site = os.path.join(d, "site.db")
    c = C.StackExchangeCorpus(site)
    c.add_site_data(*(io.BytesIO(f"<{n}></{n}>".encode()) for n in ("posts", "comments", "users")), "https://a.example")
    del c
    gc.collect()
    made.append(site)
    for path in (corpus, site):
        db = faults.real_connect(path)
        db.execute("pragma wal_checkpoint(truncate)")
        db.close()
    for name, content in (
        ("text.txt", b"hello world\n" * 200), ("random.bin", rng.randbytes(5000)), ("magic", b"SQLite format 3\x00" + rng.randbytes(600)),
        ("almost", b"SQLite format 4\x00" + bytes(600)),
    ):  # fmt: skip
        with open(os.path.join(d, name), "wb") as f:
            f.write(content)
        made.append(os.path.join(d, name))

    for path in made:
        name = os.path.basename(path)
        before = read(path)
        try:
            open_old(path)
        except Exception as e:
            ctx.state("refusals", (name[:7], type(e).__name__))
        else:
            ctx.fail(f"a file that isn't an index this version knows was opened: {name}", table=table)
        gc.collect()
        ctx.equal(read(path), before, f"a file that was refused was changed: {name}", table=table)
        ctx.ev("foreign_refused")
        if not name.startswith(("unknown", "claims")):
            ctx.equal(Index.is_index_db(path), False, f"something else is taken for an index: {name}")
            ctx.ev("asked")
        elif name.startswith("unknown"):
            Index.is_index_db(path)
        ctx.equal(read(path), before, f"asking about a file changed it: {name}")
    for directory in (d, pathlib.Path(d)):
        listing = sorted(os.listdir(d))
        ctx.equal(Index.is_index_db(directory), False, "a directory is taken for an index")
        ctx.equal(sorted(os.listdir(d)), listing, "asking about a directory changed it")
        ctx.ev("asked")


ODD = ["a b", "q?mode=memory", "h#frag", "p%41", "p%", "ü日本", "quote'\"", "semi;colon", "back\\slash", "new\nline", "-dash", ":memory:", "file:x", "plus+&=", "~", "dot.", "\udcff\udc80", "x" * 200]


def paths(ctx, rng, facts):
    d = ctx.tmp()
    here = os.getcwd()
    os.chdir(d)
    try:
        for name in rng.sample(ODD, 5 if not ctx.thorough else len(ODD)):
            sub = os.path.join(d, rng.choice(ODD)[:60] + "_d")
            os.makedirs(sub, exist_ok=True)
            path = os.path.join(sub, name)
            variants = [path, pathlib.Path(path), os.path.relpath(path, d)]
            for p in variants:
                listing = sorted(os.listdir(sub))
                ctx.equal(Index.is_index_db(p), False, "a missing file is taken for an index", path=p)
                ctx.equal(sorted(os.listdir(sub)), listing, "asking about a missing file created something", path=p)
                ctx.ev("asked")
            faults.copy_db(facts["current"], path)
            before = read(path)
            for p in variants:
                ctx.equal(Index.is_index_db(p), True, "an index isn't recognised", path=p)
                ctx.equal(read(path), before, "asking about an index changed it", path=p)
                extra = set(os.listdir(sub)) - {name, name + "-wal", name + "-shm"} - {n for n in listing}
                ctx.equal(extra, set(), "asking about an index created something", path=p)
                ctx.ev("asked")
            link = os.path.join(sub, "link")
            if not os.path.lexists(link):
                os.symlink(path, link)
                ctx.equal(Index.is_index_db(link), True, "a link to an index isn't recognised")
                os.remove(link)
                os.symlink(os.path.join(sub, "nothing"), link)
                ctx.equal(Index.is_index_db(link), False, "a dangling link is taken for an index")
                ctx.equal(os.path.exists(os.path.join(sub, "nothing")), False, "asking about a dangling link created its target")
                os.remove(link)
                ctx.ev("asked", 2)
            # The file that is opened is the one at that path, also by workers.
            if name not in (":memory:", "file:x"):
                idx = Index(path, corpus=gen.MemCorpus(facts["items"]), pool=pools.InlinePool(2), random_seed=1)
                if facts["members"]:
                    idx.merge_clusters(idx.cluster_ids)
                    lib.check_summaries(ctx, idx, f"at {path!r}")
                idx.close()
                same_docs = state(path)
                ctx.equal(same_docs["dump"], facts["dump"], "an edit at an odd path changed documents", path=path)
                ctx.equal(len(set(same_docs["members"].values())), min(1, len(facts["members"])), "an edit at an odd path went elsewhere", path=path)
            remove(path)
            ctx.ev("odd_paths")
        empty = os.path.join(d, "empty")
        open(empty, "w").close()
        ctx.equal(Index.is_index_db(empty), False, "an empty file is taken for an index")
        ctx.equal(read(empty), b"", "asking about an empty file changed it")
        ctx.equal(Index.is_index_db(os.path.join(d, "none", "x.db")), False, "a missing directory is taken for an index")
        ctx.equal(os.path.exists(os.path.join(d, "none")), False, "asking created a directory")
        ctx.ev("asked", 2)
        busy(ctx, rng, d, facts)
    finally:
        os.chdir(here)


def busy(ctx, rng, d, facts):
    """An index that is being written to is one too."""
    path = os.path.join(d, "busy.db")
    faults.copy_db(facts["current"], path)
    writer = faults.real_connect(path, isolation_level=None)
    writer.execute("begin immediate")
    writer.execute("delete from doc_key")
    ctx.equal(Index.is_index_db(path), True, "an index being written to isn't recognised")
    writer.execute("rollback")
    writer.close()
    ctx.ev("asked")
