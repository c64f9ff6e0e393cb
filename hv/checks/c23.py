"""C23: the plain text corpus stores exactly the documents it was given."""

import os
import pickle
import sqlite3

from hyperreal import utilities
from hyperreal.corpus import PlainTextSqliteCorpus

from .. import faults, gen, lib
from ..core import Injected

RULE = (
    "A case replaces the documents of one corpus file several times with random texts (empty, "
    "repeated, long, every script), reading back random selections of keys after each, also through "
    "pickled copies; then makes replacements fail: the source of texts at random points, every "
    "statement (before and after, by errors and interrupts), statements half way, and the process "
    "dying at every statement. Non-trivial: a replacement was stopped after part of it was done."
)
LEVEL = "fault_enumeration"
QUICK = {"cases": 130, "budget": 150}
THOROUGH = {"cases": 1500, "budget": 600}
LARGE = (40, 25)
REQUIRED = {
    "large_cases": 1,
    "texts_compared": 5000,
    "replacements": 150,
    "failed_sources": 100,
    "failed_statements": 200,
    "interrupted_statements": 60,
    "crashes": 300,
    "copies_read": 100,
}
ASSUMPTIONS = ["a crash is the death of the process: no power loss"]

FIRST = ["", " ", "a", "A  b", "a\nb\r\n", "'", '"', "x" * 5000, "é", "e\u0301", "日本", "😀", "\ufeff", "%", "<b>", "{{ x }}", "a,b", "0", "null", "\x00mid\x00", "tab\t"]


def texts(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            out.append(rng.choice(FIRST))
        elif r < 0.4 and out:
            out.append(rng.choice(out))
        else:
            out.append(" ".join(rng.choice(gen.WORDS) for _ in range(rng.randint(0, 15))))
    return out


def stored(path):
    """What another reader of the file sees."""
    db = faults.real_connect(path)
    try:
        if not db.execute("select 1 from sqlite_master where name = 'doc'").fetchone():
            return None
        assert db.execute("pragma integrity_check").fetchone()[0] == "ok"
        return [t for _, t in db.execute("select doc_id, text from doc order by doc_id")]
    finally:
        db.close()


def read_back(ctx, rng, corpus, want, where):
    keys = list(corpus.keys())
    ctx.equal(len(set(keys)), len(want), f"one key for each document {where}")
    ctx.equal(keys, sorted(keys), f"keys are not in the order of the documents {where}")
    docs = list(corpus.docs())
    ctx.equal([k for k, _ in docs], keys, f"all documents, by their keys {where}")
    ctx.equal([d["text"] for _, d in docs], want, f"the documents stored {where}")
    by_key = dict(zip(keys, want))
    for _ in range(3):
        some = [rng.choice(keys) for _ in range(rng.randint(0, 6))] if keys else []
        if rng.random() < 0.3:
            some = rng.sample(keys, len(keys))
        expected = [(k, by_key[k]) for k in some]
        ctx.equal([(k, d["text"]) for k, d in corpus.docs(doc_keys=iter(some))], expected, f"the requested documents {where}", keys=some)
        ctx.equal([(k, str(t)) for k, t in corpus.render_docs_html(some)], expected, f"documents rendered for the web {where}", keys=some)
        ctx.equal([(k, r) for k, r in corpus.render_docs_table(some)], [(k, {"text": t}) for k, t in expected], f"documents rendered as a table {where}")
        ctx.ev("texts_compared", 3 * len(some))
    if keys:
        k = rng.choice(keys)
        ctx.equal([(a, d["text"]) for a, d in corpus[k]], [(k, by_key[k])], f"one document {where}")
        doc = dict(corpus.docs([k]))[k]
        ctx.equal(corpus.index(doc), {"text": corpus.tokeniser(by_key[k])}, f"the features of a document {where}")
    ctx.ev("texts_compared", len(want))


def shouting(text):
    return text.upper().split()


def trip(items, at, error):
    for j, t in enumerate(items):
        if j == at:
            raise error("injected")
        yield t
    if at >= len(items):
        raise error("injected")


def case(ctx, rng, i):
    with faults.installed() as plan:
        run(ctx, rng, i, plan)


def run(ctx, rng, i, plan):
    d = ctx.tmp()
    path = os.path.join(d, rng.choice(["c.db", "sp ace.db", "é#?.db"]))
    tokeniser = rng.choice([utilities.tokens, utilities.social_media_tokens, shouting])
    corpus = PlainTextSqliteCorpus(path, tokeniser=tokeniser)
    ctx.defer(corpus.close)
    want = None
    partial = False
    if i % 130 == 77:
        # more documents than fit anywhere at once
        want = [f"{j} text" for j in range(rng.randint(66000, 70000))]
        corpus.replace_docs(iter(want))
        ctx.equal(stored(path), want, "many documents stored, for another reader")
        read_back(ctx, rng, corpus, want, "of many")
    for _ in range(rng.randint(2, 4)):
        new = texts(rng, rng.choice([0, 1, 2, rng.randint(1, 30)]) if gen.SIZE == 1 else rng.randint(20, 120) * gen.SIZE)
        ctx.note(f"replace by {len(new)} documents")
        corpus.replace_docs(new if rng.random() < 0.5 else (t for t in new))
        want = new
        ctx.ev("replacements")
        ctx.equal(stored(path), want, "the documents stored, for another reader")
        read_back(ctx, rng, corpus, want, "")
        lib.failed_reads(ctx, rng, corpus, list(corpus.keys())[:3])
        if rng.random() < 0.6:
            twin = pickle.loads(pickle.dumps(corpus))
            try:
                read_back(ctx, rng, twin, want, "through a copy")
                ctx.ev("copies_read")
            finally:
                twin.close()

    def after_failure(what):
        """Nothing happened, and the same object works (unless committing failed)."""
        ctx.equal(stored(path), want, f"the documents changed although replacing them failed ({what})")
        ctx.equal([x["text"] for _, x in corpus.docs()], want, f"the corpus shows other documents after a failure ({what})")
        ctx.equal(corpus.db.in_transaction, False, f"a failure left a transaction open ({what})")

    # the source of the texts fails
    for _ in range(4):
        new = texts(rng, rng.randint(0, 8) if gen.SIZE == 1 else rng.randint(20, 120) * gen.SIZE)
        at = rng.randint(0, len(new))
        error = faults.fault_errors(rng)
        try:
            corpus.replace_docs(trip(new, at, error))
        except error:
            pass
        else:
            ctx.fail("an error of the source of texts was hidden", error=error)
        ctx.ev("failed_sources")
        partial |= at > 0
        after_failure(f"source failed with {error.__name__} at {at}")
    # a document that can't be stored
    try:
        corpus.replace_docs(["fine", {"not": "a text"}])
    except sqlite3.Error:
        ctx.ev("failed_sources")
        after_failure("unsupported document")

    # every statement fails
    new = texts(rng, 5)
    plan.watch(corpus.db)
    corpus.replace_docs(new)
    want, total = new, plan.count
    for at in range(total):
        for when in ("before", "after"):
            error = faults.fault_errors(rng, when)
            new = texts(rng, rng.randint(1, 5)) + [f"attempt {at} {when}"]
            plan.arm(corpus.db, at, when, error)
            try:
                corpus.replace_docs(new)
                raised = False
            except error:
                raised = True
            fired = plan.fired
            plan.reset()
            if fired is None:
                want = new
                continue
            ctx.check(raised, "an error of the database was hidden", statement=fired, error=error)
            ctx.ev("failed_statements")
            now = stored(path)
            ctx.check(now in (want, new), "part of a failed replacement was stored", statement=fired, error=error, now=now, before=want, asked=new)
            if now == new:  # the very last step was done before the error
                want = new
            after_failure(f"{error.__name__} {when} statement {fired}")

    # a statement stops half way
    for at in range(0, 12, 2):
        new = texts(rng, 6) + [f"interrupted {at}"]
        stop = faults.Interruption(corpus.db, at, every=7)
        try:
            corpus.replace_docs(new)
        except sqlite3.Error:
            pass
        stop.off()
        if stop.fired:
            ctx.ev("interrupted_statements")
            now = stored(path)
            ctx.check(now in (want, new), "part of an interrupted replacement was stored", now=now, before=want, asked=new)
            want = now
            after_failure("interrupted statement")
        else:
            want = new

    # the process dies
    corpus.replace_docs(want)
    corpus.db.execute("pragma wal_checkpoint(truncate)")
    corpus.close()
    crash_path = os.path.join(d, "crash.db")
    new = texts(rng, 4) + ["after the crash"]

    def dying(at, steps):
        c = PlainTextSqliteCorpus(crash_path)
        faults.CrashPoint(at, steps).attach(c.db)
        c.replace_docs(new)

    for steps in (None, 11):
        for at in range(60):
            faults.copy_db(path, crash_path)
            code = faults.in_child(lambda: dying(at, steps))
            now = stored(crash_path)
            if code == 0:
                ctx.equal(now, new, "a finished replacement is not stored")
                break
            ctx.equal(code, faults.CRASHED, "the child failed")
            ctx.check(now in (want, new), "part of a replacement survived a crash", now=now, before=want, asked=new, at=at)
            ctx.ev("crashes")
            ctx.state("crash_outcomes", (at, steps, now == new))
            again = PlainTextSqliteCorpus(crash_path)
            again.replace_docs(["usable"])
            ctx.equal([x["text"] for _, x in again.docs()], ["usable"], "unusable after a crash")
            again.close()
            partial = True
    if partial:
        ctx.distinct((want, new))
    if i % 14 == 0:
        ctx.sample({"statements": total, "documents": want[:3]})
