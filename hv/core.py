"""
Runner for the runtime monitors.

`main` (the parent) starts a number of shard processes, each of which runs its
share of the property's cases (`case(ctx, rng, i)` of hv/checks/<id>.py) against
the real hyperreal code from /repo, and merges what their monitors observed.

Verdicts are three-valued:
  exit 0  every monitor stayed silent and the required events were observed
  exit 1  a monitor saw a violation (one VIOLATION line per property, with a replay)
  exit 2  inconclusive: harness error, watchdog, or the deciding events were
          never reached
"""

import argparse
import collections
import concurrent.futures
import ctypes
import hashlib
import importlib
import json
import logging
import os
import random
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
EVIDENCE = os.environ.get("HV_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("HV_REPLAYS", os.path.join(VERIF, "replays"))
KNOWN = os.path.join(VERIF, "known_findings.txt")

STALL_S = 200  # a single case making no progress for this long is retried alone


class Violation(Exception):
    def __init__(self, message, witness=None):
        super().__init__(message)
        self.message = message
        self.witness = witness or {}


class Injected(Exception):
    """An error injected by the harness: never evidence of a defect by itself."""


def digest(obj):
    return hashlib.sha1(repr(obj).encode("utf-8", "backslashreplace")).hexdigest()[:16]


def short(obj, limit=1500):
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= limit else text[:limit] + f"...(+{len(text) - limit} chars)"


def load_known(pid):
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    parts = line[len("known: ") :].split(None, 2)
                    if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                        known[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return known


class Ctx:
    """What a case may use: scratch space, counters, the verdict."""

    def __init__(self, pid, tier, seed, scratch, known):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.scratch = scratch
        self.known_keys = known
        self.events = collections.Counter()
        self.states = collections.defaultdict(set)
        self.nontrivial = set()
        self._fingerprint = []
        self.samples = []
        self.known_seen = {}
        self.index = None
        self._cleanup = []
        self._tmp = None
        self._ntmp = 0
        self.note_log = []

    # -- observation -----------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, kind, obj):
        self.states[kind].add(digest(obj))

    def distinct(self, obj):
        """Mark this case as non-trivial by the check's RULE. One count per case."""
        self._fingerprint.append(digest(obj))

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=lambda o: short(o, 400))))

    def note(self, msg):
        """Trace of what this case did, kept only for the witness."""
        self.note_log.append(short(msg, 400))
        del self.note_log[:-60]

    # -- verdict -----------------------------------------------------------
    def fail(self, message, **witness):
        raise Violation(message, {k: short(v) for k, v in witness.items()})

    def check(self, cond, message, **witness):
        if not cond:
            self.fail(message, **witness)

    def equal(self, got, want, message, **witness):
        if got != want:
            self.fail(message, got=got, want=want, **witness)

    def known_finding(self, key, message, **witness):
        """A genuine recorded defect: suppressed only if its key is listed."""
        if key in self.known_keys:
            self.known_seen[key] = self.known_keys[key]
            self.ev(f"known:{key}")
        else:
            self.fail(message, finding_key=key, **witness)

    # -- resources ---------------------------------------------------------
    def tmp(self, name=""):
        """A fresh scratch directory removed after the case."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case-", dir=self.scratch)
        self._ntmp += 1
        path = os.path.join(self._tmp, f"d{self._ntmp}{name}")
        os.mkdir(path)
        return path

    def defer(self, fn):
        self._cleanup.append(fn)

    def end_case(self):
        for fn in reversed(self._cleanup):
            try:
                fn()
            except Exception:
                pass
        self._cleanup = []
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None
        self._ntmp = 0
        self.note_log = []
        if self._fingerprint:
            self.nontrivial.add(digest(self._fingerprint))
        self._fingerprint = []


def environmental(e):
    """
    Errors of the machine say nothing. A monitor that otherwise trips over the
    shape of what hyperreal gave it (a page without the expected element, a row
    with too few columns, a file that isn't a CSV) has seen a violation.
    """
    if isinstance(e, sqlite3.OperationalError):
        return not str(e).startswith("no such")
    return isinstance(e, (OSError, MemoryError, ImportError, subprocess.SubprocessError, concurrent.futures.BrokenExecutor))


def from_repo(exc):
    """True if the exception was raised while running /repo code."""
    repo = os.path.join(os.path.realpath(REPO), "hyperreal") + os.sep
    seen = set()
    stack = [exc]
    while stack:
        e = stack.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for frame in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(frame.filename).startswith(repo):
                return True
        # Errors that came back from a worker process carry their trace as text.
        if repo in str(getattr(e, "tb", "")):
            return True
        stack.append(e.__cause__)
    return False


def case_rng(pid, seed, i):
    return random.Random(f"{pid}:{seed}:{i}")


def scratch_root():
    for base in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return base
    return tempfile.gettempdir()


def load_check(pid):
    return importlib.import_module(f"hv.checks.{pid.lower()}")


def run_one(mod, ctx, i):
    """Run case i. Returns None or a violation/error record."""
    ctx.index = i
    # Now and then, a case far larger than the others.
    from . import gen

    period, size = getattr(mod, "LARGE", (0, 1))
    gen.SIZE = size if period and i % period == period // 2 else 1
    ctx.thorough = ctx.tier == "thorough" and gen.SIZE == 1
    if gen.SIZE > 1:
        ctx.ev("large_cases")
        ctx.note("large")
    rng = case_rng(ctx.pid, ctx.seed, i)
    try:
        mod.case(ctx, rng, i)
        return None
    except Violation as v:
        return {
            "kind": "violation",
            "case": i,
            "message": v.message,
            "witness": v.witness,
            "trace": list(ctx.note_log),
        }
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        text = traceback.format_exc()
        if isinstance(e, Injected):
            kind, message = "error", "harness error: an injected failure escaped"
        elif from_repo(e):
            kind, message = "violation", f"unexpected {type(e).__name__} from hyperreal: {e}"
        elif not environmental(e):
            kind, message = "violation", f"what was observed can't be interpreted: {type(e).__name__}: {e}"
        else:
            kind, message = "error", f"harness error {type(e).__name__}: {e}"
        return {
            "kind": kind,
            "case": i,
            "message": message,
            "witness": {"traceback": short(text, 6000)},
            "trace": list(ctx.note_log),
        }
    finally:
        ctx.end_case()


def shard_main(args):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import multiprocessing as mp

    mp.set_forkserver_preload(["multiprocessing.managers"])
    mp.set_start_method("forkserver")

    from . import patience

    patience.install()

    import hyperreal

    where = os.path.realpath(hyperreal.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print(f"hyperreal was imported from {where}", file=sys.stderr)
        return 2

    mod = load_check(args.pid)
    ctx = Ctx(args.pid, args.tier, args.seed, args.scratch, load_known(args.pid))
    beat = args.out + ".beat"
    records = []
    done = 0
    deadline = time.time() + args.budget
    cases = [args.only] if args.only is not None else range(args.shard, args.cases, args.shards)
    if hasattr(mod, "shard_setup"):
        mod.shard_setup(ctx)
    truncated = False
    for i in cases:
        if time.time() > deadline:
            truncated = True
            break
        with open(beat, "w") as f:
            f.write(f"{i} {time.time()}")
        rec = run_one(mod, ctx, i)
        done += 1
        if rec:
            records.append(rec)
            if rec["kind"] == "violation" or len(records) >= 3:
                break
    if hasattr(mod, "shard_teardown"):
        mod.shard_teardown(ctx)
    out = {
        "done": done,
        "truncated": truncated,
        "records": records,
        "events": dict(ctx.events),
        "states": {k: sorted(v) for k, v in ctx.states.items()},
        "nontrivial": sorted(ctx.nontrivial),
        "samples": ctx.samples,
        "known": ctx.known_seen,
    }
    with open(args.out + ".tmp", "w", encoding="utf-8") as f:
        json.dump(out, f)
    os.rename(args.out + ".tmp", args.out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def kill_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        proc.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def die_with_parent():
    """In a new shard: be killed if the runner is."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def start_shard(opts, shard, shards, scratch, cases, budget, only=None):
    out = os.path.join(scratch, f"out-{shard}-{only}.json")
    shard_scratch = os.path.join(scratch, f"s{shard}-{only}")
    os.mkdir(shard_scratch)
    cmd = [
        sys.executable,
        os.path.join(VERIF, "hv_main.py"),
        opts.pid,
        "--tier", opts.tier,
        "--seed", str(opts.seed),
        "--shard", str(shard),
        "--shards", str(shards),
        "--cases", str(cases),
        "--budget", str(budget),
        "--scratch", shard_scratch,
        "--out", out,
    ]  # fmt: skip
    if only is not None:
        cmd += ["--only", str(only)]
    env = dict(os.environ)
    env["TMPDIR"] = shard_scratch
    errfile = open(out + ".err", "w")
    proc = subprocess.Popen(
        cmd,
        preexec_fn=die_with_parent,
        stdout=errfile,
        stderr=errfile,
        stdin=subprocess.DEVNULL,
        start_new_session=True,
        env=env,
        cwd=shard_scratch,
    )
    return {"proc": proc, "out": out, "err": out + ".err", "shard": shard, "started": time.time()}


def collect(sh):
    if os.path.exists(sh["out"]):
        with open(sh["out"], encoding="utf-8") as f:
            return json.load(f)
    return None


def stalled(sh, limit):
    beat = sh["out"] + ".beat"
    try:
        with open(beat) as f:
            i, t = f.read().split()
        return int(i) if time.time() - float(t) > limit else None
    except (OSError, ValueError):
        return None


def write_replay(opts, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{opts.pid}-{opts.tier}-{opts.seed}-{rec['case']}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": opts.pid,
                "tier": opts.tier,
                "seed": opts.seed,
                "case": rec["case"],
                "message": rec["message"],
                "witness": rec["witness"],
                "trace": rec.get("trace", []),
                "rerun": f"./check {opts.pid} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument("pid")
    p.add_argument("tier_pos", nargs="?", choices=["quick", "thorough"])
    p.add_argument("--tier", default=None)
    p.add_argument("--seed", type=int, default=None)
    p.add_argument("--cases", type=int, default=None)
    p.add_argument("--shards", type=int, default=None)
    p.add_argument("--shard", type=int, default=None)
    p.add_argument("--budget", type=float, default=None)
    p.add_argument("--scratch")
    p.add_argument("--out")
    p.add_argument("--only", type=int, default=None)
    p.add_argument("--replay", default=None)
    opts = p.parse_args(argv)
    opts.pid = opts.pid.upper()
    if opts.replay:
        with open(opts.replay, encoding="utf-8") as f:
            r = json.load(f)
        opts.tier, opts.seed, opts.only = r["tier"], r["seed"], r["case"]
    opts.tier = opts.tier or opts.tier_pos or os.environ.get("VERIF_TIER") or "quick"
    if opts.seed is None:
        opts.seed = int(os.environ.get("VERIF_SEED", "1"))

    if opts.shard is not None:
        return shard_main(opts)

    t0 = time.time()
    # The parent reads only the declarations of the check module.
    mod = load_check(opts.pid)
    plan = dict(getattr(mod, "THOROUGH" if opts.tier == "thorough" else "QUICK"))
    cases = opts.cases or plan["cases"]
    shards = opts.shards or plan.get("shards") or min(8, os.cpu_count() or 1)
    shards = min(shards, cases)
    budget = plan.get("budget", 200 if opts.tier == "quick" else 600)
    stall = getattr(mod, "STALL_S", STALL_S)

    scratch = tempfile.mkdtemp(prefix=f"hv-{opts.pid}-", dir=scratch_root())
    running = []
    finished = []
    errors = []
    violations = []
    try:
        if opts.only is not None:
            running = [start_shard(opts, 0, 1, scratch, cases, budget, only=opts.only)]
        else:
            running = [start_shard(opts, k, shards, scratch, cases, budget) for k in range(shards)]
        stall_cases = []
        while running:
            time.sleep(0.05)
            still = []
            for sh in running:
                rc = sh["proc"].poll()
                if rc is None:
                    hung = stalled(sh, stall)
                    if hung is None:
                        still.append(sh)
                    else:
                        kill_group(sh["proc"])
                        stall_cases.append(hung)
                    continue
                kill_group(sh["proc"])  # leftovers of the shard's process group
                out = collect(sh)
                if out is None:
                    with open(sh["err"], errors="replace") as f:
                        errors.append(f"shard {sh['shard']} died (rc {rc}): {f.read()[-1500:]}")
                else:
                    finished.append(out)
                    for rec in out["records"]:
                        (violations if rec["kind"] == "violation" else errors).append(rec)
            running = still
            if violations:
                break
        for sh in running:
            kill_group(sh["proc"])
        # A case that made no progress is rerun alone, with nothing else running.
        for i in [] if violations else stall_cases[:1]:
            sh = start_shard(opts, 900, 1, scratch, cases, budget, only=i)
            t = time.time()
            while sh["proc"].poll() is None and time.time() - t < stall:
                time.sleep(0.1)
            if sh["proc"].poll() is None:
                kill_group(sh["proc"])
                violations.append(
                    {
                        "case": i,
                        "message": f"no progress: case did not finish within {stall}s, twice, "
                        "the second time with the machine to itself (normally well under a second)",
                        "witness": {},
                    }
                )
            else:
                kill_group(sh["proc"])
                out = collect(sh)
                seen = [r for r in out["records"] if r["kind"] == "violation"] if out else []
                violations.extend(seen)
                if not seen:
                    errors.append(f"case {i} stalled once and finished when rerun alone: inconclusive")
    finally:
        for sh in running:
            kill_group(sh["proc"])
        shutil.rmtree(scratch, ignore_errors=True)

    events = collections.Counter()
    states = collections.defaultdict(set)
    nontrivial = set()
    samples = []
    known = {}
    done = 0
    truncated = False
    for out in finished:
        done += out["done"]
        truncated |= out["truncated"]
        events.update(out["events"])
        for k, v in out["states"].items():
            states[k].update(v)
        nontrivial.update(out["nontrivial"])
        known.update(out["known"])
        samples.extend(out["samples"])
    samples = samples[:4]

    missing = []
    if opts.only is None and not violations:
        for name, least in getattr(mod, "REQUIRED", {}).items():
            if events[name] < least:
                missing.append(f"event {name!r} observed {events[name]} times, need {least}")
        if done == 0:
            missing.append("no case finished")

    wall = time.time() - t0
    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(nontrivial),
        "rule": mod.RULE,
        "samples": samples or ["(no sample recorded)"],
        "planned_cases": cases,
        "stopped_by_time_budget": truncated,
        "events_observed": dict(sorted(events.items())),
        "distinct_states_seen": {k: len(v) for k, v in sorted(states.items())},
        "known_findings_seen": sorted(known),
        "inconclusive": [short(e, 300) for e in errors] + missing,
    }
    if opts.only is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{opts.pid}.json"), "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": opts.pid,
                    "tier": opts.tier,
                    "seed": opts.seed,
                    "level": getattr(mod, "LEVEL", "exploration"),
                    "coverage": coverage,
                    "assumptions": getattr(mod, "ASSUMPTIONS", []),
                    "wall_s": round(wall, 2),
                    "violations": len(violations),
                },
                f,
                indent=1,
                ensure_ascii=True,
            )

    for key, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={opts.pid} {what}")
    print(
        f"{opts.pid} {opts.tier} seed={opts.seed}: {done}/{cases} cases, "
        f"{len(nontrivial)} distinct non-trivial, {sum(events.values())} events, {wall:.1f}s"
    )
    if violations:
        violations.sort(key=lambda r: r["case"])
        for n, rec in enumerate(violations[:3]):
            path = write_replay(opts, rec)
            if n == 0:
                print(f"VIOLATION property={opts.pid} replay={path}")
            print(f"  case {rec['case']}: {short(rec['message'], 600)}")
            for k, v in rec["witness"].items():
                print(f"    {k}: {short(v, 1800)}")
            for line in rec.get("trace", [])[-25:]:
                print(f"    - {line}")
        return 1
    if errors or missing:
        for e in errors[:3]:
            print("INCONCLUSIVE:", short(e, 3000) if isinstance(e, str) else json.dumps(e, indent=1)[:5000])
        for m in missing:
            print("INCONCLUSIVE:", m)
        return 2
    return 0
