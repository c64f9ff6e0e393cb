"""C11: seeded runs are reproducible whatever the scheduling."""

import json
import os
import shutil
import subprocess
import sys

from pyroaring import BitMap

from .. import gen, lib, pools, ref, refine
from ..core import VERIF

RULE = (
    "A case makes one index and a random history of seeded calls (initialise, refine with random "
    "options, edits, samples of documents, structured samples, passage samples), runs it on copies of "
    "the file in this process with inline pools, chaotic pools of different sizes and sometimes real "
    "processes, and in fresh processes with different hash seeds, and compares complete models and all "
    "samples. Non-trivial: at least two different completion orders or processes and a history in "
    "which another seed gives another outcome."
)
QUICK = {"cases": 72, "budget": 150}
THOROUGH = {"cases": 2500, "budget": 600}
LARGE = (24, 25)
REQUIRED = {"large_cases": 1,
    "histories": 25,
    "runs_compared": 100,
    "chaotic_runs": 50,
    "runs_with_other_hash_seed": 25,
    "runs_on_processes": 3,
    "seed_matters": 15,
}
ASSUMPTIONS = ["the same Python version and machine"]


def make_history(rng, n_features, n_docs, string_values):
    ops = []
    for _ in range(rng.randint(3, 8)):
        kind = rng.choice(["refine"] * 4 + ["init", "sample", "structured", "windows", "passages", "create", "merge", "pin", "delete"])
        if kind == "refine":
            kw = lib.refine_options(rng, 8)
            if rng.random() < 0.3:
                kw["probe_query"] = rng.sample(range(n_docs), rng.randint(1, n_docs))
            if rng.random() < 0.3:
                kw["select"] = [rng.random() for _ in range(rng.randint(1, 4))]
            ops.append(["refine", kw])
        elif kind == "init":
            ops.append(["init", {"n_clusters": rng.choice([2, 5, 9]), "min_docs": rng.choice([1, 2])}])
        elif kind in ("sample", "windows", "passages"):
            ops.append([kind, {"k": rng.randint(1, max(1, n_docs)), "feature": rng.randint(1, max(1, n_features))}])
        elif kind == "structured":
            ops.append([kind, {"docs_per_cluster": rng.choice([1, 2, 3, 5])}])
        else:
            ops.append([kind, {"features": [rng.randint(1, max(1, n_features)) for _ in range(rng.randint(1, 4))], "at": [rng.random(), rng.random()]}])
    return ops


def run_history(path, items, pool, seed, ops, corpus=True):
    """Everything the history produced, as plain data."""
    idx = lib.Index(path, corpus=gen.MemCorpus(items) if corpus else None, pool=pool, random_seed=seed)
    out = []
    try:
        n = idx.db.execute("select count(*) from doc_key").fetchone()[0]
        for op, kw in [["init", {"n_clusters": 6}]] + ops:
            live = idx.cluster_ids
            if op == "refine":
                kw = dict(kw)
                select = kw.pop("select", None)
                if select and live:
                    kw["cluster_ids"] = sorted({live[int(x * len(live))] for x in select})
                if "probe_query" in kw:
                    kw["probe_query"] = BitMap(kw["probe_query"])
                idx.refine_clusters(**kw)
            elif op == "init":
                idx.initialise_clusters(**kw)
            elif op == "sample":
                out.append(list(idx.sample_bitmap(BitMap(range(n)), kw["k"])))
            elif op == "structured":
                a, b = idx.structured_doc_sample(**kw)
                out.append([sorted((c, list(d)) for c, d in a.items()), sorted((c, list(d)) for c, d in b.items())])
            elif op == "windows":
                got = idx.extract_matching_feature_windows(BitMap(range(n)), [kw["feature"]], 1, random_sample_size=kw["k"])
                out.append(sorted((d[1] for d in got)))
            elif op == "passages":
                found = idx.score_passages_dnf([[kw["feature"]]], 3)
                found = {d: found[d] for d in sorted(found)}
                out.append(sorted(r[0] for r in idx.render_passages_table(found, random_sample_size=max(1, kw["k"] // 2), batch_size=3)))
            elif op == "create":
                idx.create_cluster_from_features(kw["features"])
            elif op == "pin":
                idx.pin_features(kw["features"])
            elif op == "delete":
                idx.delete_features(kw["features"])
            elif op == "merge" and live:
                idx.merge_clusters([live[int(x * len(live))] for x in kw["at"]])
            out.append(sorted(map(list, idx.db.execute("select feature_id, cluster_id, pinned from feature_cluster"))))
    finally:
        idx.close()
    return json.loads(json.dumps(out))


CHILD = """
import json, sys
sys.path[:0] = [{repo!r}, {verif!r}]
import warnings, logging
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
from hv.checks import c11
from hv import pools
job = json.load(open(sys.argv[1]))
items = [(k, {{"text": d["text"], "tag": set(d["tag"])}}) for k, d in job["items"]]
out = c11.run_history(job["path"], items, pools.InlinePool(job["workers"]), job["seed"], job["ops"])
json.dump(out, open(job["out"], "w"))
"""


def in_child(ctx, rng, base, items, seed, ops):
    d = ctx.tmp()
    path = os.path.join(d, "i.db")
    shutil.copy(base, path)
    job = {
        "path": path, "seed": seed, "ops": ops, "workers": rng.choice([1, 3, 4]), "out": os.path.join(d, "out.json"),
        "items": [(k, {"text": v["text"], "tag": sorted(v["tag"])}) for k, v in items],
    }  # fmt: skip
    with open(os.path.join(d, "job.json"), "w") as f:
        json.dump(job, f)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 2**32 - 1)))
    from ..core import REPO

    r = subprocess.run(
        [sys.executable, "-c", CHILD.format(repo=REPO, verif=VERIF), os.path.join(d, "job.json")],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=120,
    )  # fmt: skip
    if not os.path.exists(job["out"]):
        ctx.fail("a history that works in one process fails in another", output=r.stdout.decode(errors="replace")[-3000:])
    with open(job["out"]) as f:
        return json.load(f)


def case(ctx, rng, i):
    n = gen.sized(rng.randint(6, 45))
    raw, style = refine.styled_items(rng, n, gen.sized_vocabulary(rng.randint(4, 45)))
    items = [(k, {"text": d["text"], "tag": d.get("tag", set())}) for k, d in raw]
    base_dir = ctx.tmp()
    base = os.path.join(base_dir, "base.db")
    idx = lib.Index(base, corpus=gen.MemCorpus(items), pool=pools.InlinePool(2))
    idx.index(doc_batch_size=max(1, n // 2), index_positions=True)
    nf = idx.db.execute("select count(*) from inverted_index").fetchone()[0]
    idx.db.execute("pragma wal_checkpoint(truncate)")
    idx.close()
    ops = make_history(rng, nf, n, True)
    seed = rng.choice([0, 1, rng.randrange(2**40), f"text {rng.random()}"])
    ctx.note(f"{style}: {n} documents {nf} features seed {seed!r} {ops}")

    def run(pool, s=seed):
        path = os.path.join(ctx.tmp(), "copy.db")
        shutil.copy(base, path)
        try:
            return run_history(path, items, pool, s, ops)
        finally:
            if not isinstance(pool, pools.cf.ProcessPoolExecutor):
                pool.shutdown()

    want = run(pools.InlinePool(3))
    ctx.ev("histories")
    orders = set()
    for k in range(3):
        pool = pools.ChaosPool(rng.choice([1, 2, 4, 7]), seed=rng.random())
        got = run(pool)
        orders.add(tuple(pool.completion))
        ctx.state("completion_orders", tuple(pool.completion))
        ctx.ev("runs_compared")
        ctx.ev("chaotic_runs")
        same(ctx, want, got, ops, f"a pool of {pool._max_workers} workers finishing in another order")
    got = in_child(ctx, rng, base, items, seed, ops)
    ctx.ev("runs_compared")
    ctx.ev("runs_with_other_hash_seed")
    same(ctx, want, got, ops, "a process with another hash seed")
    if i % (12 if not ctx.thorough else 60) < 1:
        got = run(lib.real_pool(2))
        ctx.ev("runs_compared")
        ctx.ev("runs_on_processes")
        same(ctx, want, got, ops, "a pool of processes")
    if run(pools.InlinePool(3), "another seed") != want:
        ctx.ev("seed_matters")
        if len(orders) > 1:
            ctx.distinct((items, ops))
    if i % 24 == 0:
        ctx.sample({"style": style, "features": nf, "history": ops, "orders": len(orders)})


def same(ctx, want, got, ops, where):
    if want != got:
        k = next((k for k, (a, b) in enumerate(zip(want, got)) if a != b), None)
        ctx.fail(f"the same seeded calls gave another outcome on {where}", history=ops, first_difference=k,
                 first=want[k] if k is not None else None, other=got[k] if k is not None else None)  # fmt: skip
