"""C07: cluster summaries agree with their features and the index."""

from .. import gen, lib, pools
from ..core import Injected

RULE = (
    "A case applies a random history of 8 to 40 operations (initialise, refine, merge, create, delete, "
    "pin, re-index with changed documents, operations that fail by a bad argument or a failing "
    "worker) to one index; after each, and at each statement as seen by a second connection whenever "
    "something was committed, every cluster is recomputed from its features. Non-trivial: at least "
    "three different kinds of operation and a model of at least two clusters."
)
QUICK = {"cases": 130, "budget": 120}
THOROUGH = {"cases": 4000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1,
    "cluster_summaries_compared": 5000,
    "committed_states_judged": 800,
    "statements_watched": 10000,
    "failed_operations": 60,
    "reindexed": 50,
}
ASSUMPTIONS = ["work is done by an in-process pool that pickles arguments and results"]


def failing(ctx, rng, idx, pool):
    """An operation that goes wrong. Whatever it raises, the summaries have to hold."""
    top = max(idx.cluster_ids, default=0)
    feats = sorted(lib.feature_ids(idx))
    kind = rng.choice(["unknown-feature", "iterations", "pool", "pool", "pool", "empty-merge"])
    ctx.note(f"failing: {kind}")
    if kind == "pool":
        pool.arm(rng.randint(0, 6), rng.choice(["task", "after", "broken", "submit"]))
    try:
        if kind == "unknown-feature":
            idx.create_cluster_from_features(rng.sample(feats, min(2, len(feats))) + [max(feats, default=0) + 99])
        elif kind == "iterations":
            idx.refine_clusters(iterations=0)
        elif kind == "empty-merge":
            idx.merge_clusters([])
        else:
            what = rng.choice(["create", "merge", "refine", "init", "index", "delete"])
            ctx.note(f"  {what} with a failing pool")
            if what == "create":
                idx.create_cluster_from_features(rng.sample(feats, min(3, len(feats))))
            elif what == "merge" and top:
                idx.merge_clusters(idx.cluster_ids[:3])
            elif what == "refine":
                idx.refine_clusters(iterations=2, target_clusters=rng.choice([None, 1, 6]))
            elif what == "init":
                idx.initialise_clusters(4)
            elif what == "delete":
                idx.delete_features(rng.sample(feats, min(3, len(feats))))
            elif what == "index":
                idx.index(doc_batch_size=3)
    except (Exception, KeyboardInterrupt):
        ctx.ev("failed_operations")
    finally:
        pool.disarm()


def broad_case(ctx, rng):
    """More clusters, and more features in one, than are otherwise around."""
    idx, items = lib.broad_index(ctx, rng)
    feats = sorted(lib.feature_ids(idx))
    for what, edit in (
        ("initialising 700 clusters", lambda: idx.initialise_clusters(700)),
        ("merging all but 20", lambda: idx.merge_clusters(idx.cluster_ids[20:])),
        ("deleting features of all", lambda: idx.delete_features(rng.sample(feats, 9000))),
        ("creating a large cluster", lambda: idx.create_cluster_from_features(rng.sample(feats, 8000))),
        ("re-indexing", lambda: (setattr(idx, "corpus", gen.MemCorpus(items[::2])), idx.index(doc_batch_size=9))),
        ("deleting clusters", lambda: idx.delete_clusters(idx.cluster_ids[::2])),
    ):
        ctx.note(what)
        edit()
        lib.check_summaries(ctx, idx, f"after {what}")
    ctx.distinct(items)


def case(ctx, rng, i):
    if i == 1:
        return broad_case(ctx, rng)
    pool = pools.FaultPool(rng.choice([1, 2, 3, 5]))
    shape = gen.Shape(rng, vocab=(3, 40))
    n = rng.choice([2, 5, rng.randint(5, 30)])
    idx, items, nfeat = lib.modelled_index(ctx, rng, docs=n, pool=pool, shape=shape)
    lib.check_summaries(ctx, idx, "after initialising")
    m = lib.ref_model(idx)
    watcher = lib.Watcher(ctx, idx.db_path)
    watcher.attach(idx.db)
    kinds = set()
    for step in range(rng.randint(8, 40 if ctx.thorough else 18)):
        r = rng.random()
        if r < 0.12:
            items = [(k, shape.doc(rng) if rng.random() < 0.4 else d) for k, d in items if rng.random() < 0.9]
            idx.corpus = gen.MemCorpus(items)
            ctx.note(f"index {len(items)} documents")
            idx.index(doc_batch_size=rng.choice([1, 4, 50]))
            ctx.ev("reindexed")
            kinds.add("index")
        elif r < 0.3:
            failing(ctx, rng, idx, pool)
            m = lib.ref_model(idx)
            kinds.add("failing")
        else:
            kinds.add(lib.random_edit(ctx, rng, idx, m))
        idx.db.set_trace_callback(None)
        watcher.verdict()
        lib.check_summaries(ctx, idx, f"after step {step}")
        watcher.attach(idx.db)
        ctx.state("models", sorted(lib.cluster_rows(idx).items(), key=lambda x: x[0]) and sorted(lib.model_rows(idx).items()))
    lib.integrity(ctx, idx.db_path)
    if len(kinds) > 2 and nfeat > 2:
        ctx.distinct((items, sorted(map(str, kinds)), sorted(lib.model_rows(idx).items())))
    if i % 40 == 0:
        ctx.sample({"features": nfeat, "kinds": sorted(map(str, kinds)), "commits_seen": watcher.commits})
