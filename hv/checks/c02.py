"""C02: re-indexing keeps feature ids and replaces everything else."""

import json

from .. import gen, lib, ref

RULE = (
    "A case indexes 2 to 8 successive versions of a random corpus (documents added, removed, "
    "changed, reordered, everything removed, vocabulary returning) into one index, with random "
    "model edits in between, with and without positions; after each run everything is compared with "
    "a reference built from the current version and with the log of all feature ids ever seen. "
    "Non-trivial: at least one feature vanished, and the versions differ."
)
QUICK = {"cases": 160, "budget": 120}
THOROUGH = {"cases": 5000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "reindex_runs": 100, "vanished_features": 50, "returned_features": 10, "models_kept": 50}
ASSUMPTIONS = ["MemCorpus (hv/gen.py) is a correct implementation of the corpus protocol"]


def next_version(rng, items, shape, fresh):
    items = list(items)
    kind = rng.choice(["edit", "edit", "grow", "shrink", "empty", "same", "reorder", "replace", "return"])
    if kind == "empty":
        return [], kind
    if kind == "replace":
        return gen.corpus_items(rng, gen.ndocs(rng, 60), shape), kind
    if kind == "return":
        return list(fresh), kind
    if kind == "reorder":
        rng.shuffle(items)
        return items, kind
    if kind == "shrink":
        return [it for it in items if rng.random() < 0.5], kind
    if kind == "edit":
        return [(k, shape.doc(rng) if rng.random() < 0.4 else d) for k, d in items], kind
    if kind == "grow":
        taken = {k for k, _ in items}
        new = [(k, shape.doc(rng)) for k in gen.key_list(rng, rng.randint(1, 20), "seq")]
        if items and isinstance(items[0][0], str):
            new = [(f"new-{k}", d) for k, d in new]
        return items + [(k, d) for k, d in new if k not in taken], kind
    return items, kind


def case(ctx, rng, i):
    positional = rng.random() < 0.7
    shape = gen.Shape(rng, positional=positional, vocab=(3, 40))
    items = first = gen.corpus_items(rng, gen.ndocs(rng, 60), shape)
    pool = lib.make_pool(ctx, rng, chaos=0.15)
    idx = lib.new_index(ctx, gen.MemCorpus(items), pool)
    ever = {}
    present = set()
    path = []
    m = None
    for version in range(rng.randint(2, 8 if ctx.thorough else 5)):
        if version:
            items, kind = next_version(rng, items, shape, first)
            path.append(kind)
            ctx.note(f"version {version}: {kind}, {len(items)} documents")
        if rng.random() < 0.5:
            idx.corpus = gen.MemCorpus(items)
        else:
            idx.close()
            idx = lib.Index(idx.db_path, corpus=gen.MemCorpus(items), pool=pool)
            ctx.defer(idx.close)
        positions = positional and rng.random() < 0.8
        idx.index(index_positions=positions, **lib.index_options(rng, len(items)))
        ctx.ev("reindex_runs" if version else "first_runs")

        model = ref.RefIndex(items)
        lib.check_doc_keys(ctx, idx, model)
        lib.check_boolean(ctx, idx, model, rng, probe=30)
        lib.check_positions(ctx, idx, model, positions)
        lib.check_field_summary(ctx, idx, model, positions)

        now = {fid: (f, ref.vkey(v)) for fid, (f, v) in lib.feature_ids(idx).items()}
        for fid, key in ever.items():
            ctx.equal(now.get(fid), key, "a feature did not keep its id", feature_id=fid)
        ever.update(now)
        here = {(f, ref.vkey(v)) for f, v in model.features}
        ctx.ev("vanished_features", len(present - here))
        if version > 1:
            ctx.ev("returned_features", len((here - present) & set(ever.values())))
        vanished = bool(present - here) or bool(version and set(ever.values()) - here)
        present = here

        # the model kept its members and describes the new documents
        if m is not None:
            lib.check_model(ctx, idx, m, "after re-indexing")
            ctx.ev("models_kept")
        lib.check_summaries(ctx, idx, "after re-indexing")
        if m is None and here and rng.random() < 0.8:
            idx.initialise_clusters(rng.choice([1, 3, 7]))
            m = lib.ref_model(idx)
        if m is not None:
            for _ in range(rng.randint(0, 3)):
                lib.random_edit(ctx, rng, idx, m)
                lib.check_summaries(ctx, idx, "after an edit")
            lib.check_model(ctx, idx, m)
        ctx.state("versions", (items, positions))
        if vanished and version:
            ctx.distinct((items, path))
    if i % 40 == 0:
        ctx.sample({"history": path, "ids_ever": len(ever), "last_version": items[:2]})
