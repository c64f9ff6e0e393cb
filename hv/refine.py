"""Models to refine, and what is known before and after."""

import collections

from pyroaring import BitMap

from . import gen, lib, pools


def styled_items(rng, n, vocab):
    """Documents whose features overlap in ways that matter to the objective."""
    style = rng.choice(["random", "random", "topics", "disjoint", "duplicates", "nested", "single"])
    words = [f"w{i:03d}" for i in range(vocab)]
    items = []
    for k in range(n):
        if style == "random":
            body = [gen.zipf(rng, words) for _ in range(rng.randint(0, 12))]
        elif style == "topics":
            t = rng.randrange(4)
            body = [words[(t + 4 * rng.randrange(vocab)) % vocab] for _ in range(rng.randint(1, 8))]
        elif style == "disjoint":
            body = [words[k % vocab]]
        elif style == "duplicates":
            w = rng.randrange(vocab)
            body = [words[w], words[w] + "b", words[w] + "c"]
        elif style == "nested":
            body = words[: rng.randint(0, min(vocab, 15))]
        else:
            body = [rng.choice(words)]
        doc = {"text": body}
        if rng.random() < 0.7:
            doc["tag"] = {rng.choice("pqrs")}
        items.append((k, doc))
    return items, style


def model(ctx, rng, *, docs=(3, 60), vocab=(2, 60), pins=True, pool=None, clusters=None, vanish=True):
    """A real index with a shaped, perhaps partly pinned, model."""
    n = gen.sized(rng.randint(*docs))
    items, style = styled_items(rng, n, gen.sized_vocabulary(rng.randint(*vocab)))
    pool = pool or lib.make_pool(ctx, rng, chaos=0.08)
    idx = lib.new_index(ctx, gen.MemCorpus(items), pool, seed=rng.randrange(10**9))
    idx.index(doc_batch_size=max(1, n // rng.choice([1, 2])))
    k = clusters or rng.choice(gen.cluster_counts([1, 2, 3, 4, 6, 10, 20]))
    idx.initialise_clusters(k)
    ctx.note(f"{style}: {n} documents, {idx.db.execute('select count(*) from inverted_index').fetchone()[0]} features, {k} clusters")
    if vanish and rng.random() < 0.15:  # features of no documents in the model
        idx.corpus = gen.MemCorpus([it for it in items if rng.random() < 0.6])
        idx.index()
        ctx.note("some documents removed")
    for _ in range(rng.choice([0, 0, 1, 3])):
        feats = [r[0] for r in idx.db.execute("select feature_id from feature_cluster")]
        live = idx.cluster_ids
        op = rng.choice(["create", "merge", "delf", "delc"])
        if op == "create":
            idx.create_cluster_from_features(rng.sample(feats, min(len(feats), rng.randint(1, 4))))
        elif op == "merge" and len(live) > 1:
            idx.merge_clusters(rng.sample(live, 2))
        elif op == "delf" and len(feats) > 4:
            idx.delete_features(rng.sample(feats, 2))
        elif op == "delc" and len(live) > 2:
            idx.delete_clusters([rng.choice(live)])
    if pins:
        feats = [r[0] for r in idx.db.execute("select feature_id from feature_cluster")]
        live = idx.cluster_ids
        r = rng.random()
        if r < (0.35 if gen.SIZE == 1 else 0.8):
            low, high = (0, max(1, len(feats) // rng.choice([1, 3, 6]))) if gen.SIZE == 1 else (len(feats) // 3, len(feats))
            idx.pin_features(rng.sample(feats, rng.randint(low, high)))
        if 0.25 < r < 0.55 and live:
            idx.pin_clusters(rng.sample(live, rng.randint(0, len(live) if rng.random() < 0.3 else len(live) // 2)))
    return idx, items, style


class Before:
    """The state a refinement starts from."""

    def __init__(self, idx):
        rows = lib.model_rows(idx)
        self.member = {f: c for f, (c, _, _) in rows.items()}
        self.fpins = {f for f, r in rows.items() if r[2]}
        self.cpins = set(idx.pinned_cluster_ids)
        self.clusters = collections.defaultdict(set)
        for f, c in self.member.items():
            self.clusters[c].add(f)
        self.clusters = dict(self.clusters)
        self.top = max(self.clusters, default=0)


def probe(rng, idx):
    n = idx.db.execute("select count(*) from doc_key").fetchone()[0]
    r = rng.random()
    if r < 0.6 or not n:
        return None
    if r < 0.8:
        return BitMap(rng.sample(range(n), rng.randint(1, n)))
    fid = rng.choice([x[0] for x in idx.db.execute("select feature_id from inverted_index")])
    return idx[fid] or None


def options(rng, idx, before):
    live = sorted(before.clusters)
    kw = lib.refine_options(rng, len(live))
    if rng.random() < 0.45 and live:
        kw["cluster_ids"] = rng.sample(live, rng.randint(1, len(live)))
        if rng.random() < 0.1:
            kw["cluster_ids"].append(max(live) + 5)
        if "target_clusters" in kw:
            kw["target_clusters"] = rng.randint(1, len(kw["cluster_ids"]) + 4)
    p = probe(rng, idx)
    if p is not None:
        kw["probe_query"] = p
    return kw


def scope(before, kw):
    """(selected clusters, those of them that may change)."""
    selected = set(kw.get("cluster_ids") or before.clusters) & set(before.clusters)
    return selected, selected - before.cpins


def show(kw):
    return {k: (list(v)[:12] if k == "probe_query" else v) for k, v in kw.items()}
