"""C26: web requests edit exactly what they say, and only by POST."""

import collections
import os
import threading

from hyperreal import corpus as C
from hyperreal.index import Index

from .. import faults, gen, lib, pools, ref, web
from ..core import Injected
from . import c21

RULE = (
    "A case serves an index with a model and sends a random history of page views, form submissions with one, many, no and unknown selections, "
    "wrong methods and invalid values, comparing the file after each with a reference model (edits) or the library call on a copy with the same random state (refining, initialising), "
    "and following the redirect to a page; worker tasks of some edits fail; then several clients edit at once and a serial order is searched. "
    "Non-trivial: a history with edits that changed the model."
)
QUICK = {"cases": 160, "budget": 170}
THOROUGH = {"cases": 900, "budget": 640}
LARGE = (40, 25)
REQUIRED = {
    "large_cases": 1,
    "page_views": 800, "edits_compared": 1000, "not_by_post": 500, "redirects_followed": 800, "library_calls_compared": 150,
    "failed_requests": 100, "edits_without_selection": 50, "concurrent_histories": 40, "concurrent_edits": 200, "lone_clusters_left": 30,
}  # fmt: skip
ASSUMPTIONS = [
    "refining and initialising are compared with the library given the same random state",
    "concurrent requests may fail because of one another, without effect",
]


def shard_setup(ctx):
    web.start()


def shard_teardown(ctx):
    web.stop()


EDITS = {
    "cluster/delete": ("cluster_id",), "cluster/create": ("feature_id",), "cluster/merge": ("cluster_id",), "cluster/refine": ("cluster_id",), "cluster/pin": ("cluster_id",),
    "feature/remove_from_model": ("feature_id",), "feature/pin": ("feature_id",), "recreate_model": (), "refine_model": (),
}  # fmt: skip


class Setting:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.pool = pools.FaultPool(2)
        self.dir = ctx.tmp()
        self.path = os.path.join(self.dir, "i.db")
        strings = rng.random() < 0.5
        items = gen.corpus_items(rng, gen.sized(rng.choice([1, 3, rng.randint(3, 25), rng.randint(3, 25)])), vocab=(3, 25), strings=strings)
        if rng.random() < 0.3:
            # field names are taken as they are
            items = [(k, {f" {f}\t" if f != "text" else f: v for f, v in d.items()}) for k, d in items]
        self.corpus = gen.MemCorpus(items)
        idx = Index(self.path, corpus=self.corpus, pool=self.pool, random_seed=5)
        with faults.quiet_manager():
            idx.index(doc_batch_size=10, index_positions=rng.random() < 0.4)
        self.feats = [r[0] for r in idx.db.execute("select feature_id from inverted_index order by feature_id")]
        self.fields = [r[0] for r in idx.indexed_field_summary()]
        if self.feats and rng.random() < 0.93:
            idx.initialise_clusters(rng.choice(gen.cluster_counts([1, 2, 3, 5, 9])))
            if rng.random() < 0.5:
                idx.pin_features(rng.sample(self.feats, len(self.feats) // 5))
        idx.close()
        with_corpus = rng.random() < 0.5
        self.with_corpus = with_corpus
        web.SWITCH.use(self.path, self.pool, gen.MemCorpus if with_corpus else None, [items] if with_corpus else None)
        self.viewer = Index(self.path, pool=pools.InlinePool(2))
        ctx.defer(self.viewer.close)

    def select(self, what):
        """A selection: one, several, none, repeated, unknown."""
        rng = self.rng
        ids = self.viewer.cluster_ids if what == "cluster_id" else self.feats
        r = rng.random()
        if r < 0.06 or not ids:
            return []
        if r < 0.1:
            return [max(ids) + rng.randint(1, 50)]
        if r < 0.45:
            return [rng.choice(ids)]
        if r < (0.5 if gen.SIZE == 1 else 0.7):
            return list(ids)
        picked = rng.sample(ids, rng.randint(1, min(5 if gen.SIZE == 1 else len(ids), len(ids))))
        if rng.random() < 0.15:
            picked += picked[:1]
        if rng.random() < 0.1:
            picked.append(max(ids) + 9)
        return picked


def case(ctx, rng, i):
    with faults.installed(), faults.quiet_manager():
        st = Setting(ctx, rng)
        if not st.feats:
            return
        for _ in range(16 if gen.SIZE > 1 else 40 if ctx.thorough else 24):
            r = rng.random()
            if r < 0.3:
                view(ctx, rng, st)
            elif r < 0.45:
                not_by_post(ctx, rng, st)
            elif r < 0.53:
                invalid(ctx, rng, st)
            elif r < 0.61:
                failing(ctx, rng, st)
            else:
                edit(ctx, rng, st)
        if gen.SIZE > 1:
            edit(ctx, rng, st, "recreate_model", [("clusters", "300"), ("min_docs", "1"), ("iterations", "1")])
        lone(ctx, rng, st)
        concurrent(ctx, rng, st)
        ctx.equal(web.fds(st.path) <= 12, True, "requests leave the index open")
        if i % 8 == 0:
            ctx.sample({"features": len(st.feats), "clusters": len(st.viewer.cluster_ids), "opened": web.SWITCH.opened})


def view_path(rng, st):
    c = rng.choice(st.viewer.cluster_ids + [99999])
    f = rng.choice(st.feats + [99999])
    opts = {}
    if rng.random() < 0.4:
        opts["result_type"] = rng.choice(["document", "passage", "concordance", "nothing"])
    if rng.random() < 0.3:
        opts["exemplar_docs"] = rng.choice(["1", "3", "1000", "0", "x", "-1"])
    choice = rng.choice(["root", "list", "overview", "overview f", "overview c", "cluster", "cluster f", "cluster c", "details", "export", "search", "search c", "feature", "clusters", "nothing"])
    key = rng.choice(st.fields) if st.fields else "x"
    return {
        "root": ("/", {}),
        "list": ("/index/", {}),
        "overview": ("/index/0/", {**opts, "top_k_features": rng.choice(["1", "5", "40"])}),
        "overview f": ("/index/0/", {**opts, "feature_id": f}),
        "overview c": ("/index/0/", {**opts, "cluster_id": c}),
        "cluster": (f"/index/0/cluster/{c}/", opts),
        "cluster f": (f"/index/0/cluster/{c}/", {**opts, "feature_id": f}),
        "cluster c": (f"/index/0/cluster/{c}/", {**opts, "filter_cluster_id": rng.choice(st.viewer.cluster_ids + [c])}),
        "details": ("/index/0/details", {}),
        "export": ("/index/0/export_clusters", {}),
        "search": ("/index/0/search", {"field": key, "value": rng.choice(["alpha", "a", "<b>", ""])}),
        "search c": (f"/index/0/cluster/{c}/search", {"field": key, "value": "alpha"}),
        "feature": ("/index/0/feature/", {}),
        "clusters": ("/index/0/cluster/", {}),
        "nothing": (rng.choice(["/index/1/", "/index/-1/", "/index/x/", "/nothing", "/index/0/nothing", "/index/0/cluster/x/"]), {}),
    }[choice]


def view(ctx, rng, st):
    path, params = view_path(rng, st)
    ctx.note(("view", path, params))
    before = lib.dump(st.path)
    method = rng.choice(["GET"] * 6 + ["HEAD", "POST"])
    r = web.request(method, path, params)
    now = lib.dump(st.path)
    ctx.equal(now, before, f"viewing a page changed the index ({method} {path} {params})", diff=lib.diff_dumps(now, before))
    ctx.ev("page_views")
    ctx.state("views", (path.split("/")[3:4], tuple(sorted(params)), r.status))
    alive(ctx, rng, path)


def alive(ctx, rng, what):
    if rng.random() < 0.1:
        r = web.request("GET", "/index/0/details")
        ctx.equal(r.status, 200, f"the server does not answer anymore after {what}")


def fields_for(rng, st, action):
    """A filled in form, and the selected ids."""
    fields, ids = [], []
    for name in EDITS[action]:
        ids = st.select(name)
        fields += [(name, i) for i in ids]
    if action == "cluster/delete" and rng.random() < 0.6:
        fields.append(("return_cluster_id", rng.choice(st.viewer.cluster_ids or [1])))
    if action.startswith("feature/") and rng.random() < 0.6:
        fields.append(("cluster_id", rng.choice(st.viewer.cluster_ids or [1])))
    if action == "cluster/create" and rng.random() < 0.5:
        fields.append(("cluster_id", rng.choice(st.viewer.cluster_ids or [1])))
    if action == "cluster/merge" and rng.random() < 0.5:
        fields += [("return_to", "model"), ("target_clusters", "")]
    if action.endswith("/pin") and rng.random() < 0.8:
        fields.append(("pinned", rng.choice(["0", "1", "1"])))
    if action in ("cluster/pin", "cluster/refine") and rng.random() < 0.7:
        fields.append(("return_to", rng.choice(["cluster", "model"])))
    if action in ("cluster/refine", "refine_model"):
        if rng.random() < 0.7:
            fields.append(("target_clusters", rng.choice(["", "0", "1", "2", "3", "7"])))
        fields.append(("iterations", rng.choice(["1", "2", "10", "13", "24"])))
        if rng.random() < 0.5:
            fields.append(("minimum_cluster_features", rng.choice(["1", "2", "4"])))
    if action == "recreate_model":
        if st.fields and rng.random() < 0.5:
            fields += [("include_fields", f) for f in rng.sample(st.fields, rng.randint(1, len(st.fields)))]
        for name, values in (("min_docs", ["1", "2", "10"]), ("clusters", ["1", "3", "64", "300"]), ("iterations", ["1", "3"]), ("minimum_cluster_features", ["1", "3"])):
            if rng.random() < 0.7:
                fields.append((name, rng.choice(values)))
    rng.shuffle(fields)
    ids = [v for k, v in fields if EDITS[action] and k == EDITS[action][0]]
    return fields, ids


def reference(st, action, fields, ids, seed):
    """Apply the library call to a copy. The content of the copy afterwards, and where to go."""
    copy = os.path.join(st.dir, "copy.db")
    src, dst = faults.real_connect(st.path), faults.real_connect(copy)
    src.backup(dst)
    src.close()
    dst.close()
    one = dict(fields)
    many = collections.defaultdict(list)
    for k, v in fields:
        many[k].append(v)
    idx = Index(copy, pool=pools.InlinePool(2))
    idx.random.seed(seed)
    go, to = None, one.get("return_to", "cluster")
    try:
        if action == "cluster/delete":
            idx.delete_clusters(ids)
            go = one.get("return_cluster_id")
            to = "cluster"
        elif action == "cluster/create":
            go, to = idx.create_cluster_from_features(ids), "cluster"
        elif action == "cluster/merge":
            go, to = idx.merge_clusters(ids), "cluster"
        elif action == "cluster/pin":
            idx.pin_clusters(ids, int(one.get("pinned", 1)))
            go = ids[0] if ids else None
        elif action == "feature/remove_from_model":
            idx.delete_features(ids)
            go, to = one.get("cluster_id"), "cluster"
        elif action == "feature/pin":
            idx.pin_features(ids, int(one.get("pinned", 1)))
            go, to = one.get("cluster_id"), "cluster"
        elif action == "cluster/refine":
            idx.refine_clusters(
                cluster_ids=ids, target_clusters=int(one.get("target_clusters") or 0) or None,
                minimum_cluster_features=int(one.get("minimum_cluster_features", 1)), iterations=int(one.get("iterations", 10)),
            )  # fmt: skip
            go = ids[0] if ids else None
        elif action == "refine_model":
            idx.refine_clusters(
                target_clusters=int(one.get("target_clusters") or 0) or None,
                minimum_cluster_features=int(one.get("minimum_cluster_features", 1)), iterations=int(one.get("iterations", 10)),
            )  # fmt: skip
        else:
            idx.initialise_clusters(int(one.get("clusters", 64)), min_docs=int(one.get("min_docs", 10)), include_fields=many.get("include_fields"))
            idx.refine_clusters(iterations=int(one.get("iterations", 10)), minimum_cluster_features=int(one.get("minimum_cluster_features", 1)))
        failed = None
    except Exception as e:
        failed = e
    exists = go is not None and int(go) in idx.cluster_ids
    where = "/index/0" if not exists else f"/index/0/cluster/{go}" if to == "cluster" else f"/index/0/?cluster_id={go}"
    any_left = bool(idx.cluster_ids)
    idx.close()
    dump = lib.dump(copy)
    os.remove(copy)
    return dump, where, failed, any_left


def edit(ctx, rng, st, action=None, fields=None):
    action = action or rng.choice(list(EDITS) + ["cluster/create", "cluster/merge", "feature/remove_from_model", "cluster/delete"])
    if fields is None:
        fields, ids = fields_for(rng, st, action)
    else:
        ids = [v for k, v in fields if EDITS[action] and k == EDITS[action][0]]
    ctx.note(("POST", action, fields))
    seed = rng.randrange(10**9)
    web.SWITCH.seed = seed
    before = lib.dump(st.path)
    m = lib.ref_model(st.viewer)
    want, where, failed, any_left = reference(st, action, fields, ids, seed)
    r = web.request("POST", f"/index/0/{action}", fields=fields)
    now = lib.dump(st.path)
    what = f"(POST {action} {fields})"
    if failed is not None:
        ctx.check(r.status >= 400, f"a request that can't be done was answered with {r.status} {what}", failed=failed)
        ctx.equal(now, before, f"a request that failed changed the index {what}", diff=lib.diff_dumps(now, before))
        ctx.ev("failed_requests")
    else:
        ctx.equal(r.status, 303, f"an edit was not answered with a redirect {what}", body=r.raw[-600:])
        ctx.equal(now, want, f"an edit did not do what the library does {what}", diff=lib.diff_dumps(now, want))
        ctx.equal(r.location.rstrip("/").replace("/?", "?"), where.rstrip("/").replace("/?", "?"), f"an edit redirects elsewhere {what}")
        page, path = web.follow(r)
        ctx.equal(page.status, 200, f"an edit redirects to a page that fails {what}", path=path)
        ctx.ev("redirects_followed")
    # and for the plain edits an independent reference
    plain = {"cluster/delete": m.delete_clusters, "cluster/create": m.create, "cluster/merge": m.merge, "feature/remove_from_model": m.delete_features}
    if action in plain and failed is None and all(i in st.feats or EDITS[action] == ("cluster_id",) for i in ids):
        plain[action](ids)
        lib.check_model(ctx, st.viewer, m, what)
    elif action.endswith("/pin"):
        pinned = bool(int(dict(fields).get("pinned", 1)))
        (m.pin_features if action.startswith("feature") else m.pin_clusters)(ids, pinned)
        lib.check_model(ctx, st.viewer, m, what)
    else:
        ctx.ev("library_calls_compared")
    lib.check_summaries(ctx, st.viewer, what)
    ctx.ev("edits_compared")
    ctx.ev("edits_without_selection", EDITS[action] != () and not ids)
    ctx.state("edits", (action, sorted({k for k, _ in fields}), len(ids), r.status))
    if now != before:
        ctx.distinct((action, fields, now["feature_cluster"]))
    alive(ctx, rng, what)


def not_by_post(ctx, rng, st):
    """The same form, sent in any other way."""
    action = rng.choice(list(EDITS))
    fields, _ = fields_for(rng, st, action)
    method = rng.choice(["GET", "GET", "GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS"])
    before = lib.dump(st.path)
    for slash in ("", "/"):
        r = web.request(method, f"/index/0/{action}{slash}", params=fields)
        what = f"({method} {action}{slash} {fields})"
        ctx.note(what)
        ctx.check(r.status not in (200, 204), f"an edit by another method than POST was accepted {what}", status=r.status)
        now = lib.dump(st.path)
        ctx.equal(now, before, f"an edit was made by another method than POST {what}", diff=lib.diff_dumps(now, before))
        ctx.ev("not_by_post")
        ctx.state("not_by_post", (method, action, r.status))
    alive(ctx, rng, what)


def invalid(ctx, rng, st):
    """Values that make no sense: an error, and nothing but whole edits."""
    action = rng.choice(list(EDITS))
    fields, ids = fields_for(rng, st, action)
    name = rng.choice([*EDITS[action], "iterations", "pinned", "min_docs", "clusters", "target_clusters", "unexpected"])
    # as many iterations as asked for would be made
    fields.append((name, rng.choice(["x", "", "1.5", "-", "<b>"] + ["99999999999999999999999"] * (name != "iterations"))))
    ctx.note(("invalid", action, fields))
    before = lib.dump(st.path)
    r = web.request("POST", f"/index/0/{action}", fields=fields)
    now = lib.dump(st.path)
    if r.status >= 400:
        ctx.ev("failed_requests")
        if action != "recreate_model":  # that is two edits
            whole = [before]
            seed = web.SWITCH.seed
            if now != before:
                try:
                    good = [(k, v) for k, v in fields[:-1]]
                    whole.append(reference(st, action, good, ids, seed)[0])
                except ValueError:
                    pass
            ctx.check(now in whole, f"a failing request did part of an edit (POST {action} {fields})", status=r.status, diff=lib.diff_dumps(now, before))
    lib.check_summaries(ctx, st.viewer, f"(POST {action} {fields})")
    r = web.request("GET", "/index/0/details")
    ctx.equal(r.status, 200, "the server does not answer anymore", after=(action, fields))


def failing(ctx, rng, st):
    """A worker fails during an edit."""
    action = rng.choice(list(EDITS))
    fields, ids = fields_for(rng, st, action)
    ctx.note(("failing", action, fields))
    before = lib.dump(st.path)
    kind = rng.choice(["task", "after", "broken"])
    st.pool.arm(rng.choice([0, 0, 1, 2, 5]), kind)
    try:
        r = web.request("POST", f"/index/0/{action}", fields=fields)
    finally:
        fired = st.pool.fired
        st.pool.disarm()
    now = lib.dump(st.path)
    what = f"({kind} while POST {action} {fields})"
    if fired and r.status != 303:
        ctx.check(r.status >= 500, f"a failing edit was answered with {r.status} {what}")
        if action != "recreate_model":
            ctx.equal(now, before, f"a failing edit changed the index {what}", diff=lib.diff_dumps(now, before))
        ctx.ev("failed_requests")
    elif fired:
        ctx.fail(f"an edit with a failing worker was answered as done {what}", location=r.location)
    lib.check_summaries(ctx, st.viewer, what)
    r = web.request("GET", "/index/0/details")
    ctx.equal(r.status, 200, f"the server does not answer anymore {what}")


def lone(ctx, rng, st):
    """Down to a single cluster, and then without any, as the forms would do it."""
    ids = st.viewer.cluster_ids
    if len(ids) > 1:
        edit(ctx, rng, st, "cluster/merge", [("cluster_id", c) for c in ids])
    if len(ids) == 0:
        edit(ctx, rng, st, "recreate_model", [("clusters", "1"), ("min_docs", "1"), ("iterations", "1")])
    if not st.viewer.cluster_ids:
        return
    c = st.viewer.cluster_ids[0]
    feats = [f[0] for f in st.viewer.cluster_features(c)]
    if rng.random() < 0.5:
        edit(ctx, rng, st, "cluster/delete", [("cluster_id", c), ("return_cluster_id", c)])
    else:
        edit(ctx, rng, st, "feature/remove_from_model", [("cluster_id", c)] + [("feature_id", f) for f in feats])
    ctx.equal(st.viewer.cluster_ids, [], "the last cluster is still there")
    r, path = web.follow(web.request("GET", "/index/0/"))
    ctx.equal(r.status, 200, "an index without a model can't be viewed", path=path)
    ctx.ev("lone_clusters_left")
    edit(ctx, rng, st, "recreate_model", [("clusters", str(rng.choice([2, 4, 6]))), ("min_docs", "1"), ("iterations", "1")])


def concurrent(ctx, rng, st):
    """Several clients at once: as if their edits came one after the other."""
    clusters = st.viewer.cluster_ids
    if len(clusters) < 2:
        return
    m0 = lib.ref_model(st.viewer)
    lock, ticks, events, errors = threading.Lock(), [0], [], []

    def tick():
        with lock:
            ticks[0] += 1
            return ticks[0]

    def one():
        kind = rng.choice(["create", "merge", "delf", "delc", "pinf", "pinc"])
        feats = [rng.choice(st.feats) for _ in range(rng.randint(1, 4))]
        some = rng.sample(clusters, rng.randint(1, min(3, len(clusters))))
        pin = rng.random() < 0.6
        return {
            "create": (kind, (feats,), "cluster/create", [("feature_id", f) for f in feats]),
            "merge": (kind, (some,), "cluster/merge", [("cluster_id", c) for c in some]),
            "delf": (kind, (feats,), "feature/remove_from_model", [("feature_id", f) for f in feats]),
            "delc": (kind, (some[:1],), "cluster/delete", [("cluster_id", some[0])]),
            "pinf": (kind, (feats, pin), "feature/pin", [("feature_id", f) for f in feats] + [("pinned", int(pin))]),
            "pinc": (kind, (some, pin), "cluster/pin", [("cluster_id", c) for c in some] + [("pinned", int(pin))]),
        }[kind]

    def client(script):
        try:
            for kind, args, action, fields in script:
                if kind == "view":
                    web.request("GET", f"/index/0/{action}")
                    continue
                start = tick()
                r = web.request("POST", f"/index/0/{action}", fields=fields)
                events.append((start, tick(), kind, args, r.status, r.location))
        except BaseException as e:
            errors.append(e)

    scripts = []
    for _ in range(rng.choice([2, 3, 4])):
        s = [one() for _ in range(rng.randint(2, 3))]
        s.insert(rng.randint(0, len(s)), ("view", (), rng.choice(["", "details", "export_clusters", f"?feature_id={st.feats[0]}"]), ()))
        scripts.append(s)
    threads = [threading.Thread(target=client, args=(s,), daemon=True) for s in scripts]
    for t in threads:
        t.start()
    for t in threads:
        t.join(100)
    if errors:
        raise errors[0]
    history = sorted(events, key=lambda e: e[:2])
    for e in history:
        ctx.note(e)
    done = []
    for start, end, kind, args, status, location in history:
        ctx.check(status in (303, 500), "an edit was answered with something else", status=status, edit=(kind, args))
        if status == 303:
            done.append((start, end, 0, kind, args, ("done", None)))
    final = lib.ref_model(st.viewer)
    order = serialise(m0, final, done)
    ctx.check(order is not None, "no serial order of the successful edits explains the final model", history=history, initial=m0.__dict__, final=final.__dict__)
    lib.check_summaries(ctx, st.viewer, "after concurrent requests")
    lib.integrity(ctx, st.path)
    ctx.ev("concurrent_histories")
    ctx.ev("concurrent_edits", len(history))
    ctx.ev("concurrent_edits_refused", len(history) - len(done))
    ctx.state("concurrent_histories", [(e[2], e[4]) for e in history])


def serialise(m0, final, done):
    """c21.serialise without results: where an edit redirects to depends on what came later."""
    want, dead = c21.freeze(final), set()

    def go(m, left, order):
        if not left:
            return order if c21.freeze(m) == want else None
        key = (left, c21.freeze(m))
        if key in dead:
            return None
        first_end = min(done[k][1] for k in left)
        for k in left:
            if done[k][0] <= first_end:
                nm, _ = c21.apply(m, done[k][3], done[k][4])
                out = go(nm, left - {k}, order + [k])
                if out is not None:
                    return out
        dead.add(key)
        return None

    return go(m0, frozenset(range(len(done))), [])
