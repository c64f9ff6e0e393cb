"""C27: web pages show what the index holds, safely."""

import collections
import csv
import io
import os
import urllib.parse

from markupsafe import Markup, escape
from pyroaring import BitMap

from hyperreal import corpus as C
from hyperreal.index import Index

from .. import faults, gen, lib, pools, web

RULE = (
    "A case serves an index of documents, fields, values, keys and paths full of markup, quotes, template syntax and odd characters, with a model with pins, "
    "and compares every element, link, option and hidden value of random pages with the library's answer to the same question, follows links, fills in and submits the forms found on the pages, "
    "and reads the exported spreadsheet back. Non-trivial: an index with markup among its features and more than one cluster."
)
QUICK = {"cases": 176, "budget": 170}
THOROUGH = {"cases": 2600, "budget": 640}
LARGE = (22, 25)
REQUIRED = {"large_cases": 1,
    "pages_checked_for_markup": 1500, "features_shown": 9000, "documents_shown": 600, "concordance_rows": 600, "passages_shown": 100, "searches": 90,
    "cluster_pages": 300, "pivots": 250, "forms_submitted": 150, "links_followed": 400, "exports_compared": 60, "features_exported": 1500, "missing_pages": 100, "samples": 60,
}  # fmt: skip
ASSUMPTIONS = ["html.parser reads the pages like a browser as far as these pages go", "passages of queries with three clauses are not compared, as the library's answer is not determined"]


class PageCorpus(gen.MemCorpus):
    CORPUS_TYPE = "<hvx>&PageCorpus"

    def __init__(self, items, how="plain", trip=None):
        super().__init__(items, trip)
        self.how = how

    def __getstate__(self):
        return self.items, self.how, self.trip

    def text(self, key):
        return f"{key!r} | " + " / ".join(str(v) for f, vs in sorted(self.map[key].items()) for v in [f, *map(str, vs)])

    def render_docs_html(self, doc_keys):
        if self.how == "plain":
            return [(k, self.text(k)) for k in doc_keys]
        return [(k, Markup('<p class="own">') + escape(self.text(k)) + Markup("</p>")) for k in doc_keys]


def spaces(text):
    return text.split()


def shard_setup(ctx):
    web.start()


def shard_teardown(ctx):
    web.stop()


class Setting:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.dir = os.path.join(ctx.tmp(), rng.choice(["plain", "<hvx>", "a&b;'\"", "é日本", "x hvattr=1"]))
        os.mkdir(self.dir)
        self.path = os.path.join(self.dir, rng.choice(["i.db", "<i>&amp;.db", "'.db"]))
        large = gen.SIZE > 1
        n = rng.randint(60, 160) if large else rng.choice([1, 2, rng.randint(3, 12), rng.randint(8, 30)])
        self.kind = rng.choice(["page", "page", "markup", "plaintext", "none", "page"][: 3 if large else 6])
        self.numbers = rng.random() < 0.2 and not large
        if self.kind == "plaintext":
            self.corpus_path = os.path.join(self.dir, "c.db")
            words = gen.WORDS[:8] + [h.replace(" ", "_") for h in web.HOSTILE if h.strip()]
            texts = [f"d{j} " + " ".join(rng.choice(words) for _ in range(rng.randint(0, 15))) for j in range(n)]
            args, cls = [self.corpus_path, spaces], C.PlainTextSqliteCorpus
            self.corpus = cls(*args)
            self.corpus.replace_docs(texts)
            self.corpus.close()
            self.corpus = cls(*args)
        else:
            items = self.items(rng, n)
            args, cls = [items, "markup" if self.kind == "markup" else "plain"], PageCorpus
            self.corpus = cls(*args)
        self.positions = rng.random() < 0.7 and not self.numbers
        self.pool = pools.InlinePool(rng.choice([1, 2, 3]))
        self.idx = idx = Index(self.path, corpus=self.corpus, pool=self.pool, random_seed=rng.randrange(10**6))
        ctx.defer(idx.close)
        idx.index(doc_batch_size=7, index_positions=self.positions)
        self.feats = {r[0]: (r[1], r[2]) for r in idx.db.execute("select feature_id, field, value from inverted_index where docs_count > 0")}
        self.fields = [r[0] for r in idx.indexed_field_summary()]
        if self.feats and rng.random() < 0.96:
            idx.initialise_clusters(rng.choice([1, 1, 2, 60] if large else [1, 2, 2, 3, 5, 8]))
            if rng.random() < 0.5:
                idx.pin_clusters(rng.sample(idx.cluster_ids, rng.randint(0, len(idx.cluster_ids))))
            if rng.random() < 0.3:
                idx.pin_features(rng.sample(sorted(self.feats), len(self.feats) // 4))
        web.SWITCH.seed = rng.randrange(10**6)
        web.SWITCH.use(self.path, self.pool, *((None, None) if self.kind == "none" else (cls, args)))
        self.cls = None if self.kind == "none" else cls

    def items(self, rng, n):
        names = rng.sample(["text", "Tag", "by", *[h for h in web.HOSTILE if h]], rng.randint(1, 4))
        pool = rng.sample(web.HOSTILE, rng.randint(3, len(web.HOSTILE))) + gen.WORDS[: rng.randint(0, 12)]
        if self.numbers:
            pool = pool[:10] + [0, 1, -5, 2.5, b"<hvx>", "1"]
        if gen.SIZE > 1:
            pool += [f"w{j}" for j in range(100 * gen.SIZE)]
        longest = 9 * gen.SIZE
        rng.shuffle(pool)
        keys = [f"{rng.choice(web.HOSTILE)}{j}" for j in range(n)]
        kinds = [rng.choice([list, list, set]) for _ in names]
        return [(k, {f: t([gen.zipf(rng, pool) for _ in range(rng.randint(0, longest))]) for f, t in zip(names, kinds) if rng.random() < 0.9}) for k in keys]


def case(ctx, rng, i):
    with faults.quiet_manager():
        if i % 176 == 100:
            return many_features(ctx, rng)
        st = Setting(ctx, rng)
        listing(ctx, st)
        details(ctx, rng, st)
        if not st.idx.cluster_ids:
            r, path = web.follow(web.request("GET", "/index/0/"))
            ctx.equal((r.status, path.rstrip("/")), (200, "/index/0/details"), "an index without a model does not lead to its details")
            export(ctx, st)
            return
        if gen.SIZE > 1:
            cluster(ctx, rng, st)
        for _ in range(5 if gen.SIZE > 1 else 20 if ctx.thorough else 14):
            rng.choice([overview, overview, pivot_feature, pivot_feature, pivot_cluster, cluster, cluster, cluster, search, missing, submit, submit, export, details])(ctx, rng, st)
            if not st.idx.cluster_ids:
                break
        export(ctx, st)
        listing(ctx, st)
        if len(st.idx.cluster_ids) > 1 and any("<" in str(v) for f in st.feats.values() for v in f):
            ctx.distinct((sorted(map(str, st.feats.values())), st.idx.cluster_ids))
        ctx.ev("largest_cluster_over_1000", gen.SIZE > 1 and max(map(len, map(st.idx.cluster_features, st.idx.cluster_ids)), default=0) > 1000)
        if i % 16 == 0:
            ctx.sample({"corpus": st.kind, "features": [str(f) for f in list(st.feats.values())[:6]], "clusters": len(st.idx.cluster_ids)})


def get(ctx, st, path, params=(), status=200):
    r = web.request("GET", path, params)
    what = f"({path} {dict(params)})"
    ctx.note(what)
    ctx.equal(r.status, status, f"a page could not be shown {what}", body=r.raw[-400:])
    ctx.check("text/html" in r.headers.get("Content-Type", "") and "utf-8" in r.headers["Content-Type"].lower(), f"a page isn't HTML in UTF-8 {what}", headers=r.headers)
    page = web.Page(r.text)
    page.what = what
    web.safe(ctx, page, what)
    ctx.state("pages", what)
    return page


def url(href):
    p = urllib.parse.urlsplit(href)
    return p.path.rstrip("/"), tuple(sorted(urllib.parse.parse_qsl(p.query)))


def links(node):
    return [url(a.get("href")) for a in node.all("a")]


def squeeze(text):
    return " ".join(text.split())


def follow_some(ctx, rng, page):
    hrefs = sorted({a.get("href") for a in page.root.all("a")})
    for href in rng.sample(hrefs, min(len(hrefs), 2)):
        ctx.check(href.startswith("/"), f"a link leaves the server {page.what}", href=href)
        r, path = web.follow(web.request("GET", href))
        ctx.equal(r.status, 200, f"a link leads nowhere {page.what}", href=href)
        ctx.ev("links_followed")


def has_link(ctx, page, label, want):
    got = [url(a.get("href")) for a in page.root.all("a") if squeeze(a.text).startswith(label)]
    ctx.equal(got, [want], f"the link '{label}' {page.what}")


def search_form(ctx, st, page, cluster=None):
    forms = [f for f in page.root.all("form", action="/index/0/search")]
    ctx.equal(len(forms), 1, f"search forms {page.what}")
    ctx.equal([(o.get("value"), o.text) for o in forms[0].all("option")], [(f, f) for f in st.fields], f"fields offered for search {page.what}")
    hidden = [(i.get("name"), i.get("value")) for i in forms[0].all("input", type="hidden")]
    ctx.equal(hidden, [] if cluster is None else [("cluster_id", str(cluster))], f"a search does not return to where it started {page.what}")
    return forms[0]


def shown_features(ctx, box, cluster, context, highlight, page):
    """[(feature id, field, value, score text)] shown, checking links and highlights."""
    out = []
    for a in box.all("a"):
        feature = a.cls("feature", "div")
        if not feature:
            continue
        path, query = url(a.get("href"))
        ctx.equal(path, "/index/0" if context == "index" else f"/index/0/cluster/{cluster}", f"a feature leads elsewhere {page.what}")
        ctx.equal([k for k, _ in query], ["feature_id"], f"a feature leads elsewhere {page.what}")
        fid = int(query[0][1])
        (field,), (value,), (score,) = feature[0].cls("field"), feature[0].cls("value"), feature[0].cls("score")
        ctx.equal(any("highlight" in v.get("class").split() for v in [value]), fid == highlight, f"highlighting of a feature {page.what}", feature=fid)
        out.append((fid, field.text, value.text, score.text))
        ctx.ev("features_shown")
    return out


def as_shown(features):
    return [(f, str(field), str(value), f"{score:.2e}") for f, field, value, score in features]


def clusters_shown(ctx, page, want, *, highlight_cluster=None, highlight_feature=None):
    """The boxes of the overview, against [(cluster id, score, features)]."""
    boxes = page.root.cls("feature-cluster", "div")
    got = []
    for box in boxes:
        (head,) = box.cls("cluster-header")
        words = squeeze(head.text).split()
        ctx.check(len(words) == 4 and words[0] == "Cluster" and words[2] == "-", f"header of a cluster {page.what}", header=words)
        c = int(words[1])
        ctx.equal("highlight" in head.get("class").split(), c == highlight_cluster, f"highlighting of a cluster {page.what}", cluster=c)
        feats = shown_features(ctx, box, c, "index", highlight_feature, page)
        got.append((c, words[3], feats))
        (foot,) = box.cls("cluster-footer")
        if highlight_feature is not None:
            first = (f"/index/0/cluster/{c}", (("feature_id", str(highlight_feature)),))
        elif highlight_cluster is not None:
            first = (f"/index/0/cluster/{c}", (("filter_cluster_id", str(highlight_cluster)),))
        else:
            first = (f"/index/0/cluster/{c}", ())
        ctx.equal(links(foot), [first, ("/index/0", (("cluster_id", str(c)),))], f"links below a cluster {page.what}", cluster=c)
        boxes_ = [(b.get("form"), b.get("name"), b.get("value")) for b in foot.all("input", type="checkbox")]
        ctx.equal(boxes_, [("cluster_edit", "cluster_id", str(c))], f"selection box of a cluster {page.what}", cluster=c)
    expect = {c: (f"{s:.2e}", as_shown(fs)) for c, s, fs in want}
    ctx.equal([c for c, _, _ in got].__len__(), len(expect), f"number of clusters shown {page.what}")
    for c, s, fs in got:
        ctx.equal((s, fs), expect.get(c), f"cluster {c} as shown {page.what}")
    scores = [dict((c, s) for c, s, _ in want)[c] for c, _, _ in got]
    ctx.equal(scores, sorted(scores, reverse=True), f"order of the clusters shown {page.what}")


def overview(ctx, rng, st):
    k = rng.choice([None, 1, 3, 10**6])
    page = get(ctx, st, "/index/0/", {} if k is None else {"top_k_features": k})
    search_form(ctx, st, page)
    clusters_shown(ctx, page, st.idx.top_cluster_features(top_k=k or 40))
    ctx.equal(page.root.cls("doc-list") + page.root.cls("concordance-table"), [], f"documents without a question {page.what}")
    for label, want in (("Index Details", "/index/0/details"), ("Model Overview", "/index/0"), ("Export Clusters", "/index/0/export_clusters")):
        has_link(ctx, page, label, (want, ()))
    follow_some(ctx, rng, page)


def options(rng, st):
    params = {}
    result = None
    if rng.random() < 0.75:
        kinds = ["document", "document", "something"] + ([] if st.numbers else ["concordance", "concordance", "passage", "passage"])
        result = params["result_type"] = rng.choice(kinds)
    if rng.random() < 0.6:
        params["exemplar_docs"] = rng.choice([0, 1, 2, 3, 1000, 1000])
    return params, result


def pivot_feature(ctx, rng, st):
    f = rng.choice(sorted(st.feats))
    params, result = options(rng, st)
    params["feature_id"] = f
    if rng.random() < 0.3:
        params["top_k_features"] = rng.choice([1, 3, 10**6])
    page = get(ctx, st, "/index/0/", params)
    q = st.idx[f]
    clusters_shown(ctx, page, list(st.idx.pivot_clusters_by_query(q, top_k=int(params.get("top_k_features", 40)))), highlight_feature=f)
    results(ctx, rng, st, page, q, result, [f], [[f]], int(params.get("exemplar_docs", 5)))
    search_form(ctx, st, page)
    ctx.ev("pivots")
    follow_some(ctx, rng, page)


def pivot_cluster(ctx, rng, st):
    c = rng.choice(st.idx.cluster_ids)
    params, result = options(rng, st)
    params["cluster_id"] = c
    page = get(ctx, st, "/index/0/", params)
    q = st.idx.cluster_docs(c)
    members = st.idx.cluster_features(c)
    clusters_shown(ctx, page, list(st.idx.pivot_clusters_by_query(q, top_k=40)), highlight_cluster=c)
    results(ctx, rng, st, page, q, result, [m[1:3] for m in members], [[m[0] for m in members]], int(params.get("exemplar_docs", 5)))
    ctx.ev("pivots")
    follow_some(ctx, rng, page)


def results(ctx, rng, st, page, q, result, features, clauses, size):
    """The matching documents shown, in whichever form."""
    heads = [squeeze(h.text) for h in page.root.cls("cluster-header") if "documents" in h.text]
    lists, tables = page.root.cls("doc-list", "ul"), page.root.cls("concordance-table", "table")
    if st.kind == "none" or size == 0 or (not q and (result != "passage" or page.what.startswith("(/index/0/ "))):
        ctx.equal((heads, lists, tables), ([], [], []), f"documents shown without a corpus, or without being asked for {page.what}")
        return
    n = min(size, len(q))
    full = size >= len(q)
    ctx.ev("samples", not full)
    if result == "concordance":
        ctx.equal((len(lists), len(tables), len(heads)), (0, 1, 1), f"concordances are not shown {page.what}")
        shown = concordance_rows(ctx, tables[0], page)
        want = {}
        for key, doc_id, found in st.idx.concordances(q, features, 15):
            rows = {f: {str(v): list(map(str, lines)) for v, lines in m.items()} for f, m in found.items() if m}
            want[str(key)] = rows
        for key, rows in shown.items():
            ctx.check(key in want, f"a document that doesn't match is shown {page.what}", key=key)
            ctx.equal(rows, want[key], f"concordances shown {page.what}", key=key)
        ctx.ev("concordance_rows", sum(len(m) for rows in shown.values() for m in rows.values()))
        nonempty = {k for k, r in want.items() if any(r.values())}
        if full:
            ctx.equal(set(shown), nonempty, f"documents with concordances {page.what}")
        else:
            ctx.check(len(shown) <= n and (len(shown) == n or len(nonempty) < len(want)), f"number of sampled documents {page.what}", shown=len(shown), asked=n)
        ctx.equal(heads, [f"All {len(q)} matching documents." if full else f"Sample of {len(q)} documents"], f"heading of the documents {page.what}")
    elif result == "passage":
        scored = st.idx.score_passages_dnf(clauses, 25)
        want = {}
        for doc_id, key, passage in st.idx.render_passages_table(scored):
            want[doc_id] = tuple(sorted((str(f), str(v)) for f, vs in passage.items() for v in vs))
        if not want:
            ctx.equal((heads, lists), ([], []), f"passages out of nowhere {page.what}")
            return
        ctx.equal((len(lists), len(tables), len(heads)), (1, 0, 1), f"passages are not shown {page.what}")
        shown = []
        for li in lists[0].children:
            if isinstance(li, web.Node):
                dts, dds = [d.text for d in li.all("dt")], [d.text for d in li.all("dd")]
                ctx.equal(len(dts), len(dds), f"fields and values of a passage {page.what}")
                shown.append(tuple(sorted(zip(dts, dds))))
        extra = collections.Counter(shown) - collections.Counter(want.values())
        if len(clauses) < 3:
            ctx.check(not extra, f"passages shown that aren't there {page.what}", extra=extra)
        ctx.equal(len(shown), min(size, len(want)), f"number of passages {page.what}")
        ctx.ev("passages_shown", len(shown))
    else:
        ctx.equal((len(lists), len(tables), len(heads)), (1, 0, 1), f"documents are not shown {page.what}")
        lis = [li for li in lists[0].children if isinstance(li, web.Node)]
        texts = [li.text for li in lis]
        want = {}
        for doc_id, key, doc in st.idx.render_docs_html(q):
            text = web.Page(str(doc)).root.text if isinstance(doc, Markup) else doc
            ctx.check(text not in want, "the generated documents are not distinct")
            want[text] = doc_id
        for li, text in zip(lis, texts):
            ctx.check(text in want, f"a document is not shown as the corpus renders it {page.what}", shown=text, documents=list(want)[:3])
            if st.kind == "markup":
                ctx.equal(len(li.cls("own", "p")), 1, f"rendered markup was lost {page.what}")
            else:
                ctx.equal([x for x in li.children if isinstance(x, web.Node)], [], f"text became markup {page.what}")
            ctx.ev("documents_shown")
        ctx.equal((len(texts), len(set(texts))), (n, n), f"number of documents shown {page.what}", matching=len(q))
        ids = [want[t] for t in texts]
        ctx.equal(ids, [d for d, _, _ in st.idx.render_docs_html(BitMap(ids))], f"order of the documents {page.what}")
        ctx.equal(heads, [f"All {len(q)} matching documents." if full else f"Sample of {len(q)} documents"], f"heading of the documents {page.what}")


def concordance_rows(ctx, table, page):
    """{doc key: {field: {value: lines}}} read off a table with row spans."""
    out = {}
    (body,) = table.all("tbody")
    key = field = None
    doc_left = field_left = 0
    for tr in body.all("tr"):
        cells = [c for c in tr.children if isinstance(c, web.Node)]
        if doc_left == 0:
            c = cells.pop(0)
            ctx.equal(c.tag, "th", f"a document's rows don't add up {page.what}")
            key, doc_left = c.text, int(c.get("rowspan"))
            ctx.check(key not in out, f"a document is repeated {page.what}", key=key)
            out[key] = {}
            ctx.equal(field_left, 0, f"rows of a field cross documents {page.what}")
        if field_left == 0:
            c = cells.pop(0)
            ctx.check(c.tag == "td" and c.get("rowspan"), f"a field's rows don't add up {page.what}")
            field, field_left = c.text, int(c.get("rowspan"))
            ctx.check(field not in out[key], f"a field is repeated {page.what}", field=field)
            out[key][field] = {}
        ctx.equal(len(cells), 2, f"cells of a concordance row {page.what}")
        value = cells[0].text
        ctx.check(value not in out[key][field], f"a value is repeated {page.what}", value=value)
        out[key][field][value] = [li.text for li in cells[1].cls("concordance-line", "li")]
        doc_left -= 1
        field_left -= 1
    ctx.equal((doc_left, field_left), (0, 0), f"row spans don't add up {page.what}")
    return out


def cluster(ctx, rng, st, c=None):
    idx = st.idx
    ids = idx.cluster_ids
    c = rng.choice(ids) if c is None else c
    params, result = options(rng, st)
    highlight = None
    q = idx.cluster_docs(c)
    members = idx.cluster_features(c)
    features, clauses = [m[1:3] for m in members], [[m[0] for m in members]]
    r = rng.random()
    if r < 0.35:
        highlight = params["feature_id"] = rng.choice([m[0] for m in members] if rng.random() < 0.5 else sorted(st.feats))
        q &= idx[highlight]
        features.append(highlight)
        clauses.append([highlight])
    if 0.25 < r < 0.6:
        other = params["filter_cluster_id"] = rng.choice(ids)
        q &= idx.cluster_docs(other)
        features += [m[1:3] for m in idx.cluster_features(other)]
        clauses.append([m[0] for m in idx.cluster_features(other)])
    page = get(ctx, st, f"/index/0/cluster/{c}/", params)
    ctx.equal(squeeze(page.root.all("title")[0].text), f"Cluster {c}", f"title {page.what}")
    pivoted = list(idx.pivot_clusters_by_query(q, cluster_ids=[c], top_k=len(members)))
    want = pivoted[0][-1] if pivoted else members
    (box,) = page.root.cls("feature-cluster", "div")
    ctx.equal(squeeze(box.cls("cluster-header")[0].text), f"Cluster {c}", f"header {page.what}")
    shown = shown_features(ctx, box, c, "cluster", highlight, page)
    ctx.equal(shown, as_shown(want), f"features of the cluster {page.what}")
    results(ctx, rng, st, page, q, result, features, clauses, int(params.get("exemplar_docs", 30)))
    search_form(ctx, st, page, c)
    at = ids.index(c)
    after = ids[(at + 1) % len(ids)]
    if len(ids) > 1:
        has_link(ctx, page, "Previous Cluster", (f"/index/0/cluster/{ids[at - 1]}", ()))
        has_link(ctx, page, "Next Cluster", (f"/index/0/cluster/{after}", ()))
    has_link(ctx, page, "Cluster Overview", (f"/index/0/cluster/{c}", ()))
    has_link(ctx, page, "Pivot By Cluster", ("/index/0", (("cluster_id", str(c)),)))
    has_link(ctx, page, "Model Overview", ("/index/0", ()))
    has_link(ctx, page, "Index Details", ("/index/0/details", ()))

    forms = {}
    for f in page.root.all("form", method="post"):
        for b in f.all("button"):
            forms[squeeze(b.text)] = (url(b.get("formaction") or f.get("action"))[0], [(n.get("name"), n.get("value")) for n in f.all("input", type="hidden")], f)
    mine = ("cluster_id", str(c))
    pinned = c in idx.pinned_cluster_ids
    if pinned:
        expect = {"Unpin Cluster": ("/index/0/cluster/pin", [mine, ("pinned", "0"), ("return_to", "cluster")])}
    else:
        visible = [("feature_id", str(f[0])) for f in want]
        expect = {
            "Delete Selected Features": ("/index/0/feature/remove_from_model", [mine]),
            "Create From Selected Features": ("/index/0/cluster/create", [mine]),
            "Delete and go to next cluster": ("/index/0/cluster/delete", [mine, ("return_cluster_id", str(after))]),
            "Create New Cluster From All Visible Features": ("/index/0/cluster/create", visible),
            "Pin Cluster": ("/index/0/cluster/pin", [mine, ("pinned", "1"), ("return_to", "cluster")]),
            "Split Cluster": ("/index/0/cluster/refine", [mine, ("return_to", "cluster")]),
        }
        opts = [(o.get("value"), o.text) for o in forms["Delete Selected Features"][2].all("option")]
        ctx.equal(opts, [(str(f), f"{field}: {value}") for f, field, value, _ in want], f"features offered for selection {page.what}")
    ctx.equal({k: (a, sorted(h)) for k, (a, h, _) in forms.items()}, {k: (a, sorted(h)) for k, (a, h) in expect.items()}, f"forms {page.what}")
    ctx.ev("cluster_pages")
    follow_some(ctx, rng, page)
    return page


def search(ctx, rng, st):
    """Fill in the search form of a page."""
    odd = [f for f, (_, v) in st.feats.items() if isinstance(v, str) and (v != v.strip() or v != v.lower())]
    f = rng.choice(sorted(odd if odd and rng.random() < 0.4 else st.feats))
    field, value = st.feats[f]
    c = rng.choice([None, rng.choice(st.idx.cluster_ids)])
    page = get(ctx, st, "/index/0/" if c is None else f"/index/0/cluster/{c}/")
    form = search_form(ctx, st, page, c)
    if not isinstance(value, str) or rng.random() < 0.15:
        field, value, f = field, "there is no such value", None
        if rng.random() < 0.5:
            field = "there is no such field"
    sent = [(n.get("name"), n.get("value")) for n in form.all("input", type="hidden")]
    (select,), (entry,) = form.all("select"), [n for n in form.all("input") if n.get("type") != "hidden"]
    sent += [(select.get("name"), field), (entry.get("name"), value)]
    r = web.request("GET", form.get("action"), sent)
    what = f"(search for {field!r} {value!r} from cluster {c})"
    ctx.note(what)
    ctx.ev("searches")
    if f is None:
        ctx.check(r.status >= 400, f"a search for what isn't there was answered with {r.status} {what}", location=r.location)
        return
    ctx.check(r.status in (302, 303, 307), f"a search is not answered with a redirect {what}", status=r.status, body=r.raw[-300:])
    ctx.equal(url(r.location), ("/index/0" if c is None else f"/index/0/cluster/{c}", (("feature_id", str(f)),)), f"a search leads elsewhere {what}")
    page, path = web.follow(r)
    ctx.equal(page.status, 200, f"a search leads to a page that fails {what}")
    page = web.Page(page.text)
    web.safe(ctx, page, what)
    marked = [v.text for v in page.root.cls("highlight") if "value" in v.get("class")]
    ctx.check(set(marked) <= {value}, f"a search marks another value {what}", marked=marked)
    if c is None and f in lib.model_rows(st.idx):
        shown = {b.text for b in page.root.cls("value")}
        ctx.equal(bool(marked), value in shown, f"a search does not mark the value {what}")


def missing(ctx, rng, st):
    ids = st.idx.cluster_ids
    c = rng.choice([max(ids) + 1, max(ids) + 1000, -1, *(set(range(max(ids))) - set(ids))])
    for path in (f"/index/0/cluster/{c}/", rng.choice(["/index/1/", "/index/7/details", "/index/0/nothing", "/nothing"])):
        r = web.request("GET", path)
        ctx.check(r.status == 404 or (r.status >= 400 and "nothing" in path), "a page about nothing", path=path, status=r.status)
        web.safe(ctx, web.Page(r.text.partition("<pre")[0]), path)
        ctx.ev("missing_pages")


def details(ctx, rng, st):
    page = get(ctx, st, "/index/0/details")
    (table,) = page.root.all("table")
    rows = [[td.text for td in tr.all("td")] for tr in table.all("tbody")[0].all("tr")]
    ctx.equal(rows, [[str(x) for x in r] for r in st.idx.indexed_field_summary()], "fields listed in the details")
    forms = {url(f.get("action"))[0]: f for f in page.root.all("form")}
    ctx.equal(set(forms), {"/index/0/recreate_model", "/index/0/refine_model"}, "forms of the details")
    opts = [(o.get("value"), o.text) for o in forms["/index/0/recreate_model"].all("option")]
    ctx.equal(opts, [(f, f) for f in st.fields], "fields offered for the model")
    n = len(st.idx.cluster_ids)
    (target,) = forms["/index/0/refine_model"].all("input", name="target_clusters")
    ctx.equal(target.get("value"), str(n), "number of clusters in the details")
    ctx.check(f"current model contains {n})" in squeeze(page.root.text), "number of clusters mentioned in the details")
    follow_some(ctx, rng, page)


def listing(ctx, st):
    page = get(ctx, st, "/index/")
    (ul,) = page.root.cls("compact-cluster", "ul")
    ctx.equal(links(ul), [("/index/0", ())], "links of the list of indexes")
    text = ul.all("a")[0].text
    ctx.equal(text.strip(), f"{st.path}, {getattr(st.cls, 'CORPUS_TYPE', '')}".strip(), "description of the index")


def export(ctx, *args):
    st = args[-1]
    r = web.request("GET", "/index/0/export_clusters")
    ctx.equal(r.status, 200, "export failed", body=r.raw[-300:])
    ctx.check("text/csv" in r.headers.get("Content-Type", ""), "the export isn't a spreadsheet", headers=r.headers)
    got = list(csv.reader(io.StringIO(r.text, newline="")))
    ctx.equal(got[:1], [["cluster_id", "feature_id", "field", "value", "docs_count"]], "header of the export")
    docs = lib.index_docs(st.idx)
    names = lib.feature_ids(st.idx)
    want = sorted([str(c), str(f), str(names[f][0]), str(names[f][1]), str(len(docs[f]))] for f, (c, _, _) in lib.model_rows(st.idx).items())
    ctx.equal(sorted(got[1:]), want, "exported features are not those of the model")
    ctx.ev("exports_compared")
    ctx.ev("features_exported", len(want))


def many_features(ctx, rng):
    """All the features of a large vocabulary, in one cluster, exported."""
    class st:
        path = os.path.join(ctx.tmp(), "i.db")
        idx = Index(path, corpus=gen.MemCorpus([(0, {"text": [f"w{j}" for j in range(rng.randint(33000, 36000))]})]), pool=pools.InlinePool(2))

    ctx.defer(st.idx.close)
    st.idx.index()
    st.idx.initialise_clusters(1)
    web.SWITCH.use(st.path, st.idx.pool, None, None)
    export(ctx, st)


def submit(ctx, rng, st):
    """Fill in and submit a form found on a page, as a browser would; the model has to follow."""
    idx = st.idx
    where = rng.choice(["cluster", "cluster", "overview", "overview", "details"])
    c = rng.choice(idx.cluster_ids)
    m = lib.ref_model(idx)
    library = None
    if where == "cluster":
        page = get(ctx, st, f"/index/0/cluster/{c}/", {"feature_id": rng.choice(sorted(st.feats))} if rng.random() < 0.3 else {})
    else:
        page = get(ctx, st, "/index/0/" if where == "overview" else "/index/0/details")
    forms = page.root.all("form", method="post")
    form = rng.choice(forms)
    button = rng.choice(form.all("button"))
    label = squeeze(button.text)
    fields, chosen = [], []
    own = form.all("input") + (page.root.all("input", form=form.get("id")) if form.get("id") else [])
    for n in own:
        if n.get("type") == "checkbox":
            if rng.random() < 0.4:
                # selected by what the box stands beside
                box = n.parent
                while "feature-cluster" not in (box.get("class") or "").split():
                    box = box.parent
                chosen.append(int(squeeze(box.cls("cluster-header")[0].text).split()[1]))
                fields.append((n.get("name"), n.get("value")))
        elif n.get("type") == "number":
            value = {"target_clusters": rng.choice(["", "1", "2", "3"]) if where == "overview" else rng.choice(["1", "2", "3"]), "iterations": "1"}.get(n.get("name"), rng.choice(["1", "2"]))
            if rng.random() < 0.3:
                # left as it is; what isn't a number is blank in a browser
                value = n.get("value") or ""
                value = value if value.isdigit() else ""
            fields.append((n.get("name"), value))
        else:
            fields.append((n.get("name"), n.get("value")))
    for s in form.all("select"):
        options = s.all("option")
        k = rng.randint(0, len(options))
        for at in sorted(rng.sample(range(len(options)), k)):
            fields.append((s.get("name"), options[at].get("value")))
            chosen.append(options[at].text)
    if label == "Merge Clusters" and not chosen:
        return
    if where == "cluster" and label in ("Delete Selected Features", "Create From Selected Features"):
        # labels need not be unique: the option next to the feature it names
        texts = collections.defaultdict(list)
        for f, cl in m.member.items():
            if cl == c:
                texts[f"{st.feats[f][0]}: {st.feats[f][1]}"].append(f)
        if any(len(v) > 1 for v in texts.values()):
            return
        chosen = [texts[t][0] for t in chosen]
        if not chosen and label.startswith("Create"):
            return
    numbers = {k: v for k, v in fields}
    what = f"('{label}' of {page.what} with {chosen} {fields})"
    ctx.note(what)
    copy, many = None, [v for k, v in fields if k == "include_fields"]
    if label in ("Split Cluster", "Refine Selected Clusters", "Recreate Model", "Refine Existing Model"):
        copy = os.path.join(ctx.tmp(), "copy.db")
        src, dst = faults.real_connect(st.path), faults.real_connect(copy)
        src.backup(dst)
        src.close()
        dst.close()
        ref_idx = Index(copy, pool=pools.InlinePool(2))
        try:
            ref_idx.random.seed(web.SWITCH.seed)
            refine = {"target_clusters": int(numbers.get("target_clusters") or 0) or None, "iterations": int(numbers.get("iterations", 10)), "minimum_cluster_features": int(numbers.get("minimum_cluster_features", 1))}
            if label == "Recreate Model":
                ref_idx.initialise_clusters(int(numbers["clusters"]), min_docs=int(numbers["min_docs"]), include_fields=chosen or None)
                ref_idx.refine_clusters(iterations=refine["iterations"], minimum_cluster_features=refine["minimum_cluster_features"])
            elif label == "Refine Existing Model":
                ref_idx.refine_clusters(**refine)
            else:
                ref_idx.refine_clusters(cluster_ids=[c] if label == "Split Cluster" else chosen, **refine)
        finally:
            ref_idx.close()
        library = lib.dump(copy)
    elif label == "Delete Selected Features":
        m.delete_features(chosen)
    elif label == "Create From Selected Features":
        m.create(chosen)
    elif label == "Delete and go to next cluster":
        m.delete_clusters([c])
    elif label == "Create New Cluster From All Visible Features":
        (box,) = page.root.cls("feature-cluster", "div")
        m.create([f[0] for f in shown_features(ctx, box, c, "cluster", int(page.what.split("'feature_id': ")[1].split("}")[0]) if "feature_id" in page.what else None, page)])
    elif label in ("Pin Cluster", "Unpin Cluster"):
        m.pin_clusters([c], label == "Pin Cluster")
    elif label == "Merge Clusters":
        m.merge(chosen)
    elif label.startswith("Delete Clusters"):
        m.delete_clusters(chosen)
    else:
        ctx.fail(f"an unexpected form {what}")
    r = web.request("POST", button.get("formaction") or form.get("action"), fields=fields)
    ctx.check(r.status in (302, 303), f"a form was refused {what}", status=r.status, body=r.raw[-400:])
    if library is not None:
        now = lib.dump(st.path)
        ctx.equal(now, library, f"a form does not do what it says {what}", diff=lib.diff_dumps(now, library))
    else:
        lib.check_model(ctx, idx, m, what)
    page, path = web.follow(r)
    ctx.equal(page.status, 200, f"a form leads to a page that fails {what}", path=path)
    if label == "Delete and go to next cluster" and idx.cluster_ids:
        nxt = [x for x in idx.cluster_ids if x > c] or idx.cluster_ids
        ctx.equal(path, f"/index/0/cluster/{nxt[0]}" if path.count("/") < 5 else f"/index/0/cluster/{nxt[0]}/", f"deleting a cluster does not go to the next {what}")
    ctx.ev("forms_submitted")
    ctx.state("forms", (label, len(chosen)))
