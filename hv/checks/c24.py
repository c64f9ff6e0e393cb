"""C24: StackExchange sites are imported, updated and indexed faithfully."""

import collections
import datetime as dt
import json
import os
import pickle
from xml.sax.saxutils import quoteattr

import lxml.html

from hyperreal import utilities
from hyperreal.corpus import StackExchangeCorpus

from .. import faults, gen, lib, ref

RULE = (
    "A case generates dumps of one to three sites (questions, answers, other post types, users, "
    "comments, missing attributes, deleted users, hostile text), imports them and updated versions in "
    "random order, and compares documents, features, web and table renderings with the dumps; "
    "then makes imports fail by broken files and at random statements, and by the process dying. "
    "Non-trivial: an update replaced existing posts, or two sites shared ids."
)
LEVEL = "fault_enumeration"
QUICK = {"cases": 180, "budget": 150}
THOROUGH = {"cases": 2500, "budget": 600}
LARGE = (20, 150)
REQUIRED = {
    "large_cases": 1,
    "posts_compared": 2000,
    "features_compared": 1500,
    "rendered": 1500,
    "updates": 50,
    "sites_sharing_ids": 20,
    "failed_imports": 500,
    "crashes": 200,
    "code_blocks": 300,
    "deleted_users": 200,
}
ASSUMPTIONS = [
    "the body of a post is markup from the site and rendered as such",
    "an update that leaves out tags or rows leaves them in place, as documented",
]

HOSTILE = ["<script>alert(1)</script>", "a & b", "\"quoted\" 'text'", "</li></ul>", "{{ 7*7 }}", "&amp; &lt;", "<Deleted User>", "ünïcode", "日本", "--", "x<y>z"]


def words(rng, lo=0, hi=8):
    return [rng.choice(gen.WORDS) + rng.choice(["", "", "1", "2"]) for _ in range(rng.randint(lo, hi))]


def phrase(rng, lo=0, hi=8):
    w = words(rng, lo, hi)
    if rng.random() < 0.3:
        w.insert(rng.randint(0, len(w)), rng.choice(HOSTILE))
    return " ".join(x.title() if rng.random() < 0.2 else x for x in w)


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def body(rng):
    """(HTML, words of the text, words of the code), or no body."""
    r = rng.random()
    if r < 0.06:
        return None, [], []
    if r < 0.12:
        return "", [], []
    if r < 0.18:
        w = words(rng, 1)
        return " ".join(w), w, []
    out, text, code = [], [], []
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(["p", "p", "code", "inline", "list", "tail"])
        w = words(rng, 0, 6) if rng.random() > 0.005 else words(rng, 15000, 25000)
        s = " ".join(x.upper() if rng.random() < 0.2 else x for x in w)
        if kind == "p":
            k = rng.randint(0, len(w))
            out.append(f"<p>{' '.join(w[:k])} <b>{' '.join(w[k:])}</b></p>\n")
            text += w
        elif kind == "inline":
            out.append(f"<p><code>{s}</code></p>")
            text += w
        elif kind == "list":
            out.append("<ul>" + "".join(f"<li>{x}</li>" for x in w) + "</ul>")
            text += w
        elif kind == "code":
            if rng.random() < 0.02:
                w = words(rng, 1100, 2500)
                s = " ".join(w)
            if w and rng.random() < 0.4:
                # marked up, or over several lines
                k = rng.randint(0, len(w) - 1)
                inner = f"{' '.join(w[:k])} <span class='kw'>{w[k]}</span>" + rng.choice([" ", "<br>", "\n", " <!-- -->"]) + " ".join(w[k + 1 :])
            else:
                inner = s
            around = rng.choice(["%s", "%s", "<blockquote>%s</blockquote>", "<ul><li>%s</li></ul>", "<div><div>%s</div></div>"])
            out.append(around % f"<pre><code>{inner}\n</code></pre>" + "\n\n")
            code += w
        else:
            after = words(rng, 1, 3)
            out.append(f"<pre class=\"x\"><code>{s}</code> {' '.join(after)}</pre>")
            code += w
            text += after
    return "".join(out), text, code


class Site:
    """The dump of a site, as plain data, and how it changes."""

    large = False

    def __init__(self, rng, url):
        self.rng, self.url = rng, url
        self.users, self.posts, self.comments = {}, {}, {}
        # a few sites are far larger, in one of the files
        sizes = [rng.randint(0, 5), rng.randint(1, 8), rng.randint(0, 8)]
        if gen.SIZE > 1 and not Site.large:
            Site.large = True
            sizes[rng.randrange(3)] = rng.randint(8, 16) * gen.SIZE
        self.grow(*sizes)

    def date(self):
        r = self.rng
        return f"{r.choice([r.randint(2008, 2023), r.randint(1970, 2040)])}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}T{r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d}.{r.randint(0, 999):03d}"

    def grow(self, users, posts, comments):
        r = self.rng
        for _ in range(users):
            uid = r.choice([-1, len(self.users) + 1, len(self.users) + 1])
            self.users[uid] = {"DisplayName": r.choice(["", "", " ", "\xa0"]) + (phrase(r, 1, 2) or "x") + r.choice(["", "", "  "]), "Reputation": r.randint(1, 999), "CreationDate": self.date(), "AccountId": r.randint(1, 10**6)}
        for _ in range(posts):
            pid = max(self.posts, default=0) + r.choice([1, 1, 3])
            self.posts[pid] = self.post(pid)
        for _ in range(comments):
            if self.posts:
                cid = max(self.comments, default=0) + r.choice([1, 2])
                self.comments[cid] = {
                    "PostId": r.choice(sorted(self.posts)), "UserId": self.user(), "Text": phrase(r, 1), "Score": 0,
                    "CreationDate": self.date(), "ContentLicense": "CC BY-SA 4.0",
                }  # fmt: skip

    def user(self):
        r = self.rng
        return r.choice(sorted(self.users)) if self.users and r.random() < 0.75 else None

    def post(self, pid):
        r = self.rng
        questions = [p for p, d in self.posts.items() if d["PostTypeId"] == "1" and p != pid]
        kind = r.choice(["1", "1", "2", "2", r.choice("345678")])
        if kind == "2" and not questions:
            kind = "1"
        html, text, code = body(r)
        d = {
            "PostTypeId": kind, "CreationDate": self.date(), "Score": r.randint(-5, 50), "Body": html, "text": text, "code": code,
            "OwnerUserId": self.user(), "ContentLicense": r.choice(["CC BY-SA 3.0", None]), "CommentCount": 0,
        }  # fmt: skip
        if kind == "1":
            d["Title"] = phrase(r, 1)
            d["tags"] = set(r.sample(["python", "c++", "c#", ".net", "node.js", "a-b", "日本", "x&y", "q's", "R", "Qt-Ü"], r.randint(0, 4)))
        elif kind == "2":
            d["ParentId"] = r.choice(questions)
        return d

    def update(self):
        """Another dump of the same site, some time later."""
        r = self.rng
        for uid in list(self.users):
            if r.random() < 0.4:
                self.users[uid]["DisplayName"] = phrase(r, 1, 2) or "y"
        for d in self.posts.values():
            if r.random() < 0.4:
                d["Body"], d["text"], d["code"] = body(r)
                if "Title" in d:
                    d["Title"] = phrase(r, 1)
                    d["tags"] |= {r.choice(["new", "python"])}
                d["OwnerUserId"] = self.user()
            if d["PostTypeId"] == "2" and r.random() < 0.1:
                # asked as a question of its own
                d["PostTypeId"], d["Title"], d["tags"] = "1", phrase(r, 1), {"moved"}
                del d["ParentId"]
        for c in self.comments.values():
            if r.random() < 0.3:
                c["Text"] = phrase(r, 1)
        self.grow(r.randint(0, 2), r.randint(0, 3), r.randint(0, 3))

    def write(self, where, broken=None):
        """Write the three files; `broken` = (file, row) cuts a file in the middle of a row."""
        paths = {}
        for name, rows in [("Posts", self.posts), ("Comments", self.comments), ("Users", self.users)]:
            lines = ['<?xml version="1.0" encoding="utf-8"?>', f"<{name.lower()}>"]
            for n, (i, d) in enumerate(rows.items()):
                attrs = {"Id": i, **{k: v for k, v in d.items() if k not in ("text", "code", "tags") and v is not None}}
                if d.get("tags"):
                    attrs["Tags"] = "".join(f"<{t}>" for t in sorted(d["tags"]))
                line = "  <row " + " ".join(f"{k}={quoteattr(str(v), {chr(10): '&#xA;', chr(13): '&#xD;', chr(9): '&#x9;'})}" for k, v in attrs.items()) + " />"
                if broken == (name, n):
                    lines.append(line[: len(line) // 2])
                    break
                lines.append(line)
            else:
                lines.append(f"</{name.lower()}>" if broken != (name, len(rows)) else "<unclosed>")
            paths[name] = os.path.join(where, f"{name}.xml")
            with open(paths[name], "w", encoding="utf-8") as f:
                f.write("\n".join(lines))
        return paths["Posts"], paths["Comments"], paths["Users"]

    # -- what has to come out
    def name(self, uid):
        return self.users[uid]["DisplayName"] if uid in self.users else "<Deleted User>"

    def documents(self):
        return {p: d for p, d in self.posts.items() if d["PostTypeId"] in ("1", "2")}

    def expected(self, pid):
        d = self.posts[pid]
        root = self.posts.get(d.get("ParentId", pid), {})
        return {
            "doc": d, "title": d.get("Title"), "question": d.get("Title") or root.get("Title"),
            "tags": set(root.get("tags", ())) if d["PostTypeId"] == "2" else set(d.get("tags", ())),
            "author": self.name(d["OwnerUserId"]), "type": {"1": "Question", "2": "Answer"}[d["PostTypeId"]],
            "comments": [(self.name(c["UserId"]), c["Text"], c) for c in self.comments.values() if c["PostId"] == pid],
        }  # fmt: skip


def content(path):
    db = faults.real_connect(path)
    try:
        names = [r[0] for r in db.execute("select name from sqlite_master where type = 'table'")]
        # the closing tag of a file leaves a row without an id behind, which nothing refers to
        where = {"comment": "where Id is not null", "User": "where Id is not null"}
        return {n: sorted(db.execute(f'select * from "{n}" {where.get(n, "")}'), key=repr) for n in names if not n.startswith("sqlite_")}
    finally:
        db.close()


def strip(html):
    return " ".join(html.split())


def compare(ctx, corpus, sites, ids):
    keys = list(corpus.keys())
    docs = list(corpus.docs())
    ctx.equal(sorted(k for k, _ in docs), sorted(keys), "documents come up under exactly their keys")
    want = {(s.url, p) for s in sites for p in s.documents()}
    found = {(d["site_url"], d["Id"]): (k, d) for k, d in docs}
    ctx.equal(set(found), want, "not exactly the questions and answers of the dumps")
    ctx.equal(len(docs), len(want), "a post comes up twice")
    by_url = {s.url: s for s in sites}
    html = dict(corpus.render_docs_html(keys))
    table = dict(corpus.render_docs_table(keys))
    ctx.equal((list(html), list(table)), (keys, keys), "rendered documents come in the order of the keys")
    for (url, pid), (key, doc) in found.items():
        ctx.equal(ids.setdefault((url, pid), key), key, "a post changed its document key", post=(url, pid))
        e = by_url[url].expected(pid)
        got = (doc["Title"], doc["Body"], doc["DisplayName"], doc["PostType"], doc["CreationDate"], set(doc["Tags"]))
        ctx.equal(got, (e["title"], e["doc"]["Body"], e["author"], e["type"], e["doc"]["CreationDate"], e["tags"]), "a post differs from the dump", post=(url, pid))
        ctx.equal(
            collections.Counter((c["DisplayName"], c["Text"]) for c in doc["UserComments"]),
            collections.Counter((n, t) for n, t, _ in e["comments"]), "the comments of a post differ from the dump", post=(url, pid),
        )  # fmt: skip
        ctx.ev("posts_compared")
        ctx.ev("deleted_users", (e["author"] == "<Deleted User>") + sum(n == "<Deleted User>" for n, _, _ in e["comments"]))

        f = corpus.index(doc)
        created = dt.datetime.fromisoformat(e["doc"]["CreationDate"])
        plain = {
            "UserPosting": {e["author"]}, "Tag": e["tags"], "UserCommenting": {n for n, _, _ in e["comments"]},
            "Site": {url}, "PostType": {e["type"]},
            "created_day": {created.replace(hour=0, minute=0, second=0, microsecond=0).isoformat()},
            "created_month": {created.replace(day=1, hour=0, minute=0, second=0, microsecond=0).isoformat()},
            "created_year": {created.replace(month=1, day=1, hour=0, minute=0, second=0, microsecond=0).isoformat()},
        }  # fmt: skip
        for field, values in plain.items():
            ctx.equal(set(f[field]), values, f"the {field} feature of a post", post=(url, pid))
        title = utilities.tokens(e["title"] or "")
        ctx.equal(list(f["Post"]), title + [w.lower() for w in e["doc"]["text"]], "the text of a post", post=(url, pid), body=e["doc"]["Body"])
        ctx.equal(list(f["CodeBlock"]), [w.lower() for w in e["doc"]["code"]], "the code of a post", post=(url, pid), body=e["doc"]["Body"])
        ctx.equal(collections.Counter(f["Comment"]), collections.Counter(t for _, c, _ in e["comments"] for t in utilities.tokens(c)), "the comments of a post")
        ctx.equal(set(f), set(plain) | {"Post", "CodeBlock", "Comment"}, "the fields of a post")
        ctx.ev("code_blocks", bool(e["doc"]["code"]))
        ctx.ev("features_compared")

        row = table[key]
        base = {
            "site_url": url, "Id": pid, "OwnerUserId": e["doc"]["OwnerUserId"], "ContentLicense": e["doc"]["ContentLicense"], "PostType": e["type"],
            "Body": e["doc"]["Body"], "ParentId": e["doc"].get("ParentId"), "QuestionTitle": e["question"], "LiveLink": f"{url}/questions/{pid}",
        }  # fmt: skip
        ctx.equal({k: row[k] for k in base}, base, "a row of the table", post=(url, pid))
        ctx.check(set(corpus.table_fields) <= set(row), "columns are missing", columns=sorted(row))
        ctx.check(row["DisplayName"] in ((e["author"],) if e["author"] != "<Deleted User>" else (None, e["author"])), "the author in the table", got=row["DisplayName"])
        ctx.equal(sorted(row["tags"].split(", ")) if row["tags"] else [], sorted(e["tags"]), "the tags in the table")
        ctx.equal(sorted(c["Text"] for c in json.loads(row["comments"])), sorted(t for _, t, _ in e["comments"]), "the comments in the table")

        tree = lxml.html.fragment_fromstring(str(html[key]), create_parent="div")
        bodies = lxml.html.fragment_fromstring(e["doc"]["Body"] or "", create_parent="div")
        ctx.check(not tree.xpath(".//script"), "text of a user became an element", html=str(html[key]))
        summary = strip(tree.xpath("./details/summary")[0].text_content())
        ctx.equal(summary, strip(f"{e['question']} - {e['type']} from {url}"), "the heading of a rendered post")
        links = [a.get("href") for a in tree.xpath(".//a")]
        ctx.check(f"{url}/questions/{pid}" in links, "the link to a rendered post", links=links)
        lists = tree.xpath("./details/details")
        ctx.equal(len(lists), 2, "a rendered post has tags and comments", html=str(html[key]))
        ctx.equal(sorted(strip(x.text_content()) for x in lists[0].xpath("./ul/li")), sorted(map(strip, e["tags"])), "the tags of a rendered post")
        ctx.equal(sorted(strip(x.text or "") for x in lists[1].xpath("./ul/li")), sorted(strip(t) for _, t, _ in e["comments"]), "the comments of a rendered post")
        whole = strip(tree.text_content())
        for who in [e["author"]] + [n for n, _, _ in e["comments"]]:
            ctx.check(strip(who) in whole, "an author is not shown in a rendered post", author=who, html=str(html[key]))
        ctx.check(strip(bodies.text_content()) in whole, "the body of a rendered post", body=e["doc"]["Body"])
        ctx.ev("rendered")


def import_site(corpus, rng, site, where, broken=None):
    files = site.write(where, broken)
    if rng.random() < 0.3:
        handles = [open(f, "rb") for f in files]
        try:
            corpus.add_site_data(*handles, site.url)
        finally:
            for h in handles:
                h.close()
    else:
        corpus.add_site_data(*files, site.url)


def case(ctx, rng, i):
    with faults.installed() as plan:
        run(ctx, rng, i, plan)


def run(ctx, rng, i, plan):
    where = ctx.tmp()
    path = os.path.join(where, "se.db")
    corpus = StackExchangeCorpus(path)
    ctx.defer(corpus.close)
    urls = rng.sample(["https://stackoverflow.com", "https://tex.stackexchange.com", "https://a.b?x=1&y=2"], rng.choice([1, 2, 2, 3]))
    sites, ids, updated = [], {}, False
    Site.large = False
    for url in urls:
        sites.append(Site(rng, url))
        ctx.note(f"import {url}: {len(sites[-1].posts)} posts")
        import_site(corpus, rng, sites[-1], where)
        compare(ctx, corpus, sites, ids)
    if len({p for s in sites for p in s.posts}) < sum(len(s.posts) for s in sites):
        ctx.ev("sites_sharing_ids")
    for _ in range(rng.randint(1, 3)):
        s = rng.choice(sites)
        s.update()
        ctx.note(f"update {s.url}: {len(s.posts)} posts")
        if rng.random() < 0.3:
            corpus.close()
            corpus = StackExchangeCorpus(path)
            ctx.defer(corpus.close)
        lib.failed_reads(ctx, rng, corpus, rng.sample(sorted(ids.values()), min(len(ids), 3)))
        writer = corpus
        if rng.random() < 0.5:
            writer = StackExchangeCorpus(path)
            ctx.defer(writer.close)
        import_site(writer, rng, s, where)
        compare(ctx, corpus, sites, ids)
        ctx.ev("updates")
        updated = True
    twin = pickle.loads(pickle.dumps(corpus))
    compare(ctx, twin, sites, ids)
    twin.close()
    some = rng.sample(sorted(ids.values()), rng.randint(0, len(ids)))
    ctx.equal([k for k, _ in corpus.docs(doc_keys=some)], some, "the requested documents in order")

    # imports that fail change nothing, and the next one works
    before = content(path)
    s = rng.choice(sites) if gen.SIZE == 1 else max(sites, key=lambda x: len(x.posts) + len(x.comments) + len(x.users))

    def unchanged(what):
        now = content(path)
        ctx.check(now == before, f"a failed import changed the corpus ({what})", diff={t: [r for r in now.get(t, []) if r not in before.get(t, [])][:3] for t in now})
        ctx.ev("failed_imports")

    saved = pickle.dumps((s.users, s.posts, s.comments))
    s.update()
    for name, rows in [("Posts", s.posts), ("Comments", s.comments), ("Users", s.users)]:
        at = rng.randint(len(rows) * 2 // 3 if gen.SIZE > 1 else 0, len(rows))
        try:
            import_site(corpus, rng, s, where, broken=(name, at))
            ctx.fail("a broken dump was accepted", file=name, row=at)
        except (SyntaxError, OSError):  # ElementTree.ParseError is a SyntaxError
            unchanged(f"{name} broken at {at}")
    files = s.write(where)
    probe_path = os.path.join(where, "probe.db")
    corpus.db.execute("pragma wal_checkpoint(truncate)")
    faults.copy_db(path, probe_path)
    probe = StackExchangeCorpus(probe_path)
    plan.watch(probe.db)
    probe.add_site_data(*files, s.url)
    total, log = plan.count, plan.log
    plan.reset()
    probe.close()
    done = content(probe_path)
    for at in faults.points(rng, total, 14):
        edge = faults.opens(log[at]) or faults.closes(log[at])
        when = "before" if edge else rng.choice(["before", "after"])
        error = faults.fault_errors(rng, when)
        plan.arm(corpus.db, at, when, error)
        try:
            corpus.add_site_data(*files, s.url)
            raised = False
        except (error, faults.sqlite3.OperationalError):
            raised = True
        fired = plan.fired
        plan.reset()
        if fired is None:
            before = content(path)
            ctx.check(before == done and not raised, "an import that was not disturbed is not stored")
            continue
        ctx.check(raised, "an error of the database was hidden", statement=fired)
        if content(path) == done:
            before = done
        unchanged(f"{error.__name__} at {fired}")
        ctx.equal(corpus.db.in_transaction, False, "a failed import left a transaction open", statement=fired, error=error)
    corpus.db.execute("pragma wal_checkpoint(truncate)")
    corpus.close()
    crash_path = os.path.join(where, "crash.db")

    def dying(at):
        c = StackExchangeCorpus(crash_path)
        faults.CrashPoint(at).attach(c.db)
        c.add_site_data(*files, s.url)

    for at in faults.points(rng, total + 12, 8):
        faults.copy_db(path, crash_path)
        code = faults.in_child(lambda: dying(at))
        now = content(crash_path)
        if code == 0:
            ctx.check(now == done, "a finished import is not stored")
        else:
            ctx.equal(code, faults.CRASHED, "the child failed")
            ctx.check(now in (before, done), "part of an import survived a crash", at=at)
            ctx.ev("crashes")
    corpus = StackExchangeCorpus(path)
    ctx.defer(corpus.close)
    corpus.add_site_data(*files, s.url)
    compare(ctx, corpus, sites, ids)
    if updated:
        ctx.distinct((sorted(ids), saved))
    if i % 22 == 0:
        ctx.sample({"sites": urls, "posts": sum(len(s.posts) for s in sites), "statements_of_an_import": total})
