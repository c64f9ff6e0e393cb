"""A live server on the loopback interface, a client, and parsed pages."""

import html.parser
import http.client
import os
import urllib.parse

import cherrypy

import hyperreal.server as S

VOID = {"meta", "link", "input", "br", "img", "hr"}


class Switch:
    """An index server whose index can be replaced between cases."""

    def __init__(self):
        self.current = None
        self.seed = None
        self.opened = 0

    def use(self, path, pool, corpus_class=None, corpus_args=None):
        self.current = S.SingleIndexServer(path, corpus_class=corpus_class, corpus_args=corpus_args, pool=pool)

    def index(self, index_id):
        idx = self.current.index(index_id)
        self.opened += 1
        if self.seed is not None:
            idx.random.seed(self.seed)
        return idx

    def list_indices(self):
        return self.current.list_indices()


SWITCH = Switch()
ADDRESS = []


def start():
    """One server per process: CherryPy's engine is global."""
    cherrypy.config.update({"log.screen": False, "server.thread_pool": 6, "server.socket_host": "127.0.0.1"})
    S.launch_web_server(SWITCH, port=0)
    ADDRESS[:] = cherrypy.server.bound_addr[:2]


def stop():
    cherrypy.engine.exit()


class Response:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.raw = status, headers, body

    @property
    def text(self):
        return self.raw.decode("utf-8")

    @property
    def location(self):
        loc = self.headers.get("Location")
        if loc is None:
            return None
        p = urllib.parse.urlsplit(loc)
        return p.path + (f"?{p.query}" if p.query else "")


def request(method, path, params=None, fields=None, timeout=60):
    """params: query string pairs; fields: form data pairs."""
    if params:
        path += ("&" if "?" in path else "?") + urllib.parse.urlencode(params)
    body, headers = None, {}
    if fields is not None:
        body = urllib.parse.urlencode(fields)
        headers["Content-Type"] = "application/x-www-form-urlencoded"
    c = http.client.HTTPConnection(*ADDRESS, timeout=timeout)
    try:
        c.request(method, path, body=body, headers=headers)
        r = c.getresponse()
        try:
            return Response(r.status, dict(r.getheaders()), r.read())
        except http.client.IncompleteRead as e:
            return Response(599, dict(r.getheaders()), e.partial)
    finally:
        c.close()


def follow(response, limit=6):
    """The page a redirect ends at, and its path."""
    path = None
    while response.status in (301, 302, 303, 307, 308):
        limit -= 1
        if not limit:
            break
        path = response.location
        response = request("GET", path)
    return response, path


# -- pages ------------------------------------------------------------------------
class Node:
    def __init__(self, tag, attrs=(), parent=None):
        self.tag, self.attrs, self.parent = tag, dict(attrs), parent
        self.children = []

    def all(self, tag=None, **attrs):
        """Every element below, in order, with these attributes."""
        out = []
        for c in self.children:
            if isinstance(c, Node):
                if (tag is None or c.tag == tag) and all(c.get(k.rstrip("_")) == v for k, v in attrs.items()):
                    out.append(c)
                out.extend(c.all(tag, **attrs))
        return out

    def cls(self, name, tag=None):
        return [n for n in self.all(tag) if name in (n.get("class") or "").split()]

    def get(self, name, default=None):
        return self.attrs.get(name, default)

    @property
    def text(self):
        return "".join(c.text if isinstance(c, Node) else c for c in self.children)


class Page(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = self.at = Node("#root")
        self.odd = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs, self.at)
        self.at.children.append(n)
        if tag not in VOID:
            self.at = n

    def handle_startendtag(self, tag, attrs):
        # as browsers do, <a ... /> opens an element
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        n = self.at
        while n.parent is not None and n.tag != tag:
            n = n.parent
        if n.tag == tag:
            self.at = n.parent

    def handle_data(self, data):
        self.at.children.append(data)

    def handle_comment(self, data):
        self.odd.append(("comment", data))

    def handle_pi(self, data):
        self.odd.append(("pi", data))

    def unknown_decl(self, data):
        self.odd.append(("decl", data))


def safe(ctx, page, what):
    """Nothing from the content has become markup: hostile content uses these names."""
    for n in page.root.all():
        if n.tag in ("hvx", "script", "iframe", "svg", "object") or any(a.startswith(("hv", "on")) for a in n.attrs):
            ctx.fail(f"content became markup {what}", element=n.tag, attributes=n.attrs)
        href = n.get("href") or n.get("action") or n.get("formaction") or n.get("src") or ""
        if href.strip().lower().startswith(("javascript:", "data:")):
            ctx.fail(f"content became a script link {what}", href=href)
    ctx.equal(page.odd, [], f"content became a comment or declaration {what}")
    ctx.ev("pages_checked_for_markup")


HOSTILE = [
    "<hvx>", "</div><hvx>", '"><hvx>', "'><hvx hvattr=1>", '" hvattr="1', "' hvattr='1", " hvattr=1 ", "<script>hv()</script>", "<!-- hv", "-->", "<![CDATA[", "<?php",
    "&lt;hvx&gt;", "&amp;amp;", "&", "&#60;hvx&#62;", "{{ 7*7 }}", "{% raw %}", "{# c #}", "</select></form><form action=/index/0/cluster/delete><hvx>", "</option><hvx>",
    "javascript:hv()", "<img src=x onerror=hv()>", "</title><hvx>", "</style><hvx>", "</textarea><hvx>", "`", "\\", "日本", "é", "👩‍👩‍👧", "a\tb", "x" * 200, "", " ", "  two  spaces ", "0", "None", "%00", "+", "\u2028", "<", ">", "'", '"', "Mixed Case É", " padded\u3000",
]  # fmt: skip


def fds(path):
    """Open descriptors of this process that are the file or its side files."""
    n = 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{fd}").startswith(path):
                n += 1
        except OSError:
            pass
    return n
