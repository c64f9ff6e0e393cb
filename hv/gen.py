"""Corpora and values to drive the index with."""

import json

from hyperreal.corpus import BaseCorpus, TableRenderableCorpus, WebRenderableCorpus


class MemCorpus(WebRenderableCorpus, TableRenderableCorpus, BaseCorpus):
    """
    An in-memory corpus: a list of (key, {field: values}) pairs.

    `trip` makes a document fail: ("docs"|"index", key) raises while that
    document is read or turned into features.
    """

    CORPUS_TYPE = "MemCorpus"
    table_fields = ["title", "body"]

    def __init__(self, items, trip=None):
        self.items = list(items)
        self.trip = trip
        self._map = None

    def __getstate__(self):
        return self.items, self.trip

    def __setstate__(self, state):
        self.__init__(*state)

    @property
    def map(self):
        if self._map is None:
            self._map = dict(self.items)
        return self._map

    def docs(self, doc_keys=None):
        for key in self.keys() if doc_keys is None else doc_keys:
            if self.trip == ("docs", key):
                raise CorpusTrip("injected: reading a document failed")
            yield key, {"key": key, "fields": self.map[key]}

    def keys(self):
        for key, _ in self.items:
            if self.trip == ("keys", key):
                raise CorpusTrip("injected: listing keys failed")
            yield key

    def index(self, doc):
        if self.trip == ("index", doc["key"]):
            raise CorpusTrip("injected: extracting features failed")
        return {f: copy_values(v) for f, v in doc["fields"].items()}

    def render_docs_html(self, doc_keys):
        return [(k, f"<p>{d['key']!r}</p>") for k, d in self.docs(doc_keys=doc_keys)]

    def render_docs_table(self, doc_keys):
        return [
            (k, {"title": f"title of {k!r}", "body": body_text(d["fields"]), "hidden": "x"})
            for k, d in self.docs(doc_keys=doc_keys)
        ]


class PlainCorpus(BaseCorpus):
    """The same documents, without any rendering."""

    CORPUS_TYPE = "PlainCorpus"

    def __init__(self, items):
        self.items = list(items)

    def __getstate__(self):
        return self.items

    def __setstate__(self, items):
        self.__init__(items)

    def docs(self, doc_keys=None):
        m = dict(self.items)
        for key in self.keys() if doc_keys is None else doc_keys:
            yield key, {"key": key, "fields": m[key]}

    def keys(self):
        return (k for k, _ in self.items)

    def index(self, doc):
        return {f: copy_values(v) for f, v in doc["fields"].items()}


class CorpusTrip(Exception):
    pass


def copy_values(v):
    return type(v)(v)


def body_text(fields):
    """Awkward text for a spreadsheet cell, determined by the document."""
    return "\n".join(f'{f}: "{v!r}", {json.dumps(str(v))}' for f, v in sorted(fields.items()))


WORDS = [
    "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa",
    "lambda", "mu", "nu", "xi", "omicron", "pi", "rho", "sigma", "tau", "upsilon",
]  # fmt: skip

ODD_STRINGS = [
    "", " ", "a", "A", "á", "a\u0301", "É", "ß", "ss", "'", '"', "''", "%", "_", "a b", "a\tb",
    "new\nline", "<b>&amp;", "日本", "😀", "👩‍👩‍👧", "0", "00", "1", "1.0", "-1", "null", "None",
    "x" * 300, "ﬀ", "I", "ı", "İ", "\u200b", "\ufeff", ";drop table", "{{x}}", "ؐ", "\x7f",
]  # fmt: skip


# How many times larger than usual the corpora of the current case are.
SIZE = 1


def sized(n):
    return n if SIZE == 1 else max(n, 20) * SIZE


def sized_vocabulary(n):
    return n if SIZE == 1 else max(n, 30) * 2 * SIZE


def cluster_counts(usual):
    return usual if SIZE == 1 else [1, 2, 3, 130, 300, 300]


def value_pool(rng, kind, n):
    if kind == "words":
        return [f"{w}{i}" if i else w for i in range(1 + n // len(WORDS)) for w in WORDS][:n]
    if kind == "odd":
        vals = rng.sample(ODD_STRINGS, min(n, len(ODD_STRINGS)))
        return vals
    if kind == "int":
        base = [0, -1, 1, 2, 3, 10, 255, 2**31, 2**32 + 1, -(2**40), 2**63 - 1, -(2**63)]
        return (base + [rng.randrange(-(10**6), 10**6) for _ in range(n)])[: max(n, 1)]
    if kind == "float":
        base = [0.5, -0.25, 1e-9, 1.5e300, 3.14159]
        return (base + [rng.randrange(1000) + 0.5 for _ in range(n)])[: max(n, 1)]
    if kind == "bytes":
        return [b"", b"\x00", b"abc", b"\xff\xfe"] + [bytes([i % 256, i // 256]) for i in range(n)]
    if kind == "mixed":
        out = ["a", "1", 1, 1.5, b"1", b"a", "", 0, b"", "é", -7, "0"]
        return out[: max(2, n)]
    raise ValueError(kind)


def zipf(rng, pool):
    """Skewed choice: few common values, many rare ones."""
    if SIZE > 1 and rng.random() < 0.6:
        return rng.choice(pool)
    k = int(len(pool) ** rng.random()) - 1
    return pool[min(max(k, 0), len(pool) - 1)]


def key_list(rng, n, kind=None):
    kind = kind or rng.choice(["seq", "gap", "str", "shuffled", "negative", "odd"])
    if kind == "seq":
        keys = list(range(n))
    elif kind == "gap":
        keys, k = [], rng.randrange(50)
        for _ in range(n):
            keys.append(k)
            k += rng.choice([1, 1, 2, 17, 1000])
    elif kind == "str":
        keys = [f"doc-{i:05d}" for i in range(n)]
        rng.shuffle(keys)
    elif kind == "shuffled":
        keys = rng.sample(range(10 * n + 1), n)
    elif kind == "negative":
        keys = [-(10**10) + 3 * i for i in range(n)]
        rng.shuffle(keys)
    else:
        keys = [f"{rng.choice(['é', '/', ' ', chr(34), '%'])}{i}" for i in range(n)]
        rng.shuffle(keys)
    return keys


class Shape:
    """How the documents of one generated corpus look."""

    def __init__(self, rng, *, kinds=None, max_fields=4, vocab=(3, 60), length=(0, 12), positional=True, strings=False):
        self.fields = []
        n = rng.randint(1, max_fields)
        names = rng.sample(["text", "Tag", "title", "é field", "by", "#", "year", "a.b", "T"], n)
        for i, name in enumerate(names):
            kind = rng.choice(kinds or ["words", "words", "odd", "int", "float", "bytes", "mixed"])
            if strings and kind not in ("words", "odd"):
                kind = "words"
            container = rng.choice(["list", "list", "list", "tuple", "set", "frozenset"])
            if i == 0:
                kind = "words" if strings or SIZE > 1 or rng.random() < 0.7 else kind
                container = "list"
            pool = value_pool(rng, kind, sized_vocabulary(rng.randint(*vocab)))
            self.fields.append(
                {
                    "name": name,
                    "container": container,
                    "pool": pool,
                    "missing": rng.choice([0, 0, 0.1, 0.5]),
                    "length": (length[0], rng.randint(max(1, length[0]), length[1])),
                    "none": rng.random() < 0.3 and (container in ("set", "frozenset") or not positional),
                }
            )

    def doc(self, rng):
        out = {}
        for f in self.fields:
            if rng.random() < f["missing"]:
                continue
            n = rng.randint(*f["length"])
            values = [zipf(rng, f["pool"]) for _ in range(n)]
            if f["none"] and rng.random() < 0.3:
                values.insert(rng.randint(0, len(values)), None)
            out[f["name"]] = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[
                f["container"]
            ](values)
        return out


def corpus_items(rng, n, shape=None, keys=None, **kw):
    shape = shape or Shape(rng, **kw)
    keys = keys if keys is not None else key_list(rng, n)
    return [(k, shape.doc(rng)) for k in keys]


LONG_WINDOWS = [0, 1, 5, 60, 300, 1000, 4000, 20000, 10**6]


def long_items(rng, lengths=(300, 2000, 5000, 12000)):
    """A few long documents, in which some words are everywhere and some nearly nowhere."""
    vocab = WORDS[:6] + [f"w{j}" for j in range(rng.randint(2, 12))]
    weights = [3.0 ** -j for j in range(len(vocab))]
    items = []
    for key in range(rng.randint(1, 4)):
        n = rng.choice(lengths)
        seq = rng.choices(vocab, weights, k=n)
        if rng.random() < 0.7:  # a passage of nothing else
            at, size = rng.randrange(n), rng.choice([3, 300, 1500])
            seq[at : at + size] = [rng.choice(vocab)] * len(seq[at : at + size])
        for word in rng.sample(vocab[-4:], 2):  # where documents begin and end
            seq[rng.choice([0, n - 1, rng.randrange(n)])] = word
        items.append((key, {"text": seq, "tags": {rng.choice(WORDS)}, **({"short": seq[:2]} if rng.random() < 0.3 else {})}))
    return items


def ndocs(rng, big=200):
    """Document counts, with the small and empty cases well represented."""
    if SIZE > 1:
        return rng.randint(20 * SIZE, 50 * SIZE)
    return rng.choice([0, 1, 2, 3, 5, rng.randint(4, 30), rng.randint(10, 60), rng.randint(30, big)])
