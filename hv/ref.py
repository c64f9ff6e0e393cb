"""Reference models: what an index of the given documents has to answer."""

import bisect
import collections
from collections.abc import Sequence


def vkey(v):
    """Values of different types are different features ("1", 1 and b"1")."""
    return (type(v).__name__, v)


class RefIndex:
    """The index of a list of (key, {field: values}), worked out naively."""

    def __init__(self, items):
        self.keys = [k for k, _ in items]
        self.docs = [d for _, d in items]
        self.features = collections.defaultdict(set)  # (field, value) -> doc ids
        self.seqs = collections.defaultdict(dict)  # field -> doc id -> values
        for doc_id, (_, fields) in enumerate(items):
            for field, values in fields.items():
                for v in values:
                    if v is not None:
                        self.features[field, v].add(doc_id)
                if isinstance(values, Sequence) and len(values):
                    self.seqs[field][doc_id] = list(values)
        self.features = dict(self.features)
        self.seqs = dict(self.seqs)

    def fields(self):
        out = collections.defaultdict(dict)
        for (field, value), docs in self.features.items():
            out[field][value] = docs
        return dict(out)

    def get(self, feature):
        return self.features.get(feature, set())

    # -- positions ---------------------------------------------------------
    def occurrences(self, field):
        """(doc id, position, value) of every token of a sequence field."""
        for doc_id, values in self.seqs.get(field, {}).items():
            for i, v in enumerate(values):
                yield doc_id, i, v

    def feature_positions(self, field, values):
        out = collections.defaultdict(list)
        for doc_id, i, v in self.occurrences(field):
            if v in values:
                out[doc_id].append(i)
        return out


def near(p, qs, window):
    """Whether p lies within the window of one of the ordered positions."""
    at = bisect.bisect_left(qs, p - window)
    return at < len(qs) and qs[at] <= p + window


def passages_upto2(ref, field, clauses, window):
    """
    Exact result for one or two clauses (sets of values): positions of a clause
    within the window of the other, merged while at most a window apart.
    """
    pos = [ref.feature_positions(field, c) for c in clauses]
    out = {}
    for doc_id in set.union(*(set(p) for p in pos)):
        if any(doc_id not in p for p in pos):
            continue
        if len(pos) == 1:
            keep = set(pos[0][doc_id])
        else:
            a, b = pos[0][doc_id], pos[1][doc_id]
            keep = {p for p in a if near(p, b, window)} | {p for p in b if near(p, a, window)}
        if keep:
            out[doc_id] = merge(sorted(keep), window)
    return out


def merge(positions, window):
    spans = []
    start = last = positions[0]
    count = 1
    for p in positions[1:]:
        if p - last > window:
            spans.append((start, last, count))
            start, count = p, 0
        last = p
        count += 1
    spans.append((start, last, count))
    return spans


def jaccard(a, b):
    u = len(a | b)
    return len(a & b) / u if u else 0.0


# -- the clustering model ----------------------------------------------------
class RefModel:
    """Cluster membership and pins, as plain dictionaries."""

    def __init__(self):
        self.member = {}  # feature id -> cluster id
        self.fpin = set()
        self.cpin = set()

    def clusters(self):
        out = collections.defaultdict(set)
        for f, c in self.member.items():
            out[c].add(f)
        return dict(out)

    def prune(self):
        live = set(self.member.values())
        self.cpin &= live
        self.fpin &= set(self.member)

    def next_id(self):
        return max(self.member.values(), default=0) + 1

    def create(self, features):
        new = self.next_id()
        for f in features:
            self.member[f] = new
        self.prune()
        return new

    def merge(self, ids):
        for f, c in self.member.items():
            if c in ids:
                self.member[f] = ids[0]
        self.prune()
        return ids[0]

    def delete_clusters(self, ids):
        ids = set(ids)
        self.member = {f: c for f, c in self.member.items() if c not in ids}
        self.prune()

    def delete_features(self, ids):
        ids = set(ids)
        self.member = {f: c for f, c in self.member.items() if f not in ids}
        self.prune()

    def pin_features(self, ids, pinned=True):
        for f in ids:
            if f in self.member:
                (self.fpin.add if pinned else self.fpin.discard)(f)

    def pin_clusters(self, ids, pinned=True):
        live = set(self.member.values())
        for c in ids:
            if c in live:
                (self.cpin.add if pinned else self.cpin.discard)(c)


def objective(feature_docs, probe=None):
    """The cluster objective of a set of features, given as document sets."""
    docs = [set(d) if probe is None else set(d) & probe for d in feature_docs]
    n = len(docs)
    if not n:
        return 0.0
    hits = sum(len(d) for d in docs)
    c = len(set().union(*docs))
    return hits / (c + n) - hits / (hits + n)


def contribution(feature, members, docs, probe=None):
    """
    The estimated gain of having `feature` in the cluster with `members`
    (which may already hold it), following the documented objective.
    """

    def d(f):
        return docs[f] if probe is None else docs[f] & probe

    others = set(members) - {feature}
    mine = d(feature)
    if feature in members:
        rest = set().union(*(d(f) for f in others)) if others else set()
        if not rest:
            return 0.0
        if not (mine & rest):
            return -1.0
        return objective([d(f) for f in members]) - objective([d(f) for f in others])
    union = set().union(*(d(f) for f in members)) if members else set()
    if not (mine & union):
        return -1.0
    return objective([d(f) for f in others] + [mine]) - objective([d(f) for f in others])
