"""C17: structured samples and their export."""

import csv
import os

from pyroaring import BitMap

from .. import gen, lib, refine

RULE = (
    "A case takes several structured samples of a random model (sizes from everything to one, all or "
    "some clusters, unknown clusters) and replays them against the documents of every cluster; exports "
    "them to CSV with content holding quotes, line breaks, commas and other scripts, and compares the "
    "file, read back, cell by cell. Non-trivial: some cluster's sample was cut short by documents "
    "already sampled."
)
QUICK = {"cases": 260, "budget": 120}
THOROUGH = {"cases": 9000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1, "samples": 400, "clusters_sampled": 1500, "short_samples": 100, "exports": 250, "rows_read_back": 3000, "selected": 200}
ASSUMPTIONS = ["the corpus renders documents in the order of the keys requested", "documents of a corpus have the same columns"]

NASTY = ['"', '""', ",", "\n", "\r\n", "\r", ";", "\t", "=1+1", "é", "日本", "😀", " lead", "trail ", "'", "\\", "\\n", "a,b\n\"c\"", "\x7f", ""]


class NastyTable(gen.MemCorpus):
    table_fields = ["title", "body, with \"odd\" name", "é"]

    def render_docs_table(self, doc_keys):
        return [(k, row_of(k)) for k, d in self.docs(doc_keys=doc_keys)]


def row_of(key):
    h = sum(map(ord, repr(key)))
    pick = lambda j: NASTY[(h * (j + 3) + j) % len(NASTY)] + NASTY[(h + 7 * j) % len(NASTY)]
    return {"title": f"{key!r}{pick(0)}", 'body, with "odd" name': pick(1), "é": pick(2), "not exported": "x"}


def case(ctx, rng, i):
    if rng.random() < 0.5:
        idx, items, _ = refine.model(ctx, rng, docs=(3, 60))
        items = [(k, d) for k, d in items]
        keys = gen.key_list(rng, len(items))
        items = [(keys[j], d) for j, (_, d) in enumerate(items)]
        idx.corpus = NastyTable(items)
        idx.index()
    else:
        idx, items, _ = lib.modelled_index(ctx, rng, corpus_cls=NastyTable)
    before = refine.Before(idx)
    if not before.clusters:
        return
    docs = lib.index_docs(idx)
    cdocs = {c: set().union(*(docs[f] for f in fs)) for c, fs in before.clusters.items()}
    short = False
    for _ in range(4):
        kw = {}
        if rng.random() < 0.9:
            kw["docs_per_cluster"] = rng.choice([0, 1, 2, 3, 5, 10, 1000])
        k = kw.get("docs_per_cluster", 100)
        selected = set(before.clusters)
        if rng.random() < 0.5:
            kw["cluster_ids"] = rng.sample(sorted(selected), rng.randint(1, len(selected)))
            selected = set(kw["cluster_ids"])
            if rng.random() < 0.2:
                kw["cluster_ids"].append(before.top + 9)
            ctx.ev("selected")
        ctx.note(f"structured sample {kw} of clusters { {c: len(d) for c, d in cdocs.items()} }")
        samples, memberships = idx.structured_doc_sample(**kw)
        ctx.equal(set(samples), selected, "the sampled clusters are not the selected ones", options=kw)
        taken = set()
        last = -1
        for c, s in samples.items():
            ctx.check(len(cdocs[c]) >= last, "clusters are not sampled rarest first", order=[(x, len(cdocs[x])) for x in samples])
            last = len(cdocs[c])
            left = cdocs[c] - taken
            want = min(k, len(left)) if k > 0 else len(left)
            ctx.check(not (set(s) & taken), "a document is sampled twice", cluster=c, again=sorted(set(s) & taken))
            ctx.check(set(s) <= cdocs[c], "a document is sampled for a cluster it isn't in", cluster=c)
            ctx.equal(len(s), want, "the sample of a cluster has the wrong size", cluster=c, available=len(left), options=kw)
            if want < min(k, len(cdocs[c])):
                ctx.ev("short_samples")
                short = True
            taken |= set(s)
            ctx.ev("clusters_sampled")
        got = {c: set(d) for c, d in memberships.items()}
        want = {c: d & taken for c, d in cdocs.items() if d & taken}
        ctx.equal(got, want, "the map of clusters of the sampled documents is wrong", options=kw)
        ctx.equal(lib.ref_model(idx).member, before.member, "sampling changed the model")
        ctx.ev("samples")
        ctx.state("samples", (sorted(taken), kw))

        if rng.random() < 0.7:
            path = os.path.join(ctx.tmp(), "sample.csv")
            idx.export_document_sample({c: BitMap(s) for c, s in samples.items()}, {c: BitMap(s) for c, s in memberships.items()}, path)
            with open(path, encoding="utf-8", newline="") as f:
                reader = csv.DictReader(f)
                rows = list(reader)
            columns = ["doc_key", "sampled_cluster"] + NastyTable.table_fields + [f"cluster_{c}" for c in sorted(want)]
            ctx.equal(sorted(reader.fieldnames), sorted(columns), "the columns exported")
            expected = {}
            for c, s in samples.items():
                for d in s:
                    key = items[d][0]
                    row = {f: v for f, v in row_of(key).items() if f in NastyTable.table_fields}
                    row["doc_key"] = str(key)
                    row["sampled_cluster"] = str(c)
                    for other, ds in want.items():
                        row[f"cluster_{other}"] = "1" if d in ds else ""
                    expected[str(key)] = row
            ctx.equal(len(rows), len(expected), "the number of rows exported")
            for row in rows:
                ctx.equal(row, expected.get(row["doc_key"]), "a row, read back, differs from the document")
                ctx.ev("rows_read_back")
            ctx.ev("exports")
    if short:
        ctx.distinct((items, sorted(before.member.items())))
    if i % 65 == 0:
        ctx.sample({"options": kw, "sizes": {str(c): len(s) for c, s in samples.items()}})
