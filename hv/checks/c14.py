"""C14: the cluster graph."""

import os

import networkx as nx

from .. import gen, lib, ref, refine

RULE = (
    "A case exports the cluster graph of a random model (every value type, overlapping, disjoint and "
    "vanished features) with random label settings, on inline and chaotic pools, compares nodes, "
    "labels and all pairs of clusters with an exhaustive recomputation, and round-trips the graph "
    "through GraphML. Non-trivial: the graph has edges and non-edges."
)
QUICK = {"cases": 300, "budget": 120}
THOROUGH = {"cases": 10000, "budget": 560}
LARGE = (60, 25)
REQUIRED = {"large_cases": 1,
    "graphs": 300,
    "edges_compared": 3000,
    "non_edges": 500,
    "graphml_round_trips": 300,
    "values_not_strings": 100,
}
ASSUMPTIONS = ["values without control characters, which XML can't hold"]


def case(ctx, rng, i):
    many = gen.SIZE > 1 and i // LARGE[0] % 2 == 0
    if rng.random() < 0.4 and not many:
        idx, items, _ = refine.model(ctx, rng, pins=False)
    else:
        shape = gen.Shape(rng, vocab=(2, 40), kinds=rng.choice([None, ["int"], ["float", "int"], ["mixed"], ["bytes"], ["odd"]]))
        idx, items, _ = lib.modelled_index(ctx, rng, shape=shape, pool=lib.make_pool(ctx, rng, chaos=0.2), clusters=rng.choice([200, 400]) if many else rng.choice([1, 3, 8, 20]))
    docs = lib.index_docs(idx)
    clusters = refine.Before(idx).clusters
    cdocs = {c: set().union(*(docs[f] for f in fs)) for c, fs in clusters.items()}
    both = False
    for _ in range(2):
        kw = {}
        if rng.random() < 0.8:
            kw["top_k"] = rng.choice([0, 1, 2, 5, 1000])
        if rng.random() < 0.7:
            kw["include_field_in_label"] = rng.random() < 0.4
        ctx.note(f"graph {kw}")
        graph = idx.create_cluster_cooccurrence_graph(**kw)
        ctx.equal(set(graph.nodes), set(clusters), "the nodes of the graph are not the clusters")
        for c, attrs in graph.nodes(data=True):
            ctx.equal(attrs.get("document_count"), len(cdocs[c]), "document count of a node", cluster=c)
            top = idx.cluster_features(c, top_k=kw.get("top_k", 5))
            counts = sorted((len(docs[f]) for f in clusters[c]), reverse=True)[: kw.get("top_k", 5)]
            ctx.equal([len(docs[f[0]]) for f in top], counts, "not the most frequent features", cluster=c)
            if kw.get("include_field_in_label", True):
                label = ", ".join(f"{field}:{value}" for _, field, value, _ in top)
            else:
                label = ", ".join(str(value) for _, _, value, _ in top)
            ctx.equal(attrs.get("label"), label, "label of a node", cluster=c)
            ctx.ev("values_not_strings", sum(not isinstance(f[2], str) for f in top))
        for a in clusters:
            for b in clusters:
                if a < b:
                    w = ref.jaccard(cdocs[a], cdocs[b])
                    if w:
                        ctx.check(graph.has_edge(a, b), "two clusters share documents and have no edge", pair=(a, b), weight=w)
                        ctx.check(abs(graph[a][b]["weight"] - w) <= 1e-9, "wrong edge weight", pair=(a, b), got=graph[a][b], want=w)
                        ctx.ev("edges_compared")
                    else:
                        ctx.check(not graph.has_edge(a, b), "two clusters share nothing and have an edge", pair=(a, b))
                        ctx.ev("non_edges")
        ctx.check(not any(graph.has_edge(c, c) for c in clusters), "a cluster has an edge to itself")
        n_edges = graph.number_of_edges()
        both |= 0 < n_edges < len(clusters) * (len(clusters) - 1) // 2
        path = os.path.join(ctx.tmp(), "g.graphml")
        labels = "".join(str(d.get("label")) for _, d in graph.nodes(data=True))
        if not any(ord(ch) < 32 and ch not in "\n\t" for ch in labels):
            nx.write_graphml(graph, path)
            back = nx.read_graphml(path, node_type=int)
            ctx.equal(dict(back.nodes(data=True)), dict(graph.nodes(data=True)), "nodes changed by writing and reading GraphML")
            norm = lambda g: {tuple(sorted(e)): g.edges[e]["weight"] for e in g.edges}
            ctx.equal(norm(back), norm(graph), "edges changed by writing and reading GraphML")
            ctx.ev("graphml_round_trips")
        ctx.ev("graphs")
        ctx.state("graphs", (sorted(map(sorted, cdocs.values())), kw))
    if both:
        ctx.distinct((items, sorted(clusters.items(), key=lambda x: x[0])))
    if i % 75 == 0:
        ctx.sample({"clusters": len(clusters), "edges": n_edges, "options": kw})
