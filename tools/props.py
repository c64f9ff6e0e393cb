"""The table properties.jsonl and MANIFEST.json are generated from (tools/make_docs.py)."""

IX = "hyperreal/index.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", note="", level="exploration"):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "observe_at": list(observe),
                "hook_needed": None,
            },
            "_technique": technique,
            "_note": note,
            "_level": level,
        }
    )


prop(
    "C01",
    "Every feature retrieves exactly the documents that contain it",
    "After indexing a corpus, looking up any (field, value) feature, by its key or by its id, retrieves exactly the documents whose indexed fields contain that value, and stored document counts equal the sizes of the retrieved sets; absent features retrieve nothing and can't be looked up. "
    "Documents are numbered one-to-one in the order the corpus lists its keys. "
    "This holds for every value type and container the corpus protocol allows, and whatever the batch size, the number of workers and the order in which batches finish.",
    ["inputs", "schedules", "configurations"],
    "every corpus (document count, keys, fields, containers, value types), batch size, worker count, worker pool and completion order of batches",
    "The tests index one English text with two batch sizes and compare two totals; no other value types, no document level comparison, no control over the order in which batches finish.",
    [IX, "hyperreal/db_utilities.py", "hyperreal/corpus.py"],
    [("batch indexing into segments", "index.py _index_docs"), ("merging segments", "index.py Index.index"), ("union aggregate", "db_utilities.py RoaringUnion"), ("lookups", "index.py __getitem__, lookup_feature, lookup_feature_id, iter_field_docs")],
    [("inverted_index", "feature -> documents", "index file"), ("doc_key", "document id -> corpus key", "index file")],
    ["Index.__getitem__", "Index.lookup_feature_id", "Index.iter_field_docs", "Index.convert_query_to_keys"],
    "online comparison of complete real indexes with a naive reference index, under chaotic worker pools",
    "Compares every feature of thousands of generated corpora; exploration, not proof. Trusts SQLite, pyroaring and the in-memory corpus.",
)
prop(
    "C02",
    "Re-indexing keeps feature ids and replaces everything else",
    "Indexing again, after any change to the corpus, gives exactly the answers a fresh index of the current corpus gives, including positions and field summaries, with nothing left of documents or features that disappeared. "
    "Every feature ever indexed keeps its id, whatever happens to it in between. "
    "The model keeps its features, clusters and pins, and all its statistics describe the new documents.",
    ["inputs", "histories"],
    "every sequence of corpus versions and indexing runs, with and without positions, with any model in place",
    "The tests reindex an unchanged corpus without a model; features that vanish, reappear or move between documents, and models over them, never occur.",
    [IX],
    [("zeroing old features, keeping ids on replace", "index.py Index.index"), ("updating cluster statistics", "index.py Index.index")],
    [("inverted_index.feature_id", "stable feature id", "index file"), ("feature_cluster, cluster", "the model and its statistics", "index file")],
    ["Index.lookup_feature_id", "Index.cluster_docs", "Index.top_cluster_features"],
    "differential monitoring of re-index histories against a fresh reference and a log of all ids ever issued",
    "Random histories of up to a dozen corpus versions; exploration.",
)
prop(
    "C03",
    "Indexing is all or nothing under failures and crashes",
    "If indexing stops for any reason (a document that fails, a worker that dies, an interrupt, a full stop of the process at any point), the index file afterwards holds exactly what it held before or exactly the new index, never a mixture, and it can be used and indexed again. "
    "Temporary files are removed unless the process itself was killed, and a working directory supplied by the caller is used for them and is kept. "
    "Indexing inside an open transaction is refused without any effect.",
    ["crash_points", "fault_sequences", "histories"],
    "every statement boundary at which the process can die, every document, worker task or statement that can fail, with and without a previous index and model",
    "No test makes anything fail during indexing.",
    [IX],
    [("one transaction around the whole run", "index.py Index.index"), ("temporary index", "index.py Index.index, tempfile")],
    [("the index file", "committed content", "SQLite, WAL")],
    ["the index file reopened by another connection", "the temporary directory"],
    "crash and fault injection at every SQL statement and worker task, with an all-or-nothing oracle on the reopened file",
    "Crashes are process deaths (no power loss): every statement of the runs is enumerated for small corpora, sampled for larger ones.",
    level="fault_enumeration",
)
prop(
    "C04",
    "Recorded positions reproduce the token sequence of every document",
    "With positions turned on, the positions recorded for a sequence field reproduce each document's token sequence exactly, token for token and including repeats, never crossing documents. "
    "Set fields, and runs with positions turned off, record none, and the totals reported per field are exact. "
    "Document retrieval by feature is the same with and without positions, and none of this depends on batching or worker order.",
    ["inputs", "schedules", "configurations"],
    "every corpus with sequence fields (empty, missing, repeated and long sequences), batch size and completion order",
    "The tests compare the total number of positions of one text.",
    [IX, "hyperreal/utilities.py"],
    [("position offsets and document boundaries", "index.py _index_docs"), ("passage decoding", "index.py _score_passages_dnf")],
    [("position_index", "feature -> positions in a batch", "index file"), ("position_doc_map", "document boundaries of a batch", "index file")],
    ["Index.score_passages_dnf with a window of 0", "Index.positional_fields", "Index.indexed_field_summary"],
    "decoding the recorded positions of real indexes through the query interface and comparing with the source documents",
    "Exploration over generated corpora, including more than 65536 positions per batch.",
)
prop(
    "C05",
    "Passage search is sound, complete and confined to documents",
    "A passage search reports only spans within one document, in which every counted token belongs to a searched feature and lies within the window of a feature of every clause of that field; for one or two clauses the spans and counts are exactly those positions merged while they are at most a window apart, and with more clauses no tokens lying pairwise within the window of each other are missed. "
    "Results do not depend on batching, worker order, the order of the clauses (for up to two) or whether features are given by id or key. "
    "Rendered passages are the tokens of the span with the requested overhang on both sides, clipped to the document.",
    ["inputs", "schedules", "configurations"],
    "every positional corpus, query (clauses, features, fields), window size and batching",
    "The tests check that a passage search returns something on one text.",
    [IX, "hyperreal/utilities.py"],
    [("window expansion within document boundaries", "utilities.py expand_positions_window"), ("clause intersection", "index.py _score_passages_dnf"), ("rendering", "index.py _construct_passages")],
    (),
    ["Index.score_passages_dnf", "Index.render_passages_table"],
    "oracle over the real passage search: exact reference for up to two clauses, soundness and completeness monitors beyond",
    "Exploration; for three or more clauses the order in which clauses are applied is observable in the code, so only soundness and completeness are asserted.",
)
prop(
    "C06",
    "Collocation counts are exact",
    "For any set of features of a positional field and any window, the reported collocations count, for every other feature of that field present in the indexed documents, exactly its occurrences within the window of a searched position in the same document, and its occurrences overall; the totals of searched positions and of positions covered by the windows are exact. "
    "Windows never reach into a neighbouring document or another field, and batching does not matter.",
    ["inputs", "configurations"],
    "every positional corpus, feature set, window size and batching",
    "The tests run it once on one text and compare nothing.",
    [IX, "hyperreal/utilities.py"],
    [("window expansion", "utilities.py expand_positions_window"), ("per batch counts", "index.py _count_collocations, count_collocations")],
    (),
    ["Index.count_collocations"],
    "comparison of the real counts with a naive count over the source documents",
    "Exploration over generated corpora.",
)
prop(
    "C07",
    "Cluster summaries always agree with their features and the index",
    "Whenever an operation on the model has returned or raised, and for every other reader of the file at any moment, each cluster's feature count, document set, document count and weight are those computed from its current features and the current index; clusters exist exactly while they have features, and a feature is in at most one cluster. "
    "Listings of clusters and features present the same numbers, clusters by decreasing document count and features by decreasing impact.",
    ["histories", "schedules", "inputs"],
    "every history of initialising, refining, merging, creating, deleting, pinning and re-indexing, including failed operations",
    "The tests perform each edit once or twice and check one number each.",
    [IX, "hyperreal/_index_schema.py"],
    [("marking changed clusters", "_index_schema.py triggers"), ("refreshing changed clusters on commit", "index.py atomic, _update_changed_clusters"), ("refresh on reindex", "index.py Index.index")],
    [("cluster", "materialised summary", "index file"), ("changed_cluster", "clusters to refresh", "index file")],
    ["Index.top_cluster_features", "Index.cluster_docs", "the cluster table"],
    "invariant monitor over the real model after every step of random edit histories, and at every statement as seen by a second connection",
    "Exploration of random histories of 10 to 40 operations.",
)
prop(
    "C08",
    "Model edits do exactly what was asked and nothing else",
    "Creating, merging, deleting and pinning change exactly the named features and clusters: a new cluster has an unused id higher than all others and holds exactly the given features, merging moves every feature of the listed clusters into the first, and everything else, pins included, stays as it was. "
    "Initialising a model replaces it with every feature of the chosen fields that has at least the minimum number of documents, each exactly once, spread evenly over the requested clusters. "
    "Edits naming things that don't exist change nothing else, and an edit that is refused changes nothing.",
    ["histories", "inputs"],
    "every history of edits over every model, including repeated, unknown and overlapping arguments",
    "The tests perform one delete, one merge and one create on one model and check counts.",
    [IX, "hyperreal/_index_schema.py"],
    [("edits", "index.py create_cluster_from_features, merge_clusters, delete_clusters, delete_features, pin_features, pin_clusters, initialise_clusters"), ("next id", "index.py next_cluster_id")],
    [("feature_cluster", "membership and pins", "index file")],
    ["Index.cluster_features", "Index.pinned_cluster_ids", "the feature_cluster table"],
    "model-based monitoring: each edit is mirrored on a reference model and the complete state compared",
    "Exploration of random edit histories.",
)
prop(
    "C09",
    "Refinement conserves features and respects pins and scope",
    "Refining never loses, duplicates or invents features: the features of the refined clusters are exactly redistributed among them and newly created clusters. "
    "Pinned clusters, clusters outside the selection, and pinned features keep exactly their place, and pins are kept. "
    "This holds for every combination of options, on any model, with every pool and every random choice, and refinement never fails on a valid model.",
    ["inputs", "configurations", "schedules"],
    "every model, pinning, selection, probe, target, iteration count, acceptance probability, group testing setting and seed",
    "The tests refine one model with few options and compare totals; pins are tested one at a time.",
    [IX],
    [("moves", "index.py _refine_feature_groups"), ("pins and scope", "index.py refine_clusters"), ("mapping new ids", "index.py refine_clusters"), ("saving", "index.py _update_cluster_feature")],
    [("feature_cluster", "membership and pins", "index file")],
    ["the model before and after Index.refine_clusters", "the groups before and after the low level refinement"],
    "conservation monitor around every real refinement run with random options",
    "Exploration over random models and options.",
)
prop(
    "C10",
    "Refinement reaches its target without overrunning the limits it was given",
    "After refining to a target, the model (or the selection) has at most the target number of clusters, counting pinned ones, except where clusters holding pinned features prevent it, and exactly the target when shrinking with a minimum of one feature, or when splitting clusters with features to spare. "
    "No cluster that had more than the minimum number of features is drained below the minimum by moving features (dissolving and splitting aside), and without changing the target no cluster appears. "
    "Clusters created by splitting get ids higher than any in the model.",
    ["inputs", "configurations"],
    "every model, target, minimum size, iteration count, pinning and selection",
    "The tests try a handful of targets on one model.",
    [IX],
    [("splitting and dissolving", "index.py _refine_feature_groups"), ("targets and pinned clusters", "index.py refine_clusters")],
    [("cluster", "cluster ids", "index file")],
    ["Index.cluster_ids before and after Index.refine_clusters"],
    "bound monitor around every real refinement run",
    "Exploration over random models and options.",
)
prop(
    "C11",
    "Seeded runs are reproducible whatever the scheduling",
    "With a fixed random seed, the same sequence of calls on the same index gives the same model and the same samples every time: whatever pool runs the work, however many workers it has and in whatever order they finish, and in every process, whatever its hash seed.",
    ["schedules", "configurations"],
    "every call history, seed, pool, worker count, completion order and hash seed",
    "The tests compare two runs in one process on one pool.",
    [IX],
    [("one generator per index", "index.py Index.__init__"), ("ordered dispatch and collection", "index.py _score_proposed_moves, initialise_clusters")],
    (),
    ["the model and samples of repeated runs"],
    "differential monitoring of repeated runs under inline, chaotic and process pools and in processes with different hash seeds",
    "Exploration; covers pools of 1 to 7 workers.",
)
prop(
    "C12",
    "Refinement moves features where the objective says they belong",
    "The value of a cluster of n features is hits/(covered + n) - hits/(hits + n), where hits is the sum of the features' document counts and covered the number of distinct documents, restricted to the probe query if one is given; a feature's contribution to a cluster is the difference its presence makes, -1 where it shares no document with the rest, and 0 for the only feature that retrieves anything. "
    "One full refinement step moves every free feature to a cluster in which its contribution, measured on the clusters before the step, is greatest. "
    "When shrinking, the clusters dissolved are those with the lowest objective.",
    ["inputs", "configurations"],
    "every model, probe query, clusters with shared, disjoint, duplicate and empty features",
    "The tests only check that refinement terminates and that counts are right.",
    [IX],
    [("contributions", "index.py measure_feature_contribution_to_cluster"), ("choosing", "index.py _score_proposed_moves, _find_best_moves, _refine_feature_groups")],
    (),
    ["assignment before and after one step of Index.refine_clusters", "measure_feature_contribution_to_cluster"],
    "oracle recomputing objective and contributions from the raw document sets for every real refinement step",
    "Exploration; ties within 1e-9 accept any of the tied clusters.",
)
prop(
    "C13",
    "Pivoting ranks exactly the matching clusters and features",
    "Pivoting by a query yields exactly the (selected) clusters that share documents with it, each once, in order of decreasing Jaccard similarity, with the exact similarity. "
    "Each comes with its top features by Jaccard similarity with the query: exactly as many as asked for or as there are features sharing documents with it, in decreasing order, none omitted that ranks higher.",
    ["inputs", "configurations", "schedules"],
    "every model, query, cluster selection, number of features and pool",
    "The tests pivot by a few features of one text and check the first result.",
    [IX],
    [("cluster ranking", "index.py pivot_clusters_by_query, _calculate_query_cluster_cooccurrence"), ("feature ranking with early termination", "index.py _pivot_cluster_features_by_query_jaccard")],
    (),
    ["Index.pivot_clusters_by_query"],
    "oracle over every real pivot: exhaustive ranking from raw document sets",
    "Exploration; ties may be ordered either way.",
)
prop(
    "C14",
    "The cluster graph holds every overlap and nothing else",
    "The exported graph has one node per cluster with its document count and a label of its most frequent features, and an edge exactly between each pair of clusters that share documents, weighted by the Jaccard similarity of their documents. "
    "It can be written to GraphML and read back unchanged, for every kind of feature value that XML can hold.",
    ["inputs", "configurations"],
    "every model, label setting and value type",
    "The tests count the nodes of one graph.",
    [IX, "hyperreal/cli.py"],
    [("pairwise comparison", "index.py create_cluster_cooccurrence_graph, _calculate_query_cluster_cooccurrence")],
    (),
    ["Index.create_cluster_cooccurrence_graph", "networkx GraphML"],
    "oracle over every real graph: exhaustive pairwise recomputation",
    "Exploration over random models.",
)
prop(
    "C15",
    "Weighted ranking counts and selects exactly",
    "Accumulating any sequence of features (or a cluster) gives the union of their documents and, for every document, exactly the number of features matching it. "
    "Selecting the top k by weight gives exactly the documents whose weight is at least that of the k-th best, or all if there are no more than k, and leaves its inputs unchanged.",
    ["inputs"],
    "every sequence of document sets, including repeats and empty sets, and every k of at least 1",
    "The tests check the sizes for one cluster and one k.",
    ["hyperreal/utilities.py", IX],
    [("carry-save addition", "utilities.py compute_bitslice"), ("selection", "utilities.py bstm"), ("decoding", "utilities.py weight_bitslice"), ("queries", "index.py union_bitslice, cluster_query")],
    (),
    ["Index.union_bitslice", "Index.cluster_query", "utilities.bstm", "utilities.weight_bitslice"],
    "oracle comparing the real bit-sliced results with plain counters",
    "Exploration over random feature sets with up to hundreds of overlapping features.",
)
prop(
    "C16",
    "Queries retrieve and sample exactly their documents",
    "Retrieving or rendering a query's documents gives each matching document exactly once, with its own id, key and content, and nothing else. "
    "Sampling gives exactly the requested number of distinct matching documents, each as likely as any other, or all if there are fewer, and never changes the query. "
    "Without a corpus, or with one that can't render, exactly the operations that need it are refused with the documented errors.",
    ["inputs", "configurations"],
    "every corpus, key type, query, sample size and corpus capability",
    "The tests retrieve one query and check that two operations are refused.",
    [IX, "hyperreal/corpus.py"],
    [("keys", "index.py convert_query_to_keys"), ("retrieval", "index.py docs, render_docs_html, render_docs_table"), ("sampling", "index.py sample_bitmap"), ("capabilities", "index.py requires_corpus")],
    (),
    ["Index.docs", "Index.render_docs_html", "Index.render_docs_table", "Index.sample_bitmap"],
    "oracle over real retrievals with content tagged by document",
    "Exploration over random corpora, keys and queries.",
)
prop(
    "C17",
    "Structured samples and their export are faithful",
    "A structured sample draws from the selected clusters, rarest first, without replacement: each cluster's sample is taken from its documents not yet sampled and is as large as asked for or as possible, and the accompanying map lists exactly which clusters each sampled document belongs to. "
    "The exported spreadsheet, read back, has exactly one row per sampled document, with its key, content, sampled cluster and cluster memberships, whatever characters they contain.",
    ["inputs", "configurations"],
    "every model, corpus, sample size, cluster selection and document content",
    "The tests check two sizes on one model and never read the export back.",
    [IX, "hyperreal/cli.py"],
    [("sampling", "index.py structured_doc_sample"), ("export", "index.py export_document_sample")],
    (),
    ["Index.structured_doc_sample", "the exported CSV"],
    "oracle over real samples and the re-parsed export",
    "Exploration over random models.",
)
prop(
    "C18",
    "Concordance windows show every match in its exact context",
    "For every document of a query and every requested feature, the windows are exactly the occurrences of that feature in order, each with the requested number of tokens on both sides, clipped to the document; fields that are sets report the matching values without context. "
    "Features given by id or by key are equivalent, and the text form joins exactly these tokens.",
    ["inputs"],
    "every corpus, query, feature selection and window size",
    "The tests check one feature on one text for presence.",
    [IX],
    [("windows", "index.py extract_matching_feature_windows"), ("text", "index.py concordances")],
    (),
    ["Index.extract_matching_feature_windows", "Index.concordances"],
    "oracle over every real window, recomputed from the source documents",
    "Exploration over random corpora.",
)
prop(
    "C19",
    "Field summaries and intersections are exact",
    "The field summary lists every indexed field with the number of distinct values present, the smallest and largest value and the number of positions recorded. "
    "Iterating over a field gives each value having the minimum number of documents once, in order, with its exact documents, and intersecting queries with a field gives for every value its total and the exact overlap with each query.",
    ["inputs", "histories"],
    "every corpus, field, value type, threshold and set of queries, also after re-indexing",
    "The only test of intersections needs data that is not available; the summary is never checked.",
    [IX],
    [("summary", "index.py Index.index"), ("intersection", "index.py iter_field_docs, intersect_queries_with_field")],
    [("field_summary", "per field statistics", "index file")],
    ["Index.indexed_field_summary", "Index.iter_field_docs", "Index.intersect_queries_with_field"],
    "comparison of the real summaries with naive ones",
    "Exploration over random corpora and re-index histories.",
)
prop(
    "C20",
    "A failed or killed edit leaves the model untouched and usable",
    "If editing or refining the model fails for any reason (an invalid argument, a failing worker, an error from the database, an interrupt, a full stop of the process at any point), the file afterwards holds exactly the model from before the edit or exactly the completed edit, never part of it. "
    "The same index object stays usable after a failure: it holds no open transaction, later edits succeed and are saved.",
    ["crash_points", "fault_sequences", "histories"],
    "every statement at which an edit can fail or the process can die, every worker task that can fail, for every edit on every model",
    "No test makes an edit fail.",
    [IX],
    [("savepoints", "index.py atomic"), ("housekeeping in the same transaction", "index.py atomic, _update_changed_clusters")],
    [("the index file", "committed content", "SQLite, WAL"), ("transaction state", "open savepoints of the connection", "Index")],
    ["the index file read by another connection", "the same index object afterwards"],
    "fault and crash injection at every SQL statement and worker task of every edit, with an all-or-nothing oracle",
    "Enumerates all statement boundaries of each sampled edit; process deaths, not power loss.",
    level="fault_enumeration",
)
prop(
    "C21",
    "Readers see one committed state and concurrent edits serialise",
    "An operation that reads the model or the index sees a single committed state, no older than the latest when it began, even while another process commits edits or a new index in between its steps; so does each piece of work that it hands to the worker pool. "
    "When several connections edit at once, each edit either takes effect completely or is refused with an error and has no effect, and the outcome, including returned ids, is that of some serial order of the edits that succeeded.",
    ["schedules", "histories"],
    "every interleaving of the statements of a reader with a writer's commit, and of concurrent editors",
    "The tests never open two connections at once.",
    [IX, "hyperreal/db_utilities.py"],
    [("read transactions", "index.py atomic"), ("write-ahead log", "index.py Index.__init__")],
    (),
    ["results of reads with a commit injected before each statement", "histories of concurrent edits"],
    "commit injection at every statement of a reader, and linearizability checking of recorded histories of concurrent editors",
    "All injection points of each sampled read; concurrent histories are sampled. A piece of work handed to the pool opens the file for itself in this code base: it is held to a single state, but not to that of the operation that started it.",
)
prop(
    "C22",
    "Opening and migrating files is safe",
    "Opening an index of any earlier supported version brings it to the current version with its documents, features, clusters and pins unchanged and correct cluster statistics, and a process dying on the way leaves a file that can still be opened; opening a current index changes nothing. "
    "Whoever else opens and uses the same file in the meantime gets, and leaves, the same index: nothing either of them did is lost, and neither fails other than by having to wait. "
    "Databases that are not an index, or are from an unknown version, are refused and left byte for byte as they were. "
    "Asking whether a path is an index answers truthfully for every path and file and never modifies the file or creates one.",
    ["inputs", "crash_points", "configurations", "schedules"],
    "every earlier version with every content, every crash point of a migration, every moment another opener can come, every kind of foreign file and path",
    "The tests open only current files.",
    ["hyperreal/_index_schema.py", IX],
    [("migrations", "_index_schema.py migrate"), ("recognition", "index.py is_index_db, application_id")],
    [("user_version, application_id", "file identification", "SQLite header")],
    ["Index(...)", "Index.is_index_db", "the bytes of the file"],
    "before/after comparison of synthesised files of every version, with crashes injected, and another opener let in, at every migration statement",
    "Old files are synthesised from the migration scripts, as no historical files are available offline.",
)
prop(
    "C23",
    "The plain text corpus stores exactly the documents it was given",
    "Replacing the documents of a plain text corpus stores every given text, exactly and in order, each under its own key, and nothing from before; whichever keys are requested, exactly those documents are returned, in the requested order. "
    "If replacing fails or the process dies, the previous documents remain untouched and the error is reported. "
    "Copies of the corpus in other processes see the same documents.",
    ["inputs", "crash_points", "fault_sequences"],
    "every sequence of texts, every failing or dying point",
    "The tests index one corpus file that is already there.",
    ["hyperreal/corpus.py", "hyperreal/db_utilities.py"],
    [("savepoint around replacing", "corpus.py PlainTextSqliteCorpus.replace_docs"), ("retrieval", "corpus.py PlainTextSqliteCorpus.docs")],
    [("doc", "texts by key", "corpus file")],
    ["PlainTextSqliteCorpus.docs", "PlainTextSqliteCorpus.keys", "render_docs_html", "render_docs_table"],
    "round-trip oracle with faults and crashes injected at every statement",
    "Exploration of random texts; all statement boundaries of small replacements.",
)
prop(
    "C24",
    "StackExchange sites are imported, updated and indexed faithfully",
    "Importing the dump of a site stores every question and answer with its tags, comments and authors, leaves other post types out, keeps sites apart, and replaces rows of an earlier import of the same site under the same document key; a failing import changes nothing, and a failed reading does not affect later ones. "
    "Each post is indexed under its author, title and text, code blocks, tags of its question, commenters, comments, site, type and creation day, month and year, with deleted users recognisable. "
    "Rendered documents carry exactly this content, and text from users is escaped.",
    ["inputs", "histories", "fault_sequences"],
    "every well-formed dump, sequence of imports and failing point of an import",
    "The tests need dumps that are not available.",
    ["hyperreal/corpus.py"],
    [("import", "corpus.py StackExchangeCorpus.add_site_data"), ("retrieval and indexing", "corpus.py StackExchangeCorpus.docs, index"), ("rendering", "corpus.py render_docs_html, render_docs_table")],
    [("Post, User, comment, PostTag, Site", "imported data", "corpus file")],
    ["StackExchangeCorpus.docs", "StackExchangeCorpus.index", "render_docs_html", "render_docs_table"],
    "round-trip oracle over generated dumps, with faults injected in the dump and the database",
    "Dumps are generated; exploration.",
)
prop(
    "C25",
    "Tokenising loses no text and is insensitive to case and quote style",
    "Tokens are never empty or blank and, apart from white space and apostrophes, contain exactly the characters of the lower-cased text, in order; words of letters and digits separated by spaces or punctuation become tokens of their own. "
    "Curly quotes count as straight ones. "
    "The social media tokeniser does the same after leaving out links, mentions and hashtags up to the next white space, and nothing else.",
    ["inputs"],
    "every string",
    "The tests tokenise one English text, only to count.",
    ["hyperreal/utilities.py"],
    [("word boundaries", "utilities.py tokens"), ("cleaning", "utilities.py social_media_tokens")],
    (),
    ["utilities.tokens", "utilities.social_media_tokens"],
    "conservation oracle over random and structured Unicode text",
    "Exploration over random strings from many scripts.",
)
prop(
    "C26",
    "Web requests edit exactly what they say, and only by POST",
    "Viewing any page changes nothing in the index, and requests that edit are refused unless they are POSTs. "
    "An editing request has exactly the effect of the corresponding library call with the submitted selections and options, then redirects to a page that exists; a request that fails leaves the model consistent and the server working.",
    ["inputs", "histories"],
    "every sequence of page views and edits with every selection, including single, multiple, missing and invalid ones",
    "The tests view three pages.",
    ["hyperreal/server.py", "hyperreal/templates/"],
    [("method restriction", "server.py cherrypy.tools.allow"), ("argument conversion", "server.py ensure_list"), ("index per request", "server.py lookup_index, cleanup_index")],
    (),
    ["HTTP responses", "the index file"],
    "differential monitoring of a live server against the library on a reference model",
    "Exploration of random request histories against a server on the loopback interface.",
)
prop(
    "C27",
    "Web pages show what the index holds, safely",
    "Every page shows exactly the clusters, features, counts, summaries and documents the library reports for the same question, with links and form values that lead to them. "
    "Everything originating from documents or features is escaped, so that no content can introduce markup. "
    "The exported cluster spreadsheet, read back, lists every feature of the model exactly once with its cluster and count.",
    ["inputs", "configurations"],
    "every index content, page and page option",
    "The tests check for three links.",
    ["hyperreal/server.py", "hyperreal/templates/"],
    [("templates with automatic escaping", "server.py templates"), ("views", "server.py Index, Cluster")],
    (),
    ["parsed HTML of every page", "the exported CSV"],
    "oracle comparing parsed pages of a live server with library results, over hostile content",
    "Exploration of random models with hostile values.",
)
prop(
    "C28",
    "The command line pipeline gives what the library gives",
    "Creating a corpus from a text file stores one document per line that isn't blank, and indexing, modelling, sampling and exporting from the command line have exactly the effect of the corresponding library calls with the given options; a model is replaced only when asked to and confirmed. "
    "Exported clusters, graphs and samples, read back, agree with the index. "
    "Commands given something that isn't an index fail without touching it.",
    ["inputs", "configurations", "histories"],
    "every text file, option and sequence of commands",
    "The tests run one sequence of commands and check exit codes.",
    ["hyperreal/cli.py"],
    [("commands", "cli.py plaintext_corpus, model, export")],
    (),
    ["the files each command writes"],
    "differential monitoring of real command line runs against the library and re-parsed output",
    "Exploration; few runs, as each starts its own worker processes.",
)
prop(
    "C29",
    "Tweets are indexed by everything they carry, retweets only as references",
    "Each directly collected tweet is one document, indexed by its text without links, mentions and hashtags, by its hashtags, mentions, outside links and their domains, author, conversation, collection labels, creation time at every granularity, and the tweet and user it replies to or quotes, where there are any. "
    "A retweet is indexed only by its author, time and what it retweets. "
    "Tweets collected only because others refer to them are left out, and databases that are not of a supported version are refused.",
    ["inputs"],
    "every database in the Twittersphere layout",
    "The tests need collected tweets that are not available.",
    ["hyperreal/corpus.py"],
    [("retrieval", "corpus.py TwittersphereCorpus.docs"), ("indexing", "corpus.py TwittersphereCorpus.index")],
    (),
    ["TwittersphereCorpus.docs", "an index of the corpus"],
    "oracle over synthesised tweet databases",
    "The database layout is reconstructed from the queries in the code; exploration.",
)
prop(
    "C30",
    "Nothing is left behind, and worker pools are used as given",
    "An index or corpus that is closed, and every operation, web request or indexing run that has ended, whether it succeeded or failed, leaves no database connection, transaction, open file, temporary file, thread, worker process or running batch of its own behind, and later operations on the same index work as before. "
    "A worker pool supplied by the caller does all the background work and is never shut down; without one a single pool is started when it is first needed, used from then on, and ends with the process. "
    "Indexing never has more batches waiting than its workers can soon take up. "
    "A file that nothing has open any more is complete by itself, without a write-ahead log beside it.",
    ["inputs", "histories", "fault sequences", "configurations"],
    "every sequence of operations, requests and programs, with failures of documents, tasks and pools anywhere in them, with supplied and default pools",
    "The tests check results, and never what is open, running or on disk after them.",
    [IX, "hyperreal/corpus.py", "hyperreal/server.py"],
    [("lazy pool", "index.py Index.pool"), ("clean up of indexing", "index.py Index.index"), ("worker connections", "index.py Index.__enter__, __exit__, _index_docs"), ("clean up of requests", "server.py cleanup_index")],
    [("_pool", "worker pool in use", "Index"), ("_db", "lazy connection", "SqliteBackedCorpus")],
    ["tracked sqlite connections", "/proc/self/fd", "threads and child processes", "temporary directories", "calls of the pool"],
    "resource monitor: connections, files, threads, processes and pool calls compared after every step",
    "Exploration of random histories with injected failures. Objects only held by garbage count as released.",
)
