"""Writes /verif/properties.jsonl (kept as code so that the statements stay easy to edit)."""
import json, os
S = ["dhg/structure/base.py", "dhg/structure/graphs/graph.py", "dhg/structure/graphs/directed_graph.py",
     "dhg/structure/graphs/bipartite_graph.py", "dhg/structure/hypergraphs/hypergraph.py"]
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every view of a structure agrees with the edits made so far",
     "After any sequence of edits and queries on a graph, directed graph, bipartite graph or hypergraph, everything it reports (edge lists, weights, counts, degrees, neighbours, groups, adjacency, incidence, degree and Laplacian matrices, smoothing and message-passing results) equals what its documentation defines for exactly the vertices, edges, weights and self-loop settings left by the edits that succeeded. "
     "An edit that is rejected, or a query that fails part-way (for example out of memory), changes no later answer.",
     ["histories", "fault_sequences"],
     "every interleaving of edits and queries by several clients of one structure, with edits rejected and allocations failing at any point",
     "The tests build a structure, apply one edit and read one or two views; staleness needs a view read before an edit and read again after it, for every pair of view and edit, and failures in between.",
     S, [("lazily filled caches cleared by every edit", "dhg/structure/base.py: cache, group_cache, _clear_cache"),
         ("merge of repeated edges", "_add_edge, _add_hyperedge")],
     [("raw edges", "the edits so far", "_raw_e_dict, _raw_selfloop_dict, _raw_groups"), ("caches", "memoised views", "cache, group_cache")],
     ["public properties and methods of the four classes"])
prop("C02", "Threads that only read one structure get the answers a lone reader gets",
     "Several threads that only query, smooth or pass messages on one shared structure each get, whatever the interleaving, the answer a lone caller would get, and no call fails because of another reader.",
     ["schedules"],
     "every interleaving of read-only calls by 2 to 4 threads on one structure, whichever views were already computed",
     "The tests are single-threaded; the library fills caches lazily inside reads, so a read is a hidden write.",
     S, [("idempotent lazy caching", "cache.get(...) is None -> compute -> store"), ("Laplacians computed on a copy", "clone() inside L, L_sym, L_rw, L_GCN")],
     [("caches", "filled by readers", "cache, group_cache")], ["return values of reads per thread"])
prop("C03", "Copies and derived structures start exact and stay independent",
     "A structure obtained from another one (by cloning, restoring from exported state, taking a sub-hypergraph, switching the two vertex sets of a bipartite graph, or dropping edges at rate zero) starts with exactly the content that operation defines, weights and vertex weights included. "
     "From then on, edits to either one never change anything the other reports.",
     ["histories"],
     "every history of edits, queries and derivations over a growing family of structures, at any moment of cache fill",
     "The tests clone once and compare; leaks need an edit on one side after the derivation, seen through a view of the other side, with caches warm or cold at the time of the derivation.",
     S, [("deep copies of raw content and caches", "clone, from_state_dict, switch_uv, subgraph")],
     [("raw content", "must not be shared", "_raw_e_dict, _raw_groups, _v_weight")], ["views of both structures after every step"])
prop("C04", "A saved structure loads back exactly, and a broken save never loads wrong",
     "Once saving a structure has returned, loading that file, with the loader of its kind or the generic loader, in the same or a later process, yields a structure of the same kind with the vertices, edges, weights, groups, vertex weights and self-loop setting it had at the moment of the save. "
     "When a save reports an error or the process dies part-way, a later load either returns completely one of the structures saved to that path or raises an error, and a save that could not write everything raises an error.",
     ["histories", "crash_points", "fault_sequences"],
     "every history of edits, saves, loads, crashes at any write and disk errors (full disk, I/O error, short write) at any file operation",
     "The tests save and load one structure on a healthy disk; they never crash, fill the disk, or save over another kind of structure.",
     S, [("pickle of class tag and state", "save, load, load_structure"), ("error on close and write propagates", "with open(...)")],
     [], ["the file", "the loaded structure"])
prop("C05", "No dataset content is ever used unless its checksum matches",
     "A dataset item is only ever built from files whose content matches the checksum published for them: whatever the network, the disk, crashes and other processes fetching the same dataset do, the loader of an item never reads bytes that differ from the published content.",
     ["fault_sequences", "crash_points", "schedules"],
     "every sequence of server errors, resets, truncated or corrupted responses, disk errors, crashes, restarts and interleaved fetchers sharing a dataset directory",
     "The tests download a few real files over a healthy network, alone, and no test injects a fault or a second downloader.",
     ["dhg/utils/download.py", "dhg/data/base.py"], [("MD5 check before every use", "download_and_check, check_file"), ("download beside, then publish", "download_and_check")],
     [("dataset directory", "files shared by processes", "data_root")], ["bytes seen by the item loader"])
prop("C06", "Once faults stop, a dataset item becomes available again",
     "Fetching a dataset file recovers by itself: requests answered with an error status are retried, up to three attempts per access, a failure of the main host falls back to the backup host, and neither a partial, corrupted or crashed earlier download nor a leftover in the old cache location makes the item permanently unavailable: once faults stop, an access fails at most once for each damaged file it finds. "
     "A valid local copy, in the current or in the old cache location, is used without any network request.",
     ["fault_sequences", "histories"],
     "every finite sequence of faults followed by fault-free accesses",
     "The tests need a live network and only exercise the success path; retry, fallback, migration and recovery never run.",
     ["dhg/utils/download.py", "dhg/data/base.py"], [("retry", "_retry"), ("fallback to the backup host", "download_and_check"), ("legacy cache migration", "_try_migrate_from_legacy_cache"), ("corrupted file removed", "download_and_check")],
     [], ["result of repeated accesses", "requests seen by the simulated servers"])
prop("C07", "A dataset item has one value, however and whenever it is asked for",
     "However the items of a dataset are requested (in any order, repeatedly, raw or preprocessed, from several threads, after failed attempts), an item always equals its preprocessing applied to its loaded files, its raw form always equals the loaded files, and using one form or item never changes another. "
     "A failed attempt leaves nothing behind, and an item that was loaded once is served again without reading its files.",
     ["histories", "schedules", "fault_sequences"],
     "every history and interleaving of item and raw accesses with loader, disk and network failures in between",
     "The tests read each item once in a fixed order.",
     ["dhg/data/base.py", "dhg/datapipe/common.py", "dhg/datapipe/normalize.py", "dhg/datapipe/loader.py"],
     [("lazy load and per-item cache", "BaseData.__getitem__, BaseData.raw")], [("item caches", "loaded raw and processed values", "_raw, _content[...]['cache']")], ["values returned"])
prop("C08", "A fixed seed makes every random operation of the library reproducible",
     "After the library's seed is set, the results of any program of random library operations (structure generators, edge and path dropping, dataset splits, negative sampling, random conversions, model initialisation and training-mode forward passes, layouts, embedding plots) depend only on that seed and that program: not on the wall clock, on what ran earlier in the process, or on the interpreter's hash randomisation. "
     "The library reports as its seed the value that was set.",
     ["programs", "histories", "configurations"],
     "every program of random operations, every prior history, clock and hash seed",
     "The tests fix the seed in one or two places and compare nothing across processes, clocks or histories.",
     ["dhg/random/_seed.py", "dhg/random/graphs/graph.py", "dhg/random/hypergraphs/hypergraph.py", "dhg/utils/dataset_split.py", "dhg/utils/dataset_wrapers.py", "dhg/utils/sparse.py", "dhg/visualization/structure/layout.py"],
     [("one seed for random, numpy and torch", "set_seed")], [("global generators", "random, numpy, torch", "dhg/random/_seed.py")], ["returned values in different executions"])
prop("C09", "Random structure generators keep their promise for every random source",
     "For every valid parameter choice and whatever the random source returns, each random graph and hypergraph generator terminates and returns a structure of the requested size: the exact number of distinct edges where one is promised, no self-loops or repeated edges, vertex indices in range, hyperedge sizes within the promised bounds, and the structural constraint promised by its name (uniform, bipartite, dyadic, degree bound). "
     "Edge probability zero gives no edge and probability one gives every edge. Under a fair source every edge (or size) appears with the documented probability, independently of the other edges where edges are drawn one by one and of earlier calls; a request for more edges than exist is rejected.",
     ["inputs", "schedules"],
     "every outcome of the random source, including the extreme values and repeated values it may return, and all small parameters including the limits",
     "The tests draw a handful of graphs from one generator state with mid-range parameters.",
     ["dhg/random/graphs/graph.py", "dhg/random/hypergraphs/hypergraph.py"], [("rejection sampling and duplicate checks", "dhg/random")], [], ["returned structures", "number of draws"])
prop("C10", "Random dropping removes only what it should, and nothing permanently",
     "Randomly dropping edges or hyperedges returns a structure on the same vertices whose edges are some of the original's with unchanged weights (other groups and the extra self-loops untouched), and leaves the original unchanged; message-path dropout removes whole paths without rescaling and only for that call. "
     "Whatever the random source returns, rate zero drops nothing and rate one drops everything, and in between each edge is dropped independently with the given probability.",
     ["histories", "inputs"],
     "every outcome of the random source, every rate in [0, 1], at any point of a history of edits and queries",
     "The tests only check that fewer edges remain at one mid-range rate.",
     S + ["dhg/utils/sparse.py"], [("per-edge draw", "drop_edges, drop_hyperedges, drop_hyperedges_of_group"), ("Bernoulli mask over path values", "sparse_dropout")],
     [], ["dropped and original structure", "message-passing results"])
prop("C11", "Dataset splits and negative samples are sound for every random source",
     "Whatever the random source returns, random splits put no vertex or interaction in two parts, take per class (or per user) exactly the promised number or ratio, leave the remainder to the test part when no test size is given, and do not alter the labels or graph they are given. "
     "A sampled negative item is never one of the user's known items, sampled positives always are, and test rows mask exactly the training items and mark exactly the true items. Under a fair source every vertex of a class, item of a user and unknown item is equally likely to be drawn; a negative that does not exist is refused.",
     ["inputs", "histories"],
     "every outcome of the random source and every label vector, bipartite graph and size combination",
     "The tests split one dataset and check sums; overlap and off-by-one errors depend on the class sizes and the shuffles.",
     ["dhg/utils/dataset_split.py", "dhg/utils/dataset_wrapers.py"], [("shuffle then slice per class or user", "dhg/utils/dataset_split.py"), ("rejection sampling of negatives", "sample_neg_item")],
     [], ["masks, lists and samples returned"])
prop("C12", "Evaluators: an epoch's result depends only on that epoch's samples",
     "For batch-wise evaluation, the epoch result equals the mean over all samples added since the previous epoch result, however they were cut into batches and ordered, and however validation and test batches, other evaluators and failed batches were interleaved. "
     "A batch that is rejected contributes nothing, asking again without new batches returns the same result, and a result already returned never changes.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaving of validation and test epochs of several evaluators, every cut into batches, with rejected batches in between",
     "The tests run one epoch with one or two batches.",
     ["dhg/metrics/base.py", "dhg/metrics/recommender.py", "dhg/metrics/retrieval.py"], [("per-epoch accumulators", "validate_add_batch, test_add_batch"), ("clear on epoch result", "validate_epoch_res, test_epoch_res")],
     [("accumulators", "batches of the running epoch", "validate_res, test_res_dict")], ["epoch results"])
prop("C13", "An experiment ends with the model, structure and score of its best epoch",
     "When a hyper-parameter experiment finishes, its best score is the best validation score of the best completed trial in the requested direction, its best model has exactly the parameters at an epoch with that score, and its best structure is the one that trial used (none, if the experiment has none), whatever scores were tied, infinite or NaN, whatever trials were pruned, failed or cut off by the time limit, and however the clock jumps. "
     "Every completed trial trains and validates the requested number of epochs, the final test result is computed with that model and structure, the log tells that result, and the seed it logs is the one its search used.",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of validation scores, pruning decisions, clock jumps, trial counts and directions",
     "The tests do not run the experiment module at all.",
     ["dhg/experiments/base.py", "dhg/experiments/vertex_classification.py", "dhg/experiments/recommender.py"],
     [("deep copy of the best model per trial", "BaseTask.experiment"), ("reload of the best trial's files", "BaseTask.run")], [("best_score, best_model", "best epoch so far", "dhg/experiments/base.py")], ["best_model, best_structure, best_trial", "files of the study"])
prop("C14", "An experiment's directory is never mixed with another run's",
     "A finished experiment leaves in its cache exactly its best trial's model and structure (if it has one), a rerun with overwriting starts from an empty study, a rerun without it keeps the earlier log, studies without a name never share a directory, and leftovers of a crashed or failed run, or another experiment running in the same process (also with the same data object), never end up in this experiment's results, log or directory. "
     "An experiment whose model or structure files cannot be written or read raises an error instead of finishing with other content.",
     ["crash_points", "fault_sequences", "schedules"],
     "every crash point in an earlier run, disk errors at any file operation, and interleavings of two experiments",
     "The tests do not run the experiment module at all.",
     ["dhg/experiments/base.py"], [("removal of other trials' files", "_remove_cached_data"), ("study directory recreated", "BaseTask.__init__")], [("study directory", "log.txt and cache files", "study_root")], ["study directory", "best model and structure"])
prop("C15", "Everything printed after enabling the log file reaches terminal and file",
     "After printed output is redirected to terminal and file, every piece of text printed by any thread appears on both, unchanged and in the order written, appended after what the file already held, and is in the file as soon as the write has returned, so that a crash right after it loses nothing. "
     "Enabling it again for another file keeps feeding both files.",
     ["schedules", "crash_points", "histories"],
     "every interleaving of writers, every crash point between writes, repeated activation",
     "The tests print one line and read the file in the same process.",
     ["dhg/utils/logging.py"], [("tee with flush on every write", "simple_stdout2file")], [], ["terminal stream", "file content after a crash"])
prop("C16", "Evaluating a model is free of side effects and of chance",
     "In evaluation mode, the output of every model in the library depends only on its parameters, its input features and the structure's current content: not on the state of the random generators, on earlier forward passes, or on other threads evaluating it at the same time. "
     "(HyperGCN, whose definition draws a random projection of the hyperedges, may also depend on the generators, and with its fast mode on the first structure it saw.) Evaluating changes neither the model's parameters and buffers, nor the inputs, nor the structure.",
     ["schedules", "histories"],
     "every history of training and evaluation passes with different inputs and structures, every random state, and every interleaving of concurrent evaluations",
     "The tests call each model once.",
     ["dhg/models/graphs/gcn.py", "dhg/models/graphs/gat.py", "dhg/models/graphs/gin.py", "dhg/models/graphs/graphsage.py", "dhg/models/hypergraphs/hgnn.py", "dhg/models/hypergraphs/hgnnp.py", "dhg/models/hypergraphs/hnhn.py", "dhg/models/hypergraphs/hypergcn.py", "dhg/models/hypergraphs/unignn.py"],
     [("dropout and sampling only in training mode", "dhg/models, dhg/nn")], [], ["outputs", "state dict", "inputs"])
prop("C17", "Layouts always finish with finite, distinct-vertex coordinates",
     "Whatever the random source returns for the initial positions, including coincident or collinear ones, laying out or drawing any graph, directed graph, bipartite graph or hypergraph finishes within its fixed number of steps and gives one finite two-dimensional position per vertex, without changing the structure; vertices get distinct positions once the random source is fair, the attraction acts between the endpoints of the structure's own edges and on no other vertex, and the centre of each vertex set of a bipartite graph pulls exactly the vertices of that set.",
     ["inputs", "schedules"],
     "every initial placement the random source can produce, every structure including edgeless and single-vertex ones",
     "The tests draw a few fixed examples and look at nothing numeric.",
     ["dhg/visualization/structure/layout.py", "dhg/visualization/structure/simulator.py", "dhg/visualization/structure/utils.py"],
     [("guarded division", "safe_div"), ("bounded iteration and damping", "Simulator")], [], ["positions returned"])
prop("C18", "Conversions between structure kinds follow the current content",
     "Converting between kinds (star, clique and random-projection expansions of a hypergraph, hypergraphs built or extended from graphs, k-hop neighbourhoods, bipartite graphs and nearest neighbours in a feature matrix, bipartite graphs from hypergraphs, graphs from adjacency lists and feature matrices), at any point of a history of edits and queries and from several threads at once, gives exactly the edges and weights the documentation defines for the source's content at that moment (for coinciding features: a valid choice of nearest neighbours, with the centre included or left out as asked), leaves the source unchanged, and the result is independent of it afterwards.",
     ["histories", "fault_sequences"],
     "every point in every history of edits and queries of the source, whatever is cached, with allocation failures in between",
     "The tests convert freshly built structures.",
     S, [("conversion constructors", "from_hypergraph_*, from_graph*, from_bigraph, from_hypergraph, add_hyperedges_from_*")], [], ["converted structure", "source structure"])
prop("C19", "Ranking and classification metrics compute their published formulas",
     "Every metric returns the value of its published definition for the given labels and predictions.",
     ["inputs"], "all label and prediction tensors", "Tests sample a few tensors.",
     ["dhg/metrics/classification.py", "dhg/metrics/recommender.py", "dhg/metrics/retrieval.py"], [("tensor formulas", "dhg/metrics")])
prop("C20", "Layers are equivariant to relabelling the vertices",
     "Relabelling the vertices of features and structure alike relabels the output of every layer and model in the same way and changes nothing else.",
     ["inputs"], "all permutations, structures and features", "No test relabels.", ["dhg/nn/convs/graphs/gcn_conv.py", "dhg/nn/convs/hypergraphs/hgnn_conv.py"], [("message passing", "dhg/nn")])
prop("C21", "Normalisation and tensor-conversion pipes compute their definitions",
     "Row, min-max and feature normalisations and the tensor conversions return the documented values for every numeric, sparse or nested input.",
     ["inputs"], "all inputs", "Tests use fixed matrices.", ["dhg/datapipe/normalize.py", "dhg/datapipe/common.py"], [("pure functions", "dhg/datapipe")])
prop("C22", "Edge-list, adjacency and remapping helpers are mutually inverse",
     "Converting between edge lists, adjacency lists and adjacency dictionaries and remapping identifiers loses and invents no edge.",
     ["inputs"], "all edge lists", "Tests use fixed lists.", ["dhg/utils/structure.py"], [("pure functions", "dhg/utils/structure.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    for fn in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print("missing", p["id"], fn)
