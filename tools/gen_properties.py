#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Training results do not depend on scheduling, clock, entropy or memory contents",
  "For a fixed dataset and configuration, training produces bit-for-bit the same model, with the same running "
  "predictions after every round, whatever the number of worker threads, the interleaving of their work, the clock, "
  "the operating system's entropy and the previous contents of the memory it is handed. Training the same inputs "
  "again in the same process, or at the same time as other trainings, changes nothing either.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every valid dataset and configuration, every worker count, every interleaving of the histogram workers and of "
  "concurrent trainings, every clock behaviour, entropy stream and initial heap content",
  "No existing test trains a model at all, and none runs more than one thread; a test would sample whichever "
  "interleaving the machine happens to produce.",
  ["src/tree/learner.rs", "src/boost.rs", "src/dataset.rs", "src/slice_store.rs", "src/objective.rs"],
  [("parallel histogram construction with a lock around the shared store", "src/tree/learner.rs build_histograms!"),
   ("seeded generator for bagging and feature sampling", "src/dataset.rs InnerDataset::new"),
   ("slices re-initialised when allocated or reused", "src/slice_store.rs SliceStore::alloc_slice")],
  observe=["AdditiveTree::predict", "Metric::eval (running predictions)"])

p("C02", "Every split made is the best admissible candidate, and none is missed",
  "In every tree learned, each internal node separates the in-bag examples that reach it exactly as one of the "
  "candidate splits of the features active for that tree does and sends every other example the way that candidate "
  "does, leaving at least the configured minimum number of in-bag examples (and at least one) on both sides; its loss reduction, computed from the discretised gradients of exactly those examples, "
  "exceeds the configured minimum gain and is not exceeded by any other admissible candidate (up to float rounding). "
  "A node above the maximum depth stays a leaf only when no admissible candidate exceeds the minimum gain, and no "
  "node lies deeper than the maximum depth.",
  ["schedules", "inputs", "configurations", "histories"],
  "every node of every tree of every boosting run, for every valid dataset and configuration (gradient widths 1/2/4/8, "
  "compressed and uncompressed nodes, with and without bagging), under every interleaving of the histogram workers",
  "The existing tests check bit kernels and candidate sets in isolation on a few inputs; none grows a tree, so "
  "histogram derivation, compression and split selection are never compared with anything.",
  ["src/tree/learner.rs", "src/slice_store.rs", "src/simd.rs", "src/dataset.rs"],
  [("best-split scan over the node's histograms", "src/tree/learner.rs find_best_split"),
   ("left histogram built, right histogram derived by subtraction", "src/tree/learner.rs get_left_right_n2s"),
   ("compression of sparse nodes", "src/tree/learner.rs compress_examples!")],
  observe=["Tree::node_value", "Objective::predict_leaf_value"])

p("C03", "Every leaf value comes from exactly the examples that belong to the leaf",
  "In every tree learned, each in-bag training example belongs to exactly one leaf, which is the leaf the finished "
  "tree assigns to that example when it predicts. The value stored in a leaf is the learning rate times the "
  "objective's estimate over exactly those examples and their predictions before this tree: mean residual for "
  "squared loss, binned median residual for absolute loss, its Huber correction, the Newton step for binary log loss "
  "and the mean signed squared margin violation for hinge.",
  ["schedules", "inputs", "configurations", "histories"],
  "every leaf of every tree of every boosting run with each of the five objectives, bagged or not, under every "
  "interleaving of the histogram workers",
  "No existing test grows a tree or evaluates an objective.",
  ["src/tree/learner.rs", "src/objective.rs", "src/tree/tree.rs", "src/slice_store.rs"],
  [("leaf example extraction for leaves and for children at maximum depth", "src/tree/learner.rs predict_leaf_value, predict_child_leaf_values"),
   ("leaf estimates", "src/objective.rs predict_leaf_value")],
  observe=["Objective::predict_leaf_value", "Tree::predict_single"])

p("C04", "The trained model reproduces the predictions tracked during training",
  "After every boosting round, the running prediction that training holds for each training example, inside or "
  "outside the bag of that round, equals (up to float rounding) what the ensemble built so far predicts for that "
  "example, and these running predictions are what each configured metric is evaluated on, once per metric and "
  "every metric-frequency rounds. The finished ensemble contains exactly one tree per configured iteration on top of "
  "the objective's bias.",
  ["schedules", "inputs", "configurations", "histories"],
  "every round of every training run with any objective, bagging, feature sampling and feature types, under every "
  "interleaving of the workers",
  "No existing test trains a model, so the bit-set routing used in training and the comparison routing used in "
  "prediction are never compared.",
  ["src/boost.rs", "src/tree/tree.rs", "src/tree/learner.rs", "src/objective.rs", "src/dataset.rs"],
  [("in-bag predictions updated with the leaf value", "src/objective.rs update_predictions"),
   ("out-of-bag predictions updated by routing", "src/tree/learner.rs predict_out_of_bag_examples"),
   ("prediction", "src/tree/tree.rs predict_leaf_id_of_example")],
  observe=["Metric::eval", "AdditiveTree::predict"])

p("C05", "Training and prediction always run to completion",
  "For every valid dataset and configuration (with a learning rate at which the objective's steps do not diverge), "
  "training and prediction finish with finite results and without panic, "
  "deadlock or endless work, whatever the number of workers, the fair interleaving of their work, spurious wake-ups "
  "and the number of concurrent callers. This includes degenerate data and settings: constant columns, a constant or "
  "exactly fitted target, a target with a single class, one example, bags of a single example, categorical columns "
  "with more categories than bins, and no minimum leaf size.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every valid dataset and configuration, every worker count, every fair schedule with spurious futex wake-ups and "
  "clock jumps, several trainings at once",
  "No existing test trains; liveness under all interleavings cannot be sampled by a handful of runs.",
  ["src/boost.rs", "src/tree/learner.rs", "src/dataset.rs", "src/binner.rs", "src/slice_store.rs", "src/objective.rs"],
  [("one lock, held only to store a result", "src/tree/learner.rs build_histograms!"),
   ("quantile estimation over fixed bins", "src/binner.rs")],
  observe=["return of bb_train / Booster::train", "AdditiveTree::predict"])

p("C06", "Contexts used concurrently do not affect each other",
  "When several threads of a process each configure, fill, train, predict with and release contexts of their own "
  "through the C interface at the same time, every call returns the status, and every prediction buffer receives the "
  "values, that the same thread's calls give when run alone. This holds under every interleaving of the threads and "
  "of the shared worker pool.",
  ["schedules", "histories", "inputs"],
  "every set of per-thread call histories over distinct contexts and every interleaving of them",
  "No existing test touches the C interface or runs two threads.",
  ["src/c_api.rs", "src/boost.rs", "src/tree/learner.rs"],
  [("no state outside the context", "src/c_api.rs Context"),
   ("worker closures borrow only their own training's stores", "src/tree/learner.rs build_histograms!")],
  observe=["return codes and result buffers of the C functions"])

p("C07", "A failed C call reports failure, harms nothing and allows correct use after",
  "A C interface call that cannot be carried out (invalid argument or value, NULL where memory is needed, wrong order of "
  "calls, unknown name, an allocation of the context or of the engine's block or histogram buffers that fails, or standard output that cannot be written) "
  "returns -1 (NULL for allocation of a context), never unwinds into or terminates the caller, and never reports "
  "success without having done its work. The context is left exactly as before the call: the data, configuration and "
  "model in place are still there, and every later call behaves as if the failed call had not been made. Releasing a "
  "context always succeeds, whatever failed before.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every history of C calls, valid and invalid, with every placement of allocation and standard-output failures",
  "No existing test calls the C interface; fault placement inside calls is out of reach of tests.",
  ["src/c_api.rs", "src/data.rs", "src/config.rs", "src/slice_store.rs"],
  [("panics turned into status codes", "src/c_api.rs wrap_catch_unwind!"),
   ("column stored only after validation", "src/data.rs set_feature_data"),
   ("model replaced only when training returns", "src/c_api.rs bb_train")],
  observe=["return codes and result buffers of the C functions"])

p("C08", "A model depends only on current configuration and data, not history or route",
  "Training and prediction through a context depend only on the last successfully set configuration values and on the "
  "last data set for each column since the last refresh, not on earlier data, earlier models, repeated or reordered "
  "calls, or how often training was run. The same configuration and values give the same predictions whether they "
  "arrive through the C interface, through a CSV file, or through the command line program.",
  ["histories", "inputs", "configurations"],
  "every history of successful C calls that ends in the same configuration and data, and every delivery route",
  "Existing tests load tiny CSV strings and never train; no test runs two histories and compares them.",
  ["src/c_api.rs", "src/data.rs", "src/bin/run.rs", "src/config.rs"],
  [("data replaced on refresh", "src/c_api.rs bb_refresh_data"),
   ("column limits, cardinality and type recomputed when a column is set", "src/data.rs set_feature_data"),
   ("CSV ingestion", "src/data.rs from_csv")],
  observe=["bb_predict buffer", "AdditiveTree::predict", "boost_and_predict_raw output"])

p("C09", "No history of calls corrupts or leaks memory",
  "Under every history of C calls, valid or failing, with allocation failures of the engine's buffers and "
  "standard-output failures at any point, the engine never writes outside the memory it owns or the caller's buffers "
  "(result buffers of exactly one value per example), never touches memory after releasing it and never releases it "
  "twice. Once every context has been released, repeating the same history any number of times does not increase the "
  "memory in use.",
  ["histories", "fault_sequences", "schedules"],
  "every history of C calls with faults at every allocation and output point",
  "Tests run without canaries, guard pages or injected failures and never create a context.",
  ["src/c_api.rs", "src/slice_store.rs", "src/simd.rs", "src/tree/learner.rs"],
  [("manual allocation and release of the context", "src/c_api.rs Context::alloc/dealloc"),
   ("raw buffer of the slice store", "src/slice_store.rs SliceStore")],
  observe=["heap canaries, guard pages and live-allocation counts of the simulated heap"])

p("C10", "Slices handed out by a store are disjoint, initialised, aligned and stable",
  "Under every history of allocate, write, free and reset operations on a slice store, bit-block store or histogram "
  "store, every slice handed out has the requested length and the store's alignment, overlaps no other live slice, "
  "starts with the requested initial value in every element, and keeps the last value written to each element until "
  "it is freed, across growth of the store, reuse of freed space and failed growth. A failed growth leaves all live "
  "slices intact and the store usable.",
  ["histories", "fault_sequences"],
  "every operation history on the stores, with allocation failures and moving reallocation at any growth",
  "The existing tests do a few allocations in one order, never grow under failure and never reuse a shortened slice.",
  ["src/slice_store.rs"],
  [("free list with full slice ends", "src/slice_store.rs alloc_slice, free_slice"),
   ("growth by reallocation", "src/slice_store.rs resize")],
  state=[("free / slice_ends", "reusable ranges and the full length of each slice", "src/slice_store.rs SliceStore")],
  observe=["get_slice / get_bitvec / get_hist contents"])

p("C11", "CSV ingestion returns exactly the delivered table or an error",
  "Loading a CSV source returns either a dataset whose values, column types, limits, category counts and names are "
  "exactly those of the bytes the source delivered, or an error; no content and no fault of the source makes it panic. Short and "
  "interrupted reads do not change the result, and a read or open error, invalid UTF-8, a record with a missing, extra or unparsable field, an "
  "invalid category (a negative, fractional or infinite one, or one of 2^32 or more) or a table without records is always reported as an error.",
  ["fault_sequences", "inputs", "crash_points"],
  "every table, every chunking of it, and every placement of read errors, interruptions, truncation and byte "
  "corruption in the source",
  "The existing tests parse two well-formed strings held in memory.",
  ["src/data.rs"],
  [("whole source read before parsing", "src/data.rs from_csv_reader"),
   ("every field parsed or rejected", "src/data.rs from_csv")],
  observe=["Data accessors", "returned error"])

p("C12", "Configuration export is complete whenever it reports success",
  "Exporting the configuration table to a writer, or with the export program to a file, reports success only if every "
  "byte of the table reached the writer; short and interrupted writes do not change the bytes and a failing write is "
  "always reported. The exported table names every configuration field once with its type and its default, which "
  "in Python notation (True, False, a list in brackets) stands for the value the field has when nothing is set.",
  ["fault_sequences", "crash_points"],
  "every placement of short writes, interruptions and write, open or full-disk errors",
  "No existing test exports the table; failing writers are never simulated.",
  ["src/config.rs", "src/bin/bitboost_gen_config_csv.rs"],
  [("errors of the writer propagated", "src/config.rs write_doc_csv"),
   ("errors turned into a failing exit status", "src/bin/bitboost_gen_config_csv.rs main")],
  observe=["bytes received by the writer", "exit status"])

p("C13", "The command line program exits with 0 only after complete, correct output",
  "The command line trainer exits with status 0 only if the training file and, when one is given, the test file were "
  "read completely and everything it had to print was written; otherwise it exits with a non-zero status. When it "
  "exits with 0 its output, apart from timings, is the one of an undisturbed run, whatever short or interrupted reads "
  "and writes, clock jumps and worker interleavings occurred; and in the mode that prints raw predictions there is one "
  "number per training example and per test example.",
  ["fault_sequences", "crash_points", "schedules", "configurations"],
  "every command line mode, every placement of I/O errors on the data files and standard output, every schedule",
  "No existing test runs the program.",
  ["src/bin/run.rs", "src/data.rs", "src/boost.rs"],
  [("errors returned from main", "src/bin/run.rs main, load_data")],
  observe=["exit status", "standard output"])

p("C14", "The Python wrapper never hides a failure of the engine",
  "Whenever an engine call made by the Python wrapper reports failure, the wrapper method that made it raises an "
  "exception instead of returning normally, so that no prediction, trained model, data set or option change is "
  "reported that the engine did not carry out; when every engine call of a well-formed request succeeds, no exception is "
  "raised and predictions are those of the engine for exactly the values, options and data given, and a returned array is not changed by later calls. Arrays of the wrong "
  "type or length and unknown options are refused. After a failed call the wrapper object can still be released exactly "
  "once.",
  ["fault_sequences", "histories"],
  "every history of wrapper calls with a failure reported by any subset of the underlying engine calls",
  "The repository has no Python tests.",
  ["python/bitboost/bitboost.py"],
  [("status codes of the foreign functions", "python/bitboost/bitboost.py RawBitBoost")],
  observe=["exceptions and return values of RawBitBoost methods"])

p("C15", "Bags and feature samples have the right size and members and change on time",
  "With an example or feature fraction below one, each sampling draws exactly the rounded fraction of distinct, valid "
  "examples and useful features, reported in increasing order, and the out-of-bag examples are exactly the remaining "
  "ones. Samples are redrawn at the first round and then at every round whose number is a multiple of the sampling "
  "frequency, and stay fixed in between; without sampling every example and every useful feature is used. The sequence "
  "of samples is determined by the configured seed alone, differs between seeds, and over many rounds draws "
  "every example and every useful feature about as often as the configured fraction says.",
  ["histories", "configurations", "schedules"],
  "every update history, dataset size, fraction, frequency and seed, whatever the clock, entropy and heap contents",
  "One existing test looks at a single draw for one seed.",
  ["src/dataset.rs"],
  [("partial shuffle with the seeded generator", "src/dataset.rs shuffle_first_k"),
   ("complement of the sorted bag", "src/dataset.rs InactiveExampleIter")],
  observe=["Dataset::active_examples_iter", "Dataset::inactive_examples_iter", "Dataset::active_features"])

p("C16", "Candidate splits describe the current bag's raw data exactly",
  "After every dataset update, the example set stored for each candidate split of each active feature contains "
  "exactly the in-bag examples whose raw value satisfies it: value equal to the category, below the threshold, or in "
  "one of the categories grouped up to that rank; bits beyond the bag are zero. Categories are grouped so that one "
  "with a higher mean gradient over the bag is never placed in a lower group, candidate thresholds of a numerical "
  "feature are non-decreasing and lie within its value range, and no feature offers more candidates than the "
  "configured maximum.",
  ["histories", "inputs", "configurations"],
  "every sequence of dataset updates (changing bags and gradients over reused buffers) on every dataset, whatever the "
  "initial heap contents",
  "The existing tests look at a handful of datasets after a single update without bagging for these features.",
  ["src/dataset.rs", "src/binner.rs", "src/slice_store.rs"],
  [("bit sets zeroed, filled and accumulated per update", "src/dataset.rs update_locard_cat, update_hicard_cat, update_num"),
   ("quantile sketch", "src/binner.rs")],
  observe=["Dataset::get_bitvec", "Dataset::get_split_value", "Dataset::get_supercats"])

# ---- properties this family cannot decide
p("C17", "Bit-parallel counting and summing kernels equal their scalar definition",
  "Counting and gradient-summing over bit sets, masked or compressed, gives the value of the obvious per-element loop "
  "for every content, width and length.",
  ["inputs"], "every bit set, mask, index list, width and length",
  "Tests compare a few lengths and random contents.",
  ["src/simd.rs", "src/count_and_sum.rs", "src/bitslice.rs", "src/bitset.rs"],
  [("Harley-Seal and shuffle based popcounts", "src/simd.rs")])
p("C18", "Configuration parsing accepts exactly the documented values",
  "Parsing a configuration line sets exactly the named field to the value written, or reports an error for unknown "
  "names and malformed values.",
  ["inputs"], "every name and value text", "One test parses three lines.",
  ["src/config.rs"], [("generated parser", "src/config.rs parse_config!")])
p("C19", "Metrics equal their textbook formulas",
  "Each metric returns the textbook value of its formula on the targets and predictions given.",
  ["inputs"], "every pair of target and prediction vectors", "No test evaluates a metric.",
  ["src/metric.rs"], [("metric formulas", "src/metric.rs")])
p("C20", "The quantile sketch returns the bin that contains the requested rank",
  "For every content of the sketch and every sequence of increasing ranks, the bin returned is the first one whose "
  "cumulative weight exceeds the rank.",
  ["inputs"], "every content and rank sequence", "One test with four bins.",
  ["src/binner.rs"], [("rank iterator", "src/binner.rs RankIter")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
