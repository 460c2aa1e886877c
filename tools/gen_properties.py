"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
CFM = "featuretools/computational_backends/calculate_feature_matrix.py"
CBU = "featuretools/computational_backends/utils.py"
FSC = "featuretools/computational_backends/feature_set_calculator.py"
FS = "featuretools/computational_backends/feature_set.py"
ES = "featuretools/entityset/entityset.py"
EN = "featuretools/entityset/entity.py"
SER = "featuretools/entityset/serialize.py"
DES = "featuretools/entityset/deserialize.py"
REL = "featuretools/entityset/relationship.py"
S3 = "featuretools/utils/s3_utils.py"
EP = "featuretools/utils/entry_point.py"
DFS = "featuretools/synthesis/dfs.py"
DEEP = "featuretools/synthesis/deep_feature_synthesis.py"
FSR = "featuretools/feature_base/features_serializer.py"
FDS = "featuretools/feature_base/features_deserializer.py"
FB = "featuretools/feature_base/feature_base.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "Parallel feature matrices equal serial ones under any schedule",
     "A feature matrix computed on a cluster of any number of workers equals the one computed serially in one chunk: "
     "the same values, index and columns, exactly one row per requested (instance, cutoff time) in the order of the cutoff input, and pass-through columns attached to their own rows. "
     "This holds for every chunk size and worker count, whatever order chunks finish in and however results are batched, and when a worker is slow, dies mid-chunk, or a chunk is run twice.",
     ["schedules", "fault_sequences", "configurations", "inputs"],
     "for every entityset, feature list, cutoff table, chunk size, worker count, completion order, result batching and set of worker deaths / duplicate executions",
     "The tests run a handful of real LocalClusters on one dataset and see whatever single schedule the OS produced; no worker ever dies, no chunk is ever rerun, and completion order is never varied.",
     [CFM, CBU, FS, FSC],
     [("chunking and mapping of cutoff rows to tasks", CFM + ":parallel_calculate_chunks,_chunk_dataframe_groups,_handle_chunk_size"),
      ("re-establishing input order after out-of-order completion", CFM + ":calculate_feature_matrix (reindex)"),
      ("one-shot scatter of entityset and pickled features", CFM + ":parallel_calculate_chunks")],
     ["return value of calculate_feature_matrix / dfs"],
     [("worker copy of the EntitySet", "unpickled once per worker and shared by all chunks that run there", CFM + ":calculate_chunk")])

prop("P02", "A failed distributed run raises, releases what it owns and can be retried",
     "If starting the cluster, connecting, publishing, scattering, computing any chunk, gathering or a progress callback fails, the call raises that failure and never returns a partial matrix. "
     "On every exit, successful or not, the client it opened is closed exactly when done, a cluster it started is closed, and a cluster supplied by the caller is left running. "
     "The caller's arguments are left as they were, so that repeating the same call after the fault gives the result of an undisturbed run.",
     ["fault_sequences", "schedules", "configurations"],
     "for every point at which the cluster API or a chunk can fail, every schedule leading there, and every cluster configuration",
     "Tests only fail cluster start-up through two mocks; failures after scatter, in the middle of gathering, or after several batches are never produced, and closing is never observed.",
     [CFM, CBU],
     [("try/finally around the distributed section", CFM + ":parallel_calculate_chunks"),
      ("ownership rule for clusters", CBU + ":create_client_and_cluster"),
      ("worker memory validation", CBU + ":create_client_and_cluster")],
     ["exception seen by the caller", "state of client and cluster objects after the call", "caller's dask_kwargs"])

prop("P03", "An EntitySet persisted on a shared cluster is reused and never mixed up",
     "When several calls, one after another or concurrently from different clients, share one long-lived cluster, each call returns the values of its own EntitySet: data persisted for an EntitySet with a different id or structure is never used. "
     "An EntitySet already persisted on the cluster is not transferred to it again, and concurrent first uses of the same EntitySet all succeed.",
     ["schedules", "histories"],
     "for every sequence and interleaving of calls from several clients with equal, renamed and restructured EntitySets on one cluster",
     "One test makes two sequential calls with the same EntitySet; two clients publishing at once and look-alike EntitySets are never combined.",
     [CFM, ES],
     [("metadata token naming the persisted dataset", ES + ":EntitySet.__dask_tokenize__, metadata"),
      ("publish/reuse protocol", CFM + ":parallel_calculate_chunks"),
      ("metadata cache invalidation", ES + ":EntitySet.reset_data_description")],
     ["matrices returned to each client", "datasets transferred to the cluster"],
     [("published datasets", "name -> future kept on the scheduler between calls", CFM)])

prop("P04", "Saved progress is complete, exact and survives crashes and disk faults",
     "With save_progress set and a table of cutoff times, at any crash or disk fault every final-named file in the directory is a complete CSV holding exactly the values of a finished part of the matrix: never a torn, partial or mixed one. "
     "When the call returns, the files together contain every requested row - parts of different cutoff times or chunks, serial or parallel, never overwrite one another - the temporary directory is gone and the returned matrix is the one obtained without saving. "
     "A disk error raises instead of silently losing a part, and rerunning the call over the leftovers of a crashed run succeeds.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "for every crash point and failing disk operation in every run, every interleaving of workers sharing the directory, and every cutoff table",
     "One test saves 17 distinct morning times serially without faults; crashes, disk errors, equal or afternoon times, chunks and parallel workers are not exercised.",
     [CBU, CFM],
     [("write to temp/ then rename", CBU + ":save_csv_decorator"),
      ("cleanup of temp/", CFM + ":calculate_feature_matrix")],
     ["files under the save_progress directory", "returned matrix"],
     [("progress directory", "one CSV per computed part plus temp/", CBU)])

prop("P05", "Live features equal later backfills: nothing after the cutoff leaks in",
     "The matrix computed live at time t on the data recorded so far (cutoff time omitted, so the clock decides, or given as t) equals, value for value, the matrix backfilled at any later time with cutoff time t on the grown history, for every instance known at t. "
     "Rows recorded after the cutoff (or exactly at it when include_cutoff_time=False), in any entity on the path, and columns governed by a secondary time index that had not yet passed, never influence a value. "
     "Every value is the one obtained by applying the feature's definition to just the visible rows, and an instance not visible at t gets the features' default values.",
     ["histories", "inputs", "configurations"],
     "for every event history, every scoring moment, every clock reading, every feature over every entity topology",
     "Tests check selected primitives at a few cutoffs on a fixed dataset; they never compare a live run against a later backfill, nor vary late, tied and out-of-order arrivals.",
     [ES, FSC, CFM, FS],
     [("visibility filter", ES + ":EntitySet._handle_time, query_by_values"),
      ("per-cutoff calculation", CFM + ":calculate_chunk"),
      ("feature evaluation over filtered frames", FSC + ":FeatureSetCalculator")],
     ["values returned by calculate_feature_matrix / dfs"])

prop("P06", "Training windows bound what is needed: expired history can be dropped",
     "With a training window w, a value at cutoff t depends only on rows whose time - or, once last time indexes are computed, whose last activity through any chain of children - lies inside the window (t-w, t], or [t-w, t) when include_cutoff_time=False. "
     "Deleting all rows outside the window before computing, as a retention job would, or adding any such rows, changes nothing, whatever the unit the window is given in. "
     "Last time indexes stay equal to the latest time of the row and its descendants after any sequence of updates.",
     ["histories", "inputs", "configurations"],
     "for every event history, retention schedule, window, unit and entity topology",
     "Tests use one dataset and three or four windows with fixed expected numbers; boundary ties, multi-level activity and retention are not varied.",
     [ES, EN, FSC],
     [("window mask with last-time-index retention", ES + ":EntitySet._handle_time"),
      ("bottom-up last activity computation", ES + ":EntitySet.add_last_time_indexes"),
      ("refresh on update", EN + ":Entity.update_data")],
     ["values returned by calculate_feature_matrix", "Entity.last_time_index"])

prop("P07", "Approximation only ever uses the value at the start of its time bucket",
     "With approximate=b, a requested direct feature of an aggregation takes exactly the value that aggregation has at the cutoff time rounded down to a multiple of b. Features computed from that aggregation of the related instance see the same value; all other features keep their exact value at the true cutoff time. "
     "The result is independent of the current clock, of chunking, of parallelism and of which other rows are requested, and keeps one row per requested (instance, time) in input order with pass-through columns.",
     ["inputs", "configurations", "schedules"],
     "for every clock reading at run time, bucket width and unit, cutoff table, chunking and schedule",
     "Tests cover a few fixed cutoffs and never vary the wall clock, so values that silently depend on 'now' or on other rows in the bucket go unnoticed.",
     [CFM, CBU, FS, FSC],
     [("bucketing", CBU + ":bin_cutoff_times,datetime_round"),
      ("choice of approximated features", CBU + ":gather_approximate_features"),
      ("precalculated merge", CFM + ":approximate_features, " + FSC + ":_calculate_features_for_entity")],
     ["values returned by calculate_feature_matrix"])

prop("P08", "A stored EntitySet reads back whole or not at all",
     "After to_csv, to_pickle or to_parquet returns, reading the location gives an EntitySet equal in data, types, time indexes, relationships and interesting values to the one written, on any later day and in any process. "
     "If a write - the first one or one that overwrites an older EntitySet - crashes or hits a disk error at any operation, the call raises and a later read either fails or returns entirely the old or entirely the new EntitySet, never a mixture or a truncated one. "
     "Reading does not modify the store, a failed read leaves nothing behind, and rewriting after a failure succeeds.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "for every crash point and failing disk operation of every write/overwrite/read sequence, in every format, over every entityset",
     "Tests round-trip one dataset into empty directories on a disk that never fails.",
     [SER, DES, ES],
     [("data first, description last", SER + ":dump_data_description"),
      ("description-driven loading", DES + ":read_entityset,description_to_entityset,read_entity_data")],
     ["EntitySet returned by read_entityset", "files on disk"],
     [("data_description.json", "commit record of a stored EntitySet", SER)])

prop("P09", "Dask-backed EntitySets give the Pandas result under any task schedule",
     "A feature matrix computed from an EntitySet of Dask dataframes and then materialised equals the one computed from the same data in Pandas dataframes, matched by instance (row order is not kept, and instances absent at their cutoff time have no row or an empty one). "
     "This holds for any partitioning, including empty partitions, and for any execution order, re-execution or re-materialisation of the task graph; last time indexes, queries and the features DFS finds agree too.",
     ["schedules", "inputs", "configurations"],
     "for every partitioning, every topological execution order of the task graph and every set of re-executed tasks",
     "Tests use one partitioning of one dataset and whatever order the threaded scheduler happens to pick.",
     [FSC, ES, EN, CFM],
     [("library-specific aggregation", FSC + ":_calculate_agg_features"),
      ("dask filtering and linking", ES + ":query_by_values,_handle_time,add_last_time_indexes")],
     ["materialised feature matrix"])

prop("P10", "Saved feature definitions reload to the same features or not at all",
     "Features written with save_features and reloaded with load_features, from text, file handle or path, in any process, are the same features in the same order - names, definitions, parameters, dependencies and shared sub-features - compute the same matrix, and save again to an equal document. "
     "If writing fails or the process dies at any disk operation, save_features raises and a later load fails or returns exactly the features of one completed save, never a subset or altered ones. "
     "A failed load can simply be repeated.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every feature list and every crash point, failing or truncated disk operation while saving and loading",
     "Tests round-trip selected features on a fault-free disk and compare reprs; torn files and process changes are absent.",
     [FSR, FDS, FB],
     [("serialisation of the dependency closure", FSR + ":FeaturesSerializer"),
      ("memoised reconstruction", FDS + ":FeaturesDeserializer")],
     ["list returned by load_features", "matrix computed from it"])

prop("P11", "Remote transfers of entitysets and features are all-or-nothing",
     "When an EntitySet or feature list is written to or read from an object store and the transfer is slow, short, dropped, truncated or refused at any point, the call raises, and a later read gives the last completely uploaded object or fails; it never returns partial or mixed content. "
     "A fault-free transfer round-trips exactly under the credentials asked for (profile name, anonymous or default), and temporary local files are removed on success and on failure. "
     "Repeating the operation once the fault is over succeeds.",
     ["fault_sequences", "crash_points", "configurations"],
     "for every fault position in every upload and download, every read/write segmentation and every credential choice",
     "Tests use moto's always-successful in-memory S3; no transfer is ever interrupted and leaked temporary files are not looked for.",
     [S3, SER, DES, FSR, FDS],
     [("staging in a temporary directory and one archive object", SER + ":write_data_description,create_archive"),
      ("stream copy", S3 + ":use_smartopen_es,use_smartopen_features"),
      ("credential selection", S3 + ":get_transport_params")],
     ["object store content", "objects returned by read_entityset/load_features", "temporary directory"])

prop("P12", "Calculations never alter their inputs, even when interrupted",
     "Calculating features or running DFS leaves the EntitySet's data and metadata, the cutoff table, the feature objects and every argument exactly as they were, whether the call returns, raises or is interrupted at any instant by a signal, failing allocation or failing primitive. "
     "After any such interruption, repeating the call gives the result of an undisturbed run.",
     ["crash_points", "fault_sequences", "inputs"],
     "for every instant at which an asynchronous interruption or internal failure can strike, for every input",
     "Tests never interrupt a calculation and check a single input for modification.",
     [CFM, FSC, ES, DFS, CBU],
     [("working on filtered copies", ES + ":query_by_values,_handle_time"),
      ("copying of cutoff tables", CBU + ":_validate_cutoff_time,bin_cutoff_times")],
     ["EntitySet, cutoff table, features and arguments after the call"])

prop("P13", "Concurrent calculations sharing an EntitySet do not disturb each other",
     "Threads that at the same time calculate feature matrices, run DFS or serialise metadata from one shared EntitySet and shared feature objects each get exactly the result they would get alone, in every interleaving. "
     "No interleaving makes a call fail or deadlock that succeeds alone, and the shared EntitySet is unchanged afterwards.",
     ["schedules", "inputs"],
     "for every interleaving of any number of reader threads",
     "No test runs two calculations concurrently.",
     [FSC, CFM, ES, FS, DEEP],
     [("read-only use of shared frames", ES + ":query_by_values"),
      ("lazily cached metadata", ES + ":EntitySet.metadata"),
      ("per-call state in calculators", FSC)],
     ["results per thread", "EntitySet after the run"])

prop("P14", "DFS and feature matrices are reproducible across processes and restarts",
     "The same inputs give the same feature definitions with the same names in the same order, the same matrix with the same column order and the same saved definitions, in every process: independent of hash randomisation, of the wall clock, of what ran earlier in the process and of the order in which keyword options or primitives in a set are given. "
     "Features built in one process can therefore be reloaded in another and line up column for column.",
     ["schedules", "configurations", "inputs", "histories"],
     "for every hash seed, wall clock and prior process history, for every entityset and option set",
     "The test suite runs under one fixed hash seed and never compares two processes.",
     [DEEP, DFS, FS, FSC, FSR, ES],
     [("ordering of generated features", DEEP + ":build_features"),
      ("name-keyed feature sets", FS + ":FeatureSet"),
      ("sorted serialisation", FSR)],
     ["feature list, matrix columns and saved JSON compared between processes"])

prop("P15", "Progress reports are monotone and reach exactly 100 percent",
     "For every completed calculation, progress_callback is told increments that are never negative and sum to 100, with a running percentage that never decreases, never exceeds 100 and ends at 100, and elapsed times that never go back while the clock does not. "
     "This holds serially and in parallel, for every chunking, completion order, worker failure and clock, and requesting progress never changes the matrix; an exception raised by the callback reaches the caller.",
     ["schedules", "configurations", "fault_sequences"],
     "for every chunking, completion order, batching, clock behaviour and feature set",
     "Tests check three fixed runs.",
     [CFM, FSC],
     [("progress accounting", CFM + ":update_progress_callback_parameters, FEATURE_CALCULATION_PERCENTAGE"),
      ("per-feature progress", FSC + ":run")],
     ["arguments of every progress_callback invocation"])

prop("P16", "Third-party hooks see each call once and cannot corrupt it",
     "For each entry-point-wrapped call, every registered hook gets on_call with all arguments once, then exactly one of on_return (with the value returned) or on_error (with the exception raised), in registration order, with the elapsed time; the caller gets that same value or exception. "
     "A hook that edits the arguments it is told of changes neither the call nor what other hooks are told. A third-party initializer or plugin that fails while the package is imported, in any combination and order, never prevents the import nor the loading of the others.",
     ["fault_sequences", "histories", "configurations"],
     "for every set of registered hooks and plugins, every failing subset and every outcome of the wrapped call",
     "Tests register one mock hook and one plugin; combinations with failures at load, init or call are not explored.",
     [EP, "featuretools/__init__.py", DFS],
     [("entry point wrapper", EP + ":entry_point"),
      ("guarded plugin loading", "featuretools/__init__.py")],
     ["hook event log", "result seen by the caller", "import of featuretools"])

prop("P17", "Incremental ingestion converges to loading everything at once",
     "Feeding a history in batches through concat or update_data, with batches reordered, delivered twice or overlapping, with saves and reloads in between, and across crashes after which the last save is read and later batches are delivered again, ends in the same EntitySet - rows, row order, types, last time indexes, relationships - and the same feature matrices as loading all data at once. "
     "Combining EntitySets without inplace leaves both operands untouched.",
     ["histories", "schedules", "crash_points"],
     "for every partition of a history into batches, every delivery order, duplication and restart point",
     "Tests concatenate one split of one dataset, once.",
     [ES, EN, SER, DES],
     [("union with de-duplication and re-sorting", ES + ":EntitySet.concat"),
      ("index, order and last-time refresh", EN + ":Entity.update_data"),
      ("bottom-up last activity", ES + ":add_last_time_indexes")],
     ["EntitySet contents and matrices after ingestion"])

prop("P18", "An EntitySet stays consistent through any history of edits",
     "After any sequence of adding entities and relationships, normalising, updating or concatenating data, adding last time indexes or interesting values, describing, converting and deleting variables other than keys, copying and pickling, the EntitySet agrees with a simple reference: rows sorted by time then index, row labels equal to the index column, columns equal to the variables, relationships typed correctly, normalised entities with first-seen values and times, last time indexes as of the edit that set them. "
     "The metadata property always describes the current state, and features equal those of an EntitySet built at once with the same contents. A refused edit leaves the EntitySet as it was, an edit broken off by an interruption can be repeated with the result of an undisturbed one, and no edit changes its arguments or another EntitySet it was copied or combined from.",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of edits, valid and invalid",
     "Tests apply single edits to one dataset and do not check the other invariants or metadata afterwards.",
     [ES, EN, REL, SER],
     [("entity construction and sorting", EN + ":Entity"),
      ("normalisation", ES + ":normalize_entity"),
      ("metadata cache invalidation", ES + ":reset_data_description")],
     ["public state of the EntitySet after each edit"])

# ------------------------------------------------------------------ not claimed (pure functions)
prop("P30", "Primitives compute their documented formula",
     "Every built-in aggregation and transform primitive returns the documented statistic of the values it is given, for every input series.",
     ["inputs"], "for every input column", "Tests check examples per primitive.",
     ["featuretools/primitives/standard/aggregation_primitives.py", "featuretools/primitives/standard/transform_primitive.py"],
     [("primitive functions", "featuretools/primitives/standard")])
prop("P31", "DFS generates exactly the valid features within its options",
     "DFS returns every feature allowed by the primitives, depth, ignore and option settings and no other, with unique names.",
     ["inputs", "configurations"], "for every entityset and option set", "Tests check selected options.",
     [DEEP], [("search", DEEP)])
prop("P32", "Encoding and selection keep meaning",
     "encode_features and the feature selection functions return a matrix and feature list that agree with each other and, when recalculated, reproduce the encoded values.",
     ["inputs"], "for every matrix", "Tests check fixed matrices.",
     ["featuretools/synthesis/encode_features.py", "featuretools/selection/selection.py"],
     [("encoding", "featuretools/synthesis/encode_features.py")])
prop("P33", "Koalas-backed EntitySets give the Pandas result",
     "A feature matrix computed from Koalas dataframes equals the one computed from Pandas dataframes.",
     ["schedules", "inputs"], "for every dataset", "Koalas is not installed.", [FSC], [("koalas branches", FSC)])
prop("P34", "Timedelta arithmetic follows calendar semantics",
     "Parsing, serialising and adding or subtracting a time span follows calendar rules for every unit and value.",
     ["inputs"], "for every span and time", "Tests check examples.",
     ["featuretools/entityset/timedelta.py"], [("timedelta", "featuretools/entityset/timedelta.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
