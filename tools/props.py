"""The properties, once: tools/meta.py writes properties.jsonl and MANIFEST.json from this."""
PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append(dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                      why=" ".join(why.split()), files=files, mechanism=mechanism, observe=observe, technique=technique,
                      note=" ".join(note.split()), state=state))


CB = "featuretools/computational_backends/"
ES = "featuretools/entityset/"

prop("C01", "No feature value depends on data after its row's cutoff time",
     """For every row of a feature matrix computed at cutoff time T, each feature value is a function only of what was
     known at T: adding, deleting, altering or moving entity rows whose time index is after T (at or after T when
     include_cutoff_time is False), or values guarded by a secondary time index after T, changes neither the row nor any of
     its values. This holds for single and per-instance cutoffs, for approximate and for training windows, and rows lying
     exactly at T are used if and only if include_cutoff_time is True.""",
     ["inputs", "configurations"],
     """every entity set, every feature definition, every cutoff request, every pair of entity sets agreeing up to the cutoff""",
     """A relational two-run property over all data and all features: the tests compare a handful of hand-computed values on one
     mock dataset and never vary the future.""",
     [CB + "calculate_feature_matrix.py", CB + "feature_set_calculator.py", ES + "entity.py"],
     [{"name": "rows filtered by time when an entity is queried", "where": ES + "entity.py:query_by_values,_handle_time"},
      {"name": "chunks grouped by cutoff time", "where": CB + "calculate_feature_matrix.py:calculate_chunk"}],
     ["feature matrix of ft.calculate_feature_matrix / ft.dfs"],
     "runtime two-run (non-interference) monitor under random worlds",
     """Pairs of real executions over randomly generated relational worlds which differ only in the future of one cutoff; the
     monitor compares every row at or before it. Sampling, not proof.""")

prop("C02", "A training window restricts each row to data inside the window",
     """With training_window W, the features of a row at cutoff T see exactly the entity rows whose time lies in the window
     from T-W to T (and, for entities with a last time index, rows whose last time lies in it): the edge at T-W is excluded
     when include_cutoff_time is True and included when it is False. Rewriting data outside the window changes no value, a
     window longer than history is the same as no window, and a single cutoff without instance ids answers exactly the
     target rows inside the window.""",
     ["inputs", "configurations"],
     "every entity set with and without last time indexes, every window (hours to months), every feature and cutoff",
     "Tests fix a few windows on one dataset; the guarantee quantifies over all window/edge/tie/last-time combinations.",
     [CB + "calculate_feature_matrix.py", CB + "feature_set_calculator.py", ES + "entity.py"],
     [{"name": "window subtraction", "where": "featuretools/entityset/timedelta.py; " + ES + "entity.py:_handle_time"},
      {"name": "last time index", "where": ES + "entityset.py:add_last_time_indexes"}],
     ["feature matrix"],
     "runtime reference-oracle and two-run monitors",
     "Values compared with an independent row-at-a-time evaluator restricted to the window, and with runs on rewritten data.")

prop("C03", "Feature values equal the declarative meaning of the feature",
     """Every value calculate_feature_matrix returns equals what the feature's definition says: aggregations over exactly the
     related child rows (through one or several relationships) satisfying where and use_previous, in time order; direct
     features are the parent's value along the stated relationship; transform and groupby-transform features apply to the
     rows visible at the cutoff; features stacked on features use those features' values; instances without data get the
     primitive's default. A renamed copy of a feature has the same values as the original.""",
     ["inputs", "programs"],
     "every entity set, every composition of built-in primitives, where/use_previous clause, relationship path and cutoff",
     """Feature compositions are unbounded; tests check specific features of the mock customer data against literals.""",
     [CB + "feature_set_calculator.py", CB + "feature_set.py", "featuretools/feature_base/feature_base.py",
      "featuretools/primitives/standard/aggregation_primitives.py", "featuretools/primitives/standard/transform_primitive.py"],
     [{"name": "feature trie evaluation", "where": CB + "feature_set_calculator.py:_calculate_features_for_entity"},
      {"name": "aggregation through linked entities", "where": CB + "feature_set_calculator.py:_calculate_agg_features"}],
     ["feature matrix"],
     "runtime monitor against an independent reference evaluator",
     """Every cell is compared with a row-at-a-time Python evaluator of the feature AST which shares no code with featuretools.
     Trusts the evaluator; values downstream of infinities are left unspecified.""")

prop("C04", "The matrix answers exactly the request, row by row and feature by feature",
     """calculate_feature_matrix returns exactly one row per requested (instance, time) in the requested order, indexed by the
     target's index name (plus time when asked), exactly the requested feature columns, and each extra cutoff-frame column
     unchanged on its own row. Each row and each feature has the value it would have if asked for alone; permuting rows,
     cutoff columns or features only permutes the answer; an unknown instance id gets every feature's default value.""",
     ["inputs", "configurations"],
     "every cutoff frame shape (order, index, names, extra columns, repeated and unknown ids) and every feature list",
     "Tests sample a few frames; independence of a row from every other row and feature requested needs comparing executions.",
     [CB + "calculate_feature_matrix.py", CB + "feature_set_calculator.py", CB + "utils.py"],
     [{"name": "cutoff frame normalisation and reordering", "where": CB + "calculate_feature_matrix.py:calculate_feature_matrix"},
      {"name": "shared feature trie", "where": CB + "feature_set.py:FeatureSet"}],
     ["feature matrix index, columns, values"],
     "runtime request/answer monitor with metamorphic re-execution",
     "The same real request re-executed alone, permuted and split; index, columns and cells checked against the request.")

prop("C05", "How the computation is executed does not change the answer",
     """For one request, the matrix (index, columns, values) is the same for every chunk_size, on one process or on a dask
     cluster of any n_jobs, with or without verbose, a progress_callback or save_progress. The callback gets non-negative
     increments which add up to 100 and ends at 100 percent; the files save_progress leaves hold exactly the rows answered
     (each once, with the answered values) and its temporary folder is gone; a cluster already holding one EntitySet never
     answers from it when given different data.""",
     ["inputs", "configurations", "schedules"],
     "every request, chunking, cluster size, worker schedule and history of requests on one cluster",
     """Tests compare a few chunk sizes on one dataset; chunk boundaries inside groups of equal cutoffs, schedules of workers and
     sequences of requests on a shared cluster are unbounded.""",
     [CB + "calculate_feature_matrix.py", CB + "utils.py"],
     [{"name": "chunking", "where": CB + "calculate_feature_matrix.py:calculate_feature_matrix,calculate_chunk,_chunk_dataframe_groups"},
      {"name": "distribution", "where": CB + "calculate_feature_matrix.py:parallel_calculate_chunks,scatter_warning"},
      {"name": "progress files", "where": CB + "utils.py:bin_cutoff_times,save_csv_decorator,gather_approximate_features"}],
     ["feature matrix", "progress_callback calls", "files in save_progress"],
     "runtime differential monitor over execution configurations on real worker processes",
     """The same request executed under varied chunking/cluster/progress settings with real dask worker processes, with random
     delays injected into the workers; callbacks and files recorded and audited offline.""")

prop("C06", "approximate only rounds the cutoff of features on ancestors, and only down",
     """With approximate=W, direct features of aggregations (features computed for ancestors of the target) take exactly the
     value they would have at the row's cutoff rounded down to a multiple of W; every other feature is exactly the value at
     the row's own cutoff; rows, their order and the reported times are as requested; a cutoff lying exactly on a bin edge
     gets the exact value for all features, and no value reads data after the row's cutoff.""",
     ["inputs", "configurations"],
     "every entity set, datetime or numeric cutoffs, window and feature list",
     "Tests fix two windows and one dataset; rounding, unknown instances and mixes of exact and approximated features vary freely.",
     [CB + "calculate_feature_matrix.py", CB + "utils.py", CB + "feature_set.py"],
     [{"name": "binning", "where": CB + "utils.py:bin_cutoff_times"},
      {"name": "approximate pass", "where": CB + "calculate_feature_matrix.py:approximate_features"},
      {"name": "which features are approximated", "where": CB + "utils.py:gather_approximate_features"}],
     ["feature matrix"],
     "runtime reference-oracle monitor",
     """Each cell compared with the reference evaluator at the exact or the rounded cutoff. One known finding
     is listed: when every aggregation is approximated, the remaining features use the current time instead of the cutoff.""")

prop("C07", "No call changes what the caller passed in",
     """No public call changes its arguments: dataframes, series, lists, dicts and option mappings stay as they were (cells, dtypes, index,
     column order); feature definitions keep name, structure and description; and an EntitySet passed to a computation
     (calculate_feature_matrix, dfs, encode, selection, save, describe, query, concat with inplace=False) keeps its data, types,
     relationships and last time indexes. The same holds when the call raises. Data handed out by a query can be altered
     without altering the EntitySet.""",
     ["inputs", "histories", "programs"],
     "every public call, every argument, every sequence of calls including failing ones",
     "Aliasing bugs only show for particular dtypes or call sequences; the tests rarely look at their inputs after a call.",
     [ES + "entityset.py", ES + "entity.py", CB + "calculate_feature_matrix.py", CB + "feature_set_calculator.py",
      "featuretools/synthesis/", "featuretools/feature_base/feature_base.py"],
     [{"name": "entity creation", "where": ES + "entity.py:Entity.__init__; " + ES + "entityset.py:entity_from_dataframe,normalize_entity"},
      {"name": "hiding secondary-time values", "where": ES + "entity.py:_handle_time"}],
     ["deep snapshots of arguments and EntitySet before and after each call"],
     "runtime snapshot monitor around every public call",
     "Deep state snapshots on entry and exit of randomly sequenced real calls on random worlds.")

SY = "featuretools/synthesis/deep_feature_synthesis.py"
prop("C08", "How the data is presented does not change the feature matrix",
     """The value of a cell depends on what the data says, not on how it is laid out: permuting the rows of tables with a time index (or of tables
     whose order no feature uses), permuting columns, entities or relationships, other dataframe index labels, other names for entities and
     columns, an order-preserving relabelling of the ids, equivalent dtypes (int / float / category / object strings), additional unrelated
     entities, columns and rows, or cutoff times given in an equivalent type give the same cells for the same (instance, cutoff).""",
     ["inputs", "configurations"],
     "every entity set and every meaning-preserving change of its presentation",
     "A test fixes one layout per dataset; layout-dependent bugs (positional instead of label alignment, sort stability) need a second, transformed run.",
     [ES + "entity.py", ES + "entityset.py", CB + "feature_set_calculator.py", CB + "calculate_feature_matrix.py"],
     [{"name": "alignment of intermediate frames", "where": CB + "feature_set_calculator.py:_calculate_features_for_entity"},
      {"name": "sorting by time", "where": ES + "entity.py:set_time_index,update_data"}],
     ["feature matrices of the original and of the transformed data"],
     "runtime metamorphic monitor",
     "Pairs of real runs on random worlds and feature lists related by a meaning-preserving transformation, cells compared.")

prop("C09", "Every feature dfs returns is allowed by the request; the list is stable",
     """All features returned by dfs belong to the target entity, have distinct names, are ordered by depth, and use only the primitives asked for
     on inputs of the declared types; they respect stacking rules (stack_on, stack_on_self, stack_on_exclude, base_of, base_of_exclude), where_primitives,
     interesting values (no where clause on top of another), ignore_entities, ignore_variables, allowed_paths, primitive_options (global, per input, per groupby),
     max_depth (not counting where clauses), max_features, drop_exact, drop_contains and return_variable_types; no feature aggregates or passes on
     the link columns it is joined by; every one can be computed. Equal requests give the equal list in the equal order, in any process (any string hash seed).""",
     ["inputs", "configurations"],
     "every EntitySet and every dfs request",
     "The tests look for a few names in lists from one or two EntitySets; options interact, and hash-seed dependence never shows inside one process.",
     [SY, "featuretools/synthesis/dfs.py", "featuretools/primitives/options_utils.py", "featuretools/feature_base/feature_base.py"],
     [{"name": "feature generation", "where": SY + ":_run_dfs,_build_agg_features,_build_transform_features,_build_forward_features"},
      {"name": "options", "where": "featuretools/primitives/options_utils.py"}],
     ["list of feature definitions returned by dfs"],
     "runtime structural monitor on every returned feature",
     """Every feature of every answer is taken apart and checked against the request by a separate implementation of the rules; lists of four
     processes with different hash seeds are compared. One known finding is listed (max_depth with several paths).""")

prop("C10", "dfs leaves out nothing the request admits",
     """At max_depth 1 dfs returns exactly the identity, aggregation (with and without where), transform, groupby and direct features the request admits; at
     max_depth 2 it contains every admissible feature of depth 2. Any restriction (ignore_variables, ignore_entities, allowed_paths, drop_exact,
     drop_contains, return_variable_types, primitive_options globally, per input or per groupby) returns exactly the unrestricted list minus what it names;
     max_features=k returns the first k; more primitives, seed features or depth never lose a feature; neither the order in which the data was loaded
     nor how primitives are spelled (name, class, instance) makes a difference.""",
     ["inputs", "configurations"],
     "every EntitySet and every pair of related dfs requests",
     "Silent omissions are invisible to tests that look for particular names; there is no exhaustive list in the test suite for any request.",
     [SY, "featuretools/synthesis/dfs.py", "featuretools/primitives/options_utils.py"],
     [{"name": "feature generation", "where": SY + ":_run_dfs,_get_matching_inputs,match,_features_by_type"},
      {"name": "options", "where": "featuretools/primitives/options_utils.py:filter_matches_by_options,variable_filter,ignore_entity_for_primitive"}],
     ["list of feature definitions returned by dfs"],
     "runtime monitor against an independent enumeration, and relational monitors between requests",
     """Depth-1 equality and depth-2 inclusion against an independent enumerator; 15 relations between requests. One known finding is listed
     (infix names without parentheses collide).""")

prop("C11", "Saved feature definitions load as the same features",
     """load_features(save_features(features)) returns, in the same order and in any process, features with the same structure (types, inputs, relationship
     paths, where, use_previous, groupby, primitives and their arguments, output slices), names (also renamed), variable types, defaults and
     EntitySet description, for a string, a path or an open file; any part of a list can be saved alone; saving the loaded features gives the same
     definitions again; and the loaded features calculate the same matrix. Saving changes nothing.""",
     ["inputs"],
     "every list of feature definitions with primitives whose arguments are JSON values",
     "Tests save a fixed list; the combinations of wrappers (slice of a direct of an aggregation with a renamed where ...) are unbounded.",
     ["featuretools/feature_base/features_serializer.py", "featuretools/feature_base/features_deserializer.py", "featuretools/feature_base/feature_base.py"],
     [{"name": "dependencies", "where": "featuretools/feature_base/features_serializer.py:to_dict,_feature_definitions; feature_base.py:get_dependencies"},
      {"name": "arguments", "where": "feature_base.py:get_arguments,from_dictionary; primitives/utils.py:serialize_primitive"}],
     ["loaded feature objects", "second serialization", "matrix of the loaded features"],
     "runtime monitor: structural comparison of every loaded object by an independent canonical form, also from fresh processes",
     """Structure is read from the objects, not from names or repr; fresh processes run under another hash seed.""")

prop("C13", "A written EntitySet reads back as the same EntitySet",
     """read_entityset(es.to_csv / to_parquet / to_pickle(path)) returns an EntitySet with the same id, entities, relationships, variables with
     types, type arguments and interesting values, indexes, time indexes, secondary time indexes, last time indexes, times types and data (values, ids, order,
     missing values; texts that look like numbers, dates or missing markers included), from which every feature calculates the same matrix; with
     any file option (sep, encoding, compression, tar archive), after any sequence of changes to the EntitySet, also twice in a row; writing changes
     nothing. Exceptions: in csv an empty text is a missing value and floats are equal to within rounding; the order of categories and mixed-kind object columns are not
     covered.""",
     ["inputs", "histories", "configurations"],
     "every EntitySet, every format and option",
     "Tests round-trip two small EntitySets; type loss depends on the values (a text '007', a bool column with one missing value) in each column.",
     ["featuretools/entityset/serialize.py", "featuretools/entityset/deserialize.py", "featuretools/variable_types/utils.py"],
     [{"name": "description", "where": "featuretools/entityset/serialize.py:entity_to_description; deserialize.py:description_to_entity"},
      {"name": "data", "where": "featuretools/entityset/serialize.py:write_entity_data; deserialize.py:read_entity_data"}],
     ["structure and values of the EntitySet read back", "feature matrices on both"],
     "runtime monitor: full structural and value snapshots on both sides of the round trip",
     """Snapshots are taken by the harness from the objects, not by EntitySet equality; hostile texts and dtypes in every column.""")

prop("C12", "A feature is its definition, not its name, spelling or object",
     """Renaming a feature or any feature below it (identity features and groupbys included), copying it, building it again node by node with other constructors
     or primitive instances, or slicing one output of a multi-output feature changes no value, whether calculated alone or together; a feature on a slice sees
     that output's column; Python operators (+ - * / % comparisons & | ~ abs, also reflected and with scalars) give what Python gives on the operands'
     columns; definitions get one name and (infix operators aside) names one definition; get_dependencies and get_depth are complete;
     renaming or copying never changes the original.""",
     ["inputs"],
     "every feature and every way to write it",
     "Tests rename or slice one feature at the top; intermediate frames are keyed by name, so renaming below the top or mixing variants in one request finds other code paths.",
     ["featuretools/feature_base/feature_base.py", CB + "feature_set.py", CB + "feature_set_calculator.py"],
     [{"name": "operators, slices, copies", "where": "featuretools/feature_base/feature_base.py:FeatureBase,FeatureOutputSlice"},
      {"name": "columns by name", "where": CB + "feature_set_calculator.py:_calculate_features_for_entity"}],
     ["columns of the feature matrix for the feature and all its variants", "dependencies, names"],
     "runtime differential monitor",
     """The same definition is requested in many spellings, the columns compared with each other; operators against Python on the operands' columns.""")

prop("C14", "An EntitySet stays consistent and keeps the data through any sequence of edits",
     """After every sequence of entity_from_dataframe, add_relationship(s), normalize_entity, update_data, delete_variables (not of linking columns), convert_variable_type,
     set_time_index, interesting values, add_last_time_indexes, concat and copies: columns, variables and types, index (first, unique, labelling the rows),
     row order (time, then index), time type, secondary time indexes, relationships, descriptions, interesting values and metadata agree with each other, and
     every value is the one loaded: normalize_entity moves or copies columns into one row per distinct value (the first one's values) whose join gives back the
     original; concat is the union by index. An edit that is rejected changes nothing, and copies are independent of the original.""",
     ["histories", "inputs"],
     "every sequence of edits",
     "Tests apply one edit to a fresh EntitySet; stale metadata, dangling references and half-done rejected edits need sequences.",
     [ES + "entityset.py", ES + "entity.py", "featuretools/utils/entity_utils.py"],
     [{"name": "edits", "where": ES + "entityset.py:normalize_entity,add_relationship,concat; entity.py:update_data,delete_variables,convert_variable_type"},
      {"name": "metadata", "where": ES + "entityset.py:metadata,reset_data_description"}],
     ["all data and structure of the EntitySet after every edit"],
     "runtime model-based monitor over edit histories",
     """An independent model (lists of dicts) takes every edit; the whole EntitySet is compared with it after each one. 27 kinds of invalid edits.""")

prop("C15", "last_time_index is the last time an instance or anything below it was observed",
     """After add_last_time_indexes, and kept up to date by update_data, updated_entities, concat, new relationships and normalize_entity followed by it: for every entity
     and instance the last time index is the maximum of the instance's own time and those of all its descendants along all relationships
     (missing when there is none), on pandas and dask, for datetime and numeric times, timeless and empty entities, missing and dangling links.""",
     ["inputs", "histories"],
     "every EntitySet and every sequence of updates",
     "Training windows silently lose rows when an entry is wrong; tests check two-level schemas with dense data.",
     [ES + "entityset.py", ES + "entity.py"],
     [{"name": "last times", "where": ES + "entityset.py:add_last_time_indexes"}, {"name": "updates", "where": ES + "entity.py:update_data"}],
     ["last_time_index of every entity"],
     "runtime monitor against an independent walk of the logical tables",
     """Every entry of every entity compared after every step.""")

prop("C16", "Queries return exactly the visible rows asked for; paths are found exactly",
     """EntitySet.query_by_values(entity, values, variable_id, columns, time_last, training_window, include_cutoff_time) returns, in the entity's order and
     labelled by the index, each row once whose variable is one of the (given, in any form: scalar, list, tuple, Series, DataFrame column, with repeats or
     unknown values) non-missing values and whose time allows it, with the requested columns, with values not yet known by their secondary
     time missing, and changes neither the data nor its arguments. find_forward_paths / find_backward_paths enumerate exactly the acyclic paths, get_forward/backward_relationships
     and _entities exactly the links, and distinct relationship paths between two entities have distinct names.""",
     ["inputs"],
     "every EntitySet, every query, every relationship graph",
     "Everything is computed from these queries; tests run a few on one dataset and one graph.",
     [ES + "entity.py", ES + "entityset.py", ES + "relationship.py"],
     [{"name": "query", "where": ES + "entity.py:query_by_values,_handle_time"}, {"name": "paths", "where": ES + "entityset.py:find_forward_paths; relationship.py:RelationshipPath"}],
     ["rows, columns and values returned", "paths returned"],
     "runtime monitor against independent reference answers",
     """Answers compared cell by cell with the logical tables; paths with an independent enumeration on multigraphs with and without cycles.""")

prop("C17", "encode_features says what its definitions say, and they calculate it again",
     """For every feature matrix and its features: encode_features replaces each chosen single-output discrete feature by one column per label, the labels being its
     most frequent non-missing values, as many as top_n (number or per-feature dictionary, one fewer with drop_first, at least one) allows, whatever the order of the rows;
     each cell says whether the value is the label, the unknown column whether it is none of them; other features and pass-through
     columns stay as they are; the returned definitions match the columns one to one and calculate the same values again, also for other instances and after saving and loading
     (for rows whose instance has data at its cutoff). The matrix (unless inplace) and features given are left alone. No feature may already be called like an encoded column.""",
     ["inputs", "configurations"],
     "every feature matrix, every set of features and options",
     "A model trained on the encoded matrix is served with the encoded definitions; tests compare small literals.",
     ["featuretools/synthesis/encode_features.py"],
     [{"name": "labels", "where": "featuretools/synthesis/encode_features.py:encode_features"}],
     ["encoded matrix", "feature matrix calculated from the returned definitions"],
     "runtime monitor: cell-by-cell judge and recalculation",
     """The judge recomputes labels and cells from the matrix; definitions are run through calculate_feature_matrix.""")

prop("C18", "Feature selection keeps exactly the columns of its rule, with their definitions",
     """remove_low_information_features keeps the columns with a non-missing value and two different values (missing counting as one), remove_single_value_features those with two values
     (missing counting as one with count_nan_as_value), remove_highly_null_features those whose share of missing cells does not reach the threshold (for 0: none missing),
     remove_highly_correlated_features drops, unless listed in features_to_keep, exactly the numeric or boolean columns to check whose correlation with one further left in the matrix reaches the threshold. Kept columns are
     unchanged and in order, the definitions returned match the kept columns one to one in order (a multi-output feature as a whole, or else slices) and calculate them again;
     selecting twice changes nothing; the arguments are left alone.""",
     ["inputs", "configurations"],
     "every (non-empty) feature matrix and option",
     "Tests use three small matrices; the rules quantify over all values, types and column orders.",
     ["featuretools/selection/selection.py"],
     [{"name": "rules", "where": "featuretools/selection/selection.py"}],
     ["kept columns and definitions"],
     "runtime monitor: independent evaluation of each rule",
     """Rules evaluated cell by cell in Python; correlations within 1e-6 of the threshold are not judged.""")

prop("C19", "Every built-in primitive computes its documented function on every series",
     """For every built-in aggregation and transform primitive, every combination of its parameters and all series of its input types (missing, repeated, infinite, empty, single values,
     category and nullable dtypes, any row labels), the result of get_function() equals the documented function computed value by value; it depends on neither row labels nor (for aggregations
     without an order) row order; two instances, two calls and __call__ agree; the input is left unchanged; transforms give one value per row. Primitives made with make_agg_primitive and make_trans_primitive
     compute their function with the keyword arguments they were given, and carry them through names, saving and loading. (How Equal and boolean logic treat None is left open.)""",
     ["inputs", "configurations"],
     "every series, every primitive parameter",
     "Tests call each primitive on one or two literals.",
     ["featuretools/primitives/standard", "featuretools/primitives/base", "featuretools/primitives/api.py"],
     [{"name": "standard primitives", "where": "featuretools/primitives/standard"}],
     ["return values of primitive functions"],
     "runtime monitor: value-by-value reference of each primitive",
     """Each primitive has an independent plain-Python reference; tolerance 1e-7 relative.""")

prop("C20", "EntitySets are equal exactly when they hold the same",
     """For all EntitySets a and b, a == b holds exactly if they have the same entities, variables with their types, indexes, time and secondary time indexes and relationships, and a.__eq__(b, deep=True) exactly
     if moreover every column, last time index and set of interesting values is the same, missing values being equal to each other only; however rows of entities with a time index, columns, entities or relationships
     were ordered when loaded, for Dask as well. Equality is symmetric, != is its negation, comparison with any other object is False and raises nothing, operands stay as they are; pickled, copied
     and re-read EntitySets are equal to the original. Equality of relationships, paths and variables is that of their definitions, and equal ones have equal hashes. (The values of two category columns are compared by their texts.)""",
     ["inputs", "histories"],
     "every pair of EntitySets",
     "The test suite decides whether a round trip works by this equality: if it is too weak, serialization tests prove nothing.",
     ["featuretools/entityset/entityset.py", "featuretools/entityset/entity.py", "featuretools/utils/wrangle.py", "featuretools/entityset/relationship.py", "featuretools/variable_types/variable.py"],
     [{"name": "deep equality", "where": "featuretools/utils/wrangle.py:_dataframes_equal"}],
     ["results of == and deep equality"],
     "runtime monitor: comparison against the known difference",
     """The generator knows whether and how the two EntitySets differ; the monitor compares ==, != and deep equality in both directions with it.""")

prop("C21", "Spans of time mean the same in every spelling",
     """For every span of time (one or several of the documented units or observations; whole or, for absolute units, fractional values) all spellings make equal Timedeltas: number and unit in short or long form, singular or plural,
     in any capitalization (but M), one string with or without a space, a dictionary, get_arguments through JSON, pd.DateOffset and multiples; pd.Timedelta means the same span. Different spans have different names. Shifting a timestamp by it
     is calendar arithmetic (years and months first, day clipped, then the exact rest), the negation shifts the other way, observations shift nothing; whichever spelling is used as use_previous, training_window
     or approximate, the feature names and the matrix are the same. What is not a number with a unit is rejected. make_temporal_cutoffs gives each instance the equally spaced times that end at its cutoff; convert_time_units divides by the unit.""",
     ["inputs"],
     "every span and spelling",
     "Tests try a handful of strings; a misread span silently changes windows, hence values.",
     ["featuretools/entityset/timedelta.py", "featuretools/utils/wrangle.py", "featuretools/utils/time_utils.py", "featuretools/computational_backends/utils.py"],
     [{"name": "parsing", "where": "featuretools/utils/wrangle.py:_check_timedelta"}, {"name": "shift", "where": "featuretools/entityset/timedelta.py"}],
     ["Timedelta objects, shifted timestamps, matrices, temporal cutoffs"],
     "runtime monitor: differential spellings and calendar reference",
     """Saved pd.Timedelta spans are compared to the microsecond; multiples of calendar DateOffsets are stepped by pandas and only their definition is compared.""")


prop("C22", "A Dask EntitySet gives the matrix the pandas EntitySet gives",
     """For every EntitySet loaded from Dask dataframes, partitioned and ordered anyhow, with variable types given, and the same data loaded from pandas: features made of primitives listed as Dask compatible (without
     use_previous) have the same values for every instance existing at its cutoff, whether the cutoff is one time, a frame with one row per instance and further columns, absent, with or without instance_ids, in any chunk size and
     scheduler, however often; the computed matrix has the index column, all feature columns and the columns passed along. dfs finds the same features for the same primitives; normalize_entity makes the same parents and first times. Primitives not
     compatible, approximate, training_window and entities of another kind are refused with an error rather than miscalculated. Calculating leaves the Dask EntitySet as it was. (Instances not existing yet have no
     values or row on Dask; row order and dtypes of columns with missing values are left open.)""",
     ["inputs", "configurations"],
     "every EntitySet and partitioning",
     "Tests compare a handful of features on one data set in two partitions.",
     [CB + "feature_set_calculator.py", CB + "calculate_feature_matrix.py", ES + "entityset.py", ES + "entity.py", "featuretools/primitives/standard/aggregation_primitives.py", "featuretools/synthesis/deep_feature_synthesis.py"],
     [{"name": "Dask branches", "where": CB + "feature_set_calculator.py:_calculate_agg_features"}],
     ["computed feature matrices, definitions, entity dataframes"],
     "runtime monitor: differential execution Dask against pandas",
     """The pandas matrix, itself monitored against an independent evaluator by C03, is the oracle.""")

prop("C23", "Loading a dataframe keeps its data and types each column by itself",
     """For every pandas dataframe of numpy and category columns, entity_from_dataframe keeps every row and value except for the conversions the column's type asks for (texts to dates and numbers, missing pairs of coordinates), labels
     rows by the index and sorts them by time index and index unless already_sorted. A type given as class, name or with arguments wins (an unknown name: Unknown and a warning); otherwise it follows from the column's own values:
     bool is Boolean, numbers Numeric, category Categorical, datetimes and texts which are all dates Datetime, texts averaging over 50 characters NaturalLanguage, others (and all missing objects) Categorical - whatever the other
     columns, their order and names. The index is the one named, else the first column, else created as 0..n-1, with a warning when not asked for. The caller's dataframe and arguments stay as they were; a refused load leaves the
     EntitySet as it was. EntitySet(entities, relationships), dfs(entities, relationships) and calculate_feature_matrix(entities, relationships) mean the EntitySet loaded one by one. (Timedelta columns: Numeric or Categorical.)""",
     ["inputs"],
     "every dataframe and request of index, time index, secondary time index and types",
     "Tests load a few fixed dataframes and check inferred types of one column at a time.",
     [ES + "entityset.py", ES + "entity.py", "featuretools/utils/entity_utils.py", "featuretools/synthesis/dfs.py", CB + "calculate_feature_matrix.py"],
     [{"name": "loading", "where": ES + "entityset.py:EntitySet.entity_from_dataframe"}],
     ["entities' dataframes, variables, indexes; warnings; state after errors"],
     "runtime monitor: reference model of loading, cell by cell, and metamorphic loads in other company",
     """The typing rules are those documented for inference; the monitor's expected values are computed from the generated Python values, not by the library.""")

prop("C24", "Descriptions, lineage graphs and plots tell what features and EntitySets are",
     """For every feature, however stacked and named, describe_feature gives the text its definition asks for: each primitive's template filled with the descriptions of its inputs in order, the entity aggregated, the span used, the
     condition (equal to a value, or the condition's own description being True), the grouping, the way to a parent; slices by their number. Custom descriptions (by feature or unique name) replace the description of that very feature
     wherever it occurs, templates those of the primitive (by name or instance), and what is passed wins over the metadata file. graph_feature draws exactly the features the feature is made of, in the tables of their entities, each calculated
     by its primitive from exactly its inputs and keys, the target marked, captions as asked; EntitySet.plot draws exactly the entities, rows, variables with types and relationships, whatever the names (without line breaks and not
     enclosed in <>). Files are written where and in the format asked for, other formats refused. Nothing described or drawn is changed.""",
     ["inputs", "configurations"],
     "every feature, naming and customization",
     "Tests describe and draw a dozen fixed features of plain names.",
     ["featuretools/feature_base/feature_descriptions.py", "featuretools/feature_base/feature_visualizer.py", "featuretools/primitives/base/primitive_base.py", "featuretools/utils/description_utils.py", "featuretools/utils/plot_utils.py", ES + "entityset.py"],
     [{"name": "describing and drawing", "where": "featuretools/feature_base/feature_descriptions.py:describe_feature"}],
     ["descriptions, graphs as graphviz reads them, files"],
     "runtime monitor: reference reading of the definition, structural comparison of drawn graphs",
     """What graphviz makes of the source (dot -Tjson0) is compared, not the source.""")


prop("C25", "Requests answered at the same time in threads do not influence each other",
     """For threads which share one EntitySet and its feature objects without changing them: whatever each of them asks for (feature matrices with their own cutoffs, windows, approximation and chunk sizes; definitions by dfs; queries; saving and loading
     features; encoding; selection; descriptions; comparison; metadata; a copy of the EntitySet to change; new EntitySets of the same dataframes), in whatever interleaving, each answer equals the answer the same
     request gives alone, none fails, and the EntitySet and the features are afterwards what they were before.""",
     ["inputs", "schedules"],
     "every set of requests and interleaving of threads",
     "Tests ask one question at a time; threaded services and notebooks ask several at once.",
     [CB + "calculate_feature_matrix.py", CB + "feature_set_calculator.py", ES + "entityset.py", ES + "entity.py", "featuretools/feature_base/feature_base.py", "featuretools/synthesis/deep_feature_synthesis.py"],
     [{"name": "shared state", "where": ES + "entityset.py:EntitySet.query_by_values"}],
     ["answers of every thread, EntitySet and features before and after, thread switches inside featuretools"],
     "runtime monitor: injected delays at lines, answers against those given alone",
     """What each answer should be is monitored by the other checks; this one compares schedules.""")


prop("C26", "Requests without a meaning are refused and change nothing",
     """A request which differs from a sound one by one fault is refused with an error, whatever the data, features and further options: cutoff times as a list, without or with two instance or time columns, with a row twice (by instance and time, whatever is passed
     along), or of another kind than the EntitySet's times; features which are none, or not a list of features; chunk sizes not positive; windows or bins which are no span of time, windows of observations; dfs for unknown targets, primitives
     unknown or of the wrong kind, ignoring the target, options misspelt, of the wrong type, given twice or for another number of inputs; features of inputs of the wrong kind, number or entity, conditions and groupings
     of another entity or kind, paths missing, ambiguous or not fitting, use_previous without time index or of the wrong kind, whole multi-output inputs, slices out of range; thresholds outside 0 to 1; unknown names; addresses which cannot be
     written or read; primitives whose arguments cannot be told; ambiguous temporal cutoffs. The sound one is answered. Refusing leaves the EntitySet, the features and the arguments as they were, and the sound request has the same answer afterwards.""",
     ["inputs", "histories"],
     "every request with one such fault",
     "Tests try one example per message; a fault let through gives numbers without a meaning instead of an error.",
     [CB + "calculate_feature_matrix.py", CB + "utils.py", "featuretools/synthesis/deep_feature_synthesis.py", "featuretools/primitives/options_utils.py", "featuretools/feature_base/feature_base.py", "featuretools/selection/selection.py",
      "featuretools/synthesis/encode_features.py", "featuretools/utils/time_utils.py"],
     [{"name": "validation", "where": CB + "utils.py:_validate_cutoff_time"}],
     ["errors raised, EntitySet, features and arguments before and after, answers of the sound request"],
     "runtime monitor: fault injection into requests, state before against state after",
     """Edits of EntitySets that must be refused are part of C14 and C23. The kind of error is left open.""")


prop("C27", "A primitive's function is handed exactly the rows its feature is about",
     """Whatever way a primitive is written (a class whose get_function gives a function, lambda, partial, method, callable object or built-in function, or made by make_agg_primitive or make_trans_primitive; one or more inputs; with or without
     the cutoff time; with parameters; with several outputs; with a default value) and wherever its features are used (aggregated over one or more relationships, where and use_previous, grouped, on the whole entity or row by row, direct,
     stacked with other features): its function is handed series of equal length, one per input in the order of the inputs, with the values of exactly the visible rows of one instance (group, entity) in the order of time, never an empty one; the cutoff time
     of the row when it asks for it and not else; each instance of a primitive its own parameters. Its answers are what the matrix holds for that instance, output by output, by position for transforms, and its default value where there is no row. The
     functions are not changed (not even their names).""",
     ["inputs", "histories"],
     "every primitive, feature and data",
     "Tests use a handful of one-input custom primitives on one data set, and look at results only.",
     [CB + "feature_set_calculator.py", "featuretools/primitives/base/aggregation_primitive_base.py", "featuretools/primitives/base/transform_primitive_base.py", "featuretools/primitives/base/utils.py"],
     [{"name": "calling primitives", "where": CB + "feature_set_calculator.py:agg_wrapper"}],
     ["every call of the primitives' functions with all it is handed, every cell of the matrix"],
     "runtime monitor: recorded calls checked against a reference model of visible rows",
     """Functions which answer with missing values or change their arguments are left out. Rows whose parent is not visible may be handed over without consequence.""")


prop("C28", "Definitions mean the same on every EntitySet of the same shape",
     """Features made on one EntitySet (node by node, by dfs or by encode_features), kept, copied, pickled or saved and loaded, calculated in any order and repeatedly on it and on other EntitySets which have the same entities, variables and
     relationships with other data - loaded in another order, with another id, further columns (even if called like a feature), further entities with or without relationships, other interesting values, or the old one with its
     data updated - have on each the values its own data give them, and nothing of what the data were where they were made or last used; encoded features keep the labels they were made with; dfs of the same request on data of the same shape makes the same definitions.
     Neither the features nor any of the EntitySets are changed.""",
     ["inputs", "histories"],
     "every feature and sequence of EntitySets of the same shape",
     "Tests calculate features on the EntitySet they were made on; in use they are made once and calculated on tomorrow's data.",
     [CB + "calculate_feature_matrix.py", CB + "feature_set_calculator.py", "featuretools/feature_base/feature_base.py", "featuretools/synthesis/encode_features.py", ES + "entity.py"],
     [{"name": "definitions hold the metadata of the EntitySet they were made on", "where": "featuretools/feature_base/feature_base.py:FeatureBase.__init__"}],
     ["matrices on every EntitySet, EntitySets and features before and after"],
     "runtime monitor: histories over several EntitySets against a reference model of each one's data",
     """Paths which dfs takes within max_depth are compared between EntitySets with relationships in the same order only.""")

prop("C29", "The registries know exactly what there is, and plugins hear of every call",
     """At every moment list_primitives, get_aggregation_primitives and get_transform_primitives hold exactly the primitives of featuretools.primitives - added ones at once, removed ones no longer - each once, with its own description,
     compatibility, inputs and return type, and dfs takes by name, in any case, exactly those. find_variable_types, list_variable_types and graph_variable_types hold exactly the variable types there are, own ones and their own too, and EntitySets
     with own types read back from disk have them. list_primitive_files gives exactly the primitive files of a directory; load_primitive_from_file gives the one primitive defined in the file as it is, and refuses files with none or several.
     A Trie behaves like a dictionary over paths, also through its subtries. load_mock_customer gives, for all sizes, the same data every time: of those sizes, keys unique and linked, as frames, as one table and as an EntitySet.
     Installed featuretools_dfs plugins are told, once per dfs call, all arguments by name before it runs and its result or error with the runtime after, which does not change what dfs gives or raises.""",
     ["inputs", "histories"],
     "every history of added and removed primitives, types and files, and every dfs call",
     "Tests look at the built-in registries, two files and one plugin; users add their own of all of them.",
     ["featuretools/primitives/utils.py", "featuretools/variable_types/utils.py", "featuretools/utils/entry_point.py", "featuretools/utils/trie.py", "featuretools/demo/mock_customer.py"],
     [{"name": "registries are computed from the classes which exist", "where": "featuretools/primitives/utils.py:get_aggregation_primitives"}],
     ["what registries list after each step; loaded classes; events received by installed plugins; tries beside a dictionary"],
     "runtime monitor: histories with online comparison against models of the registries, and recording plugins",
     """Classes which a file only imports count as defined in it, so files import none but the two bases.""")

prop("C30", "Kept on S3, behind a URL or under any path, everything comes back as written",
     """An EntitySet (pandas or Dask) written with to_csv, to_parquet or to_pickle to s3://bucket/key and read with read_entityset from there or from a URL of it, and features saved with save_features to S3 and loaded from there or from a URL, are
     those that were written, as from a local path: also over older ones, beside others, with compressing extensions. Requests go to that bucket and key only and are signed with the keys of the profile_name given, not at all for False, with the
     default credentials (if any) for none. Nothing is left in the temporary directory, and what was read stays usable. Missing, truncated and refused objects, unknown profiles and writing to URLs are errors which leave the EntitySet as it was.
     Local directories and files are just that whatever they are called (http..., s3..., ....tar), also relative ones, and what is written where something was replaces it, however many partitions Dask has.""",
     ["inputs", "histories", "faults"],
     "every EntitySet and feature list, place, option, profile and fault of the store",
     "Tests write one EntitySet to a mocked S3 which takes any credentials; URLs need the network.",
     ["featuretools/utils/s3_utils.py", ES + "serialize.py", ES + "deserialize.py", "featuretools/feature_base/features_serializer.py", "featuretools/feature_base/features_deserializer.py", "featuretools/utils/wrangle.py"],
     [{"name": "archives pass through a temporary directory", "where": ES + "deserialize.py:read_entityset"}],
     ["every request to a recording S3 server on loopback, objects, temporary directories, every cell read"],
     "runtime monitor: a recording S3 server with faults, round trips compared cell by cell",
     """The server is a stand-in for S3 (objects, ranges, multipart uploads); it checks who signs, not the signature.""")
