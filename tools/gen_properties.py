"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['zcollection/'+f for f in files],
            state=[dict(name=a, meaning=b, where='zcollection/'+c) for a, b, c in state],
            mechanism=[dict(name=a, where='zcollection/'+b) for a, b in mechanism],
            observe_at=observe, hook_needed=None)))

p('C01', 'Each inserted row is routed once, in order, to the partition named by its key',
  'When a non-empty dataset is split for insertion, the partitions have pairwise distinct keys in increasing order, their row ranges are contiguous, non-empty, disjoint and cover every row exactly once in order, and every row has the partition-variable values (or truncated date) named by its partition. '
  'A dataset whose keys are not in non-decreasing order is refused with an error and never misrouted. '
  'In-memory and lazy (dask) datasets are split identically.',
  ['inputs'], 'every number of rows, every key sequence (monotonic or not, repeated, negative), every date resolution, any number of partition variables, eager or delayed arrays',
  'The tests split a handful of regular key grids; they never feed an interleaved sequence such as 1,2,1 nor compare eager and lazy on arbitrary sequences.',
  ['partitioning/abc.py', 'partitioning/date.py', 'partitioning/sequence.py'],
  [('unique / unique_and_check_monotony / difference / concatenate_item', 'partitioning/abc.py'), ('Date._split, _unique', 'partitioning/date.py'), ('Sequence._split, _unique, _is_monotonic', 'partitioning/sequence.py'), ('split_dataset, index_dataset', 'partitioning/abc.py')],
  ['split_dataset(), index_dataset(), directory names and contents after insert'])

p('C02', 'Partition names, keys and stored values convert into each other without loss',
  'For every partition, the directory name produced from its keys parses back to exactly those keys, encoding and decoding keys are mutually inverse, and the name written at insertion parses to the key of the rows it holds. '
  'Listing a collection returns every stored partition exactly once, ordered by increasing key, ignores the hidden entries of its directory, and a name that does not belong to the scheme is reported as an error. '
  'Different keys never share a name.',
  ['inputs', 'configurations'], 'every key value (year 0001-9999, every month/day/hour/minute/second, any signed integer), every resolution and variable list, every separator',
  'The tests check a few dates and small positive integers only.',
  ['partitioning/abc.py', 'partitioning/date.py', 'partitioning/sequence.py'],
  [('parse / join / _partition / _regex / list_partitions', 'partitioning/abc.py'), ('Date.join/_partition/_stringify/encode/decode', 'partitioning/date.py'), ('Sequence.encode/decode', 'partitioning/sequence.py')],
  ['parse(), join(), encode(), decode(), list_partitions(), partitions()'])

p('C03', 'Merging a time series keeps exactly the inserted and the non-replaced rows',
  'Merging an inserted time series into a stored one yields every inserted row exactly once and exactly those stored rows whose time lies outside the period covered by the inserted rows, each once, with all the values of a row kept together and the result ordered by time. '
  'When a gap tolerance is given, the inserted rows are treated as separate pieces at every gap larger than the tolerance, and stored rows lying inside such a gap are kept.',
  ['inputs'], 'every pair of non-empty ordered time axes (any lengths, any relative position, touching or adjacent by one time unit), every tolerance',
  'The tests merge hourly or daily series at a few relative positions; positions adjacent by one time unit or unequal sampling are never tried.',
  ['merging/time_series.py', 'merging/period.py'],
  [('_merge_time_series, merge_time_series', 'merging/time_series.py'), ('Period.get_relation / intersection', 'merging/period.py')],
  ['merge_time_series() result, load() after insert with merge_callable'])

p('C04', 'Period algebra: relations, containment and set operations are exact',
  'For any two non-empty periods, the reported relation is the unique one describing their relative position, its coarse predicates (before, after, contains, inside, overlapping before/after) partition all cases consistently, and swapping the periods gives the mirrored relation. '
  'Intersection, union, span, containment, adjacency, intersection tests, shifting and expansion agree with the sets of instants the periods denote, including empty periods.',
  ['inputs'], 'every pair of periods, every time unit, open and closed construction, null periods',
  'The tests evaluate a few dozen hand-picked pairs in one unit.',
  ['merging/period.py'], [('Period.*, PeriodRelation.*', 'merging/period.py')],
  ['get_relation(), intersection(), merge(), span(), contains(), is_adjacent(), intersects(), length(), is_null()'])

p('C05', 'A failed or interrupted partition write never corrupts the collection',
  'If storing a partition fails at any step, the error reaches the caller; a partition that did not exist is left absent (or, if the process died, recognised as incomplete: validation reports it and inserting it again completes it), a partition that existed keeps its complete previous content unless its replacement was completely written first, and no other partition or metadata changes. '
  'At every intermediate instant before the final replacement, the previously stored content of an existing partition is untouched, and leftovers of an interrupted replacement never appear as partitions nor prevent listing, reading or retrying.',
  ['fault_sequences', 'crash_points'], 'every file-system or storage operation of an insertion failing (or the process dying right before or after it), new or existing partition, with or without merge function, local or generic file system',
  'The tests raise one error from the user callback or from one mocked call; they never fail each storage operation in turn nor stop between two of them.',
  ['merging/__init__.py', 'collection/detail.py', 'storage.py'],
  [('perform, _update_fs, _rename', 'merging/__init__.py'), ('_insert, _rm', 'collection/detail.py'), ('write_zarr_variable, del_zarr_array, _write_meta, write_zarr_group', 'storage.py')],
  ['directory tree of the collection after each file-system call, partitions(), load()'])

p('C06', 'Inserting stores exactly the given rows and touches only their partitions',
  'After an insertion without merge function, each partition named by the rows holds exactly the rows routed to it, with every variable of the collection (variables absent from the dataset are filled with their fill value, their dimension sizes being known from the others), and every other partition and the configuration are unchanged; with a merge function it holds what that function returned for the stored and the inserted rows. '
  'The returned names are exactly the partitions written, variables without the partitioning dimension are stored once and apply to all partitions, and with validation a dataset of different structure is refused before anything is written.',
  ['inputs', 'histories'], 'every sequence of insertions (overlapping, repeated, out of order), any subset of variables, with or without merge function, eager or delayed',
  'The tests insert one or two fixed datasets in a fixed order.',
  ['collection/__init__.py', 'collection/detail.py', 'merging/__init__.py', 'dataset.py', 'storage.py'],
  [('Collection.insert, _write_immutable_dataset', 'collection/__init__.py'), ('_insert', 'collection/detail.py'), ('perform', 'merging/__init__.py'), ('Dataset.set_for_insertion, add_variable, select_variables_by_dims', 'dataset.py')],
  ['load(), partitions(), files of the collection'])

p('C07', 'Filters select exactly the partitions whose keys satisfy the predicate',
  'Selecting partitions with a predicate returns, in increasing key order and without duplicates, exactly the stored partitions whose integer key values satisfy it, whether the predicate is an expression string or a callable, and all of them without a predicate. '
  'An expression naming an unknown key is reported as an error; relative names are the full names without the base directory.',
  ['inputs', 'configurations'], 'every set of stored partitions, every predicate over the keys, every partitioning scheme and base directory name',
  'The tests use one regular grid of days and two predicates.',
  ['collection/abc.py', 'expression.py', 'view/__init__.py'],
  [('ReadOnlyCollection.partitions, _is_selected, _relative_path', 'collection/abc.py'), ('Expression.__call__', 'expression.py'), ('View.partitions', 'view/__init__.py')],
  ['partitions(filters=...), and every operation taking filters'])

p('C08', 'Loading returns exactly the selected rows in partition order',
  'Loading returns the rows of the selected partitions, each partition once, in increasing key order with rows in stored order, restricted to the requested variables, with collection attributes and the non-partitioned variables attached; lazy and eager loading give equal data, and an empty selection gives nothing. '
  'With an indexer, exactly the indexed row ranges of the indexed partitions that satisfy the filter are returned.',
  ['inputs', 'histories'], 'every stored content, filter, indexer, variable selection, eager or lazy',
  'The tests load fixed collections with one filter or one indexer and rarely combine them.',
  ['collection/abc.py', 'collection/detail.py', 'storage.py', 'dataset.py'],
  [('ReadOnlyCollection.load, build_indexer_args, list_partitions_from_indexer', 'collection/abc.py'), ('_load_and_apply_indexer, _load_dataset', 'collection/detail.py'), ('open_zarr_group', 'storage.py')],
  ['load(), map()'])

p('C09', 'Overlap windows contain exactly the neighbouring partitions, trimmed correctly',
  'For map and update with overlap depth d, the function applied to a partition receives the concatenation, in order, of the selected partitions at distance at most d from it (fewer at the ends), together with the exact position of the partition inside that window. '
  'When trimming is requested, the values stored back for a partition are exactly the part of the result lying at that position; this holds for collections and views alike.',
  ['inputs', 'configurations'], 'every number of selected partitions, every partition, depth and partition sizes, trimmed or not, with or without non-partitioned variables',
  'The tests use equal-sized partitions, depth 0 to 2 and a few positions.',
  ['collection/detail.py', 'collection/abc.py', 'collection/__init__.py', 'view/detail.py', 'view/__init__.py'],
  [('_load_dataset_with_overlap, _update_with_overlap, _get_slices, _wrap_update_func_with_overlap', 'collection/detail.py'), ('_select_overlap, _wrap_update_func_overlap', 'view/detail.py'), ('map_overlap', 'collection/abc.py')],
  ['map_overlap(), update(depth=...), View.map_overlap(), View.update(depth=...)'])

p('C10', 'Update changes only the returned variables of the selected partitions',
  'Updating applies the function to every selected partition exactly once and stores exactly the arrays it returned, in the partition they were computed from; all other variables, partitions, attributes and the configuration stay unchanged. '
  'A function returning a variable unknown to the collection is refused before anything is stored, and an error raised by the function reaches the caller.',
  ['inputs', 'schedules'], 'every update function, filter, batch count, argument list and partition set',
  'The tests update one or two variables of a small regular collection.',
  ['collection/__init__.py', 'collection/detail.py', 'storage.py', 'view/detail.py'],
  [('Collection.update, _infer_callable', 'collection/__init__.py'), ('_wrap_update_func, _update_with_overlap', 'collection/detail.py'), ('update_zarr_array', 'storage.py')],
  ['load() after update(), files of the collection'])

p('C11', 'A collection opened read-only cannot be modified',
  'Every operation that would change a collection opened in read-only mode (insert, update, add or drop a variable, drop partitions, repair) raises an error and leaves every stored byte unchanged, and reading operations never write. '
  'Only write mode creates the configuration, an unknown mode is refused, and opening a collection defaults to read-only.',
  ['programs', 'histories'], 'every public operation and sequence of operations, any arguments',
  'The tests call five methods once on one collection.',
  ['collection/__init__.py', 'collection/abc.py', 'convenience/collection.py'],
  [('_read_only_mode, _unsupported_operation, validate_partitions', 'collection/__init__.py'), ('open_collection', 'convenience/collection.py')],
  ['the exception raised and the directory tree before/after'])

p('C12', 'Schema changes keep configuration and all partitions consistent',
  'After adding a variable, the configuration and every partition contain it, filled with its fill value and shaped like the existing variables of same dimensions; after dropping one, none of them does, and all other data are unchanged. '
  'Adding an existing name, adding a variable without the partitioning dimension, or dropping the axis, a partitioning variable or an unknown or non-partitioned one is refused without any change, and if creation fails in some partition the variable ends up in none of them nor in the configuration.',
  ['inputs', 'fault_sequences', 'histories'], 'every schema, sequence of add/drop, number of partitions, and failure in any partition',
  'The tests add and drop one variable once and fail creation in one way.',
  ['collection/__init__.py', 'storage.py', 'meta.py'],
  [('add_variable, drop_variable, _write_config', 'collection/__init__.py'), ('add_zarr_array, del_zarr_array', 'storage.py'), ('search_same_dimensions_as, add_variable', 'meta.py')],
  ['metadata, reopened collection, load()'])

p('C13', 'Reopening a collection or view restores the identical configuration',
  'The configuration written to storage describes the collection completely: reopening gives the same axis, partitioning scheme with all its parameters, dimensions, chunking, variables, data types, compressors, filters, fill values and attributes. '
  'Metadata, attribute and variable descriptions survive conversion to and from their stored form, and opening something that is not a collection or view is refused.',
  ['configurations', 'inputs'], 'every dataset description, data type, fill value, attribute value, codec and partitioning configuration',
  'The tests round-trip a couple of float variables and one partitioning of each kind without checking its data types.',
  ['meta.py', 'partitioning/abc.py', 'partitioning/registry.py', 'collection/__init__.py', 'view/__init__.py', 'view/detail.py'],
  [('get_config/from_config of Attribute, Dimension, Variable, Dataset', 'meta.py'), ('get_codecs', 'partitioning/registry.py'), ('_write_config/from_config', 'collection/__init__.py'), ('_serialize_filters/_deserialize_filters', 'view/detail.py')],
  ['open_collection(), open_view(), metadata equality'])

p('C14', 'A view never alters its reference collection and owns only its variables',
  'No operation on a view (creation, adding, updating, dropping, loading, mapping, synchronizing) writes to, renames or deletes anything in the reference collection. '
  'A view refuses to add a variable existing in the reference or the view, and to update or drop a variable it does not own; what it stores is confined to its own directory, and loading it returns the partitioned variables of the reference together with its own variables row for row.',
  ['programs', 'histories'], 'every sequence of view operations, any filters and variables',
  'The tests never compare the reference tree before and after, and try two refusals.',
  ['view/__init__.py', 'view/detail.py'],
  [('add_variable, drop_variable, update, load, sync', 'view/__init__.py'), ('_create_zarr_array, _drop_zarr_zarr, _load_one_dataset, _assert_variable_handled', 'view/detail.py')],
  ['reference directory tree, View.load()'])

p('C15', 'Synchronizing a view makes it match the current reference partitions',
  'After synchronization every partition of the reference is present in the view, each view variable has the shape of the reference data there, and the view is reported as synchronized; values already computed are kept in the partitions whose reference axis is unchanged or only extended at the end, and discarded (reset to the fill value) where the axis changed otherwise. '
  'The check for synchronization changes nothing and reports exactly whether a synchronization would change something.',
  ['histories', 'inputs'], 'every history of reference growth, rewriting and partition addition between view operations',
  'The tests extend or remove one partition once.',
  ['view/__init__.py', 'view/detail.py'],
  [('sync, is_synced, _init_partitions', 'view/__init__.py'), ('_sync, _sync_partition, _extend_partition, _calculate_axis_reference, _write_checksum_array', 'view/detail.py')],
  ['View.sync(), View.is_synced(), View.load()'])

p('C16', 'The index answers queries with exactly the matching rows of each partition',
  'Querying an index returns, for each partition, exactly the row ranges stored for the requested key values, in order, merging only ranges that are contiguous or overlapping, and without values returns every indexed range. '
  'Updating the index replaces the entries of every partition of the collection by what the indexing function returns for it now, forgetting its previous entries, and reopening the index gives the same answers.',
  ['inputs', 'histories'], 'every set of indexed ranges, every query values (scalars or lists), every history of collection changes and index updates',
  'The tests query one half-orbit index with two values.',
  ['indexing/abc.py'],
  [('Indexer.query, update, _update, table, _table_2_indexer', 'indexing/abc.py')],
  ['Indexer.query(), Indexer.update(), load(indexer=...)'])

p('C17', 'Modifications run under the lock, which is released, and errors propagate',
  'Every group of storage tasks that writes or removes partition data of a collection or view runs entirely while the synchronizer is held, and the synchronizer is released on success and on every error. '
  'Results are returned in the order of the tasks; if any task fails its error is raised to the caller only after every other scheduled task has finished; and a process-level lock excludes other processes, survives being sent to another process, and reports correctly whether it is held by this object or another process.',
  ['schedules', 'fault_sequences'], 'every completion order and failure pattern of the tasks, every synchronizer, any number of tasks',
  'The tests use the no-op synchronizer and never observe lock state during a task.',
  ['storage.py', 'sync.py'],
  [('execute_transaction, write_zarr_group', 'storage.py'), ('ProcessSync, NoSync', 'sync.py')],
  ['lock state seen by tasks and after each call'])

p('C18', 'Batched processing handles every selected partition exactly once',
  'Splitting work into any requested number of batches yields consecutive, non-empty, balanced batches whose concatenation is the original list, never more batches than requested or than elements; a non-positive batch count is refused, and splitting nothing yields nothing. '
  'Insertion, update and copy with any batch setting therefore process the same partitions with the same result.',
  ['inputs', 'configurations'], 'every list length and batch count',
  'The tests split one list of 10 elements.',
  ['dask_utils.py', 'collection/__init__.py'],
  [('split_sequence', 'dask_utils.py'), ('insert, update, copy', 'collection/__init__.py')],
  ['split_sequence(), results of insert/update/copy with npartitions'])

p('C19', 'Copying reproduces the selected partitions exactly and leaves the source alone',
  'Copying a collection creates a collection with the same configuration whose partitions are exactly the selected ones with identical content, including non-partitioned variables, in the requested or the same storage system, and can be opened in the requested mode. '
  'The source is unchanged, and a partition already present at the target is never overwritten: such a copy is refused with an error.',
  ['inputs', 'configurations'], 'every collection content, filter, batch count, directory nesting and file-system pair',
  'The tests copy one small collection with an explicit file system.',
  ['collection/__init__.py', 'fs_utils.py'],
  [('Collection.copy', 'collection/__init__.py'), ('copy_tree, copy_files, copy_file, fs_walk', 'fs_utils.py')],
  ['tree and load() of the copy and of the source'])

p('C20', 'Dataset row operations keep all variables aligned',
  'Selecting, deleting or concatenating rows of a dataset applies the same row selection to every variable having that dimension and leaves the other variables unchanged; dimension sizes always equal the variable shapes and conflicting sizes are refused. '
  'Merging two datasets yields the union of variables and attributes and refuses conflicts, and selecting or renaming variables changes nothing else; eager and lazy datasets agree.',
  ['inputs'], 'every set of variables and dimensions, every slice, index list or (for selection) mask, any number of pieces',
  'The tests use two or three small arrays with one dimension.',
  ['dataset.py', 'variable/abc.py', 'variable/array.py', 'variable/delayed_array.py'],
  [('Dataset.isel, concat, delete, merge, select_vars, drop_vars, rename, add_variable', 'dataset.py'), ('Variable.concat, isel', 'variable/abc.py')],
  ['Dataset methods'])

p('C21', 'Values, missing data and attributes survive storage and retrieval',
  'Writing a dataset to storage and reading it back, lazily or eagerly, gives the same variables, dimensions, types, attributes and values, with missing entries still missing and present entries unchanged, for every chunking choice. '
  'Updating a stored array replaces all its values and nothing else, storing missing values as the fill value.',
  ['inputs', 'configurations'], 'every shape (including empty), data type, fill value, mask, chunking and block-size limit',
  'The tests store a few small float arrays.',
  ['storage.py', 'variable/abc.py', 'variable/array.py', 'variable/delayed_array.py'],
  [('write_zarr_group, write_zarr_variable, open_zarr_group, update_zarr_array, add_zarr_array', 'storage.py'), ('from_zarr, values, masked_equal', 'variable/array.py')],
  ['Dataset before writing and after reading'])

p('C22', 'Dropping and validating partitions affect exactly the right partitions',
  'Dropping partitions removes exactly the stored partitions that satisfy the filter and, when an age is given, are older than it; everything else is unchanged and the removed names are returned. '
  'Validation reports exactly the partitions that are not readable stored groups (metadata missing or corrupt, or a chunk that cannot be decoded), never touches a valid one, and with repair removes exactly the reported ones.',
  ['inputs', 'histories'], 'every set of partitions, filter, creation dates, and pattern of damaged partitions',
  'The tests drop everything or one partition and damage one file.',
  ['collection/__init__.py', 'storage.py'],
  [('drop_partitions, validate_partitions, _check_partition', 'collection/__init__.py'), ('check_zarr_group', 'storage.py')],
  ['partitions() and tree before/after'])

p('C23', 'A compressed in-memory array behaves as the array it holds',
  'Reading any region of a compressed array, converting, reshaping or rechunking it, or using it in operators, numpy functions and lazy computations gives what the uncompressed array with the same values and missing entries would give. '
  'The missing entries of every operand are those equal to its own fill value, missing entries given to it stay missing, and writing a region changes that region only.',
  ['inputs', 'configurations'], 'every shape, data type, fill value (also none or zero), chunking and codec, and every mix of compressed, plain, masked and lazy operands',
  'The tests use a few functions on small arrays, all with the same fill value and a single block.',
  ['compressed_array.py', 'dataset.py'],
  [('CompressedArray', 'compressed_array.py'), ('_concatenate_compressed_array, _numel_compressed_array, dask_array_from_compressed_array', 'compressed_array.py'), ('Dataset.persist', 'dataset.py')],
  ['results of indexing, operators, numpy and dask functions'])

out = pathlib.Path(__file__).resolve().parents[1] / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
