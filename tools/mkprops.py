#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property list)."""
import json, os
D = 'grain/_src/python/dataset/'
T = D + 'transformations/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over.split(','), text=text), why_tests_cant=why,
    anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
      mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p('C01', 'Resuming from a checkpoint continues exactly where the iteration was',
  'For every iterator pipeline, saving the state after any number of elements and restoring it - into the same iterator, or into a fresh iterator of the same pipeline - makes the iterator produce exactly the elements that followed the save point in the original iteration, and then end exactly where the original ended. This holds after any earlier history of reads, saves and restores, including saves at the very beginning and at the end of the data.',
  'programs,histories', 'every composition of the iterator transformations, every save point, every history of next/save/restore on several iterators',
  'Tests check single transformations with a few save points (assert_equal_output_after_checkpoint) and never the composition of two stateful transformations, restores over dirty iterators, or states saved at the end of data.',
  [D + 'dataset.py', T + 'flatmap.py', T + 'interleave.py', T + 'packing.py', T + 'packing_concat_then_split.py', T + 'rebatch.py', T + 'shuffle.py', T + 'mix.py', T + 'prefetch.py', T + 'process_prefetch.py', T + 'filter.py', T + 'repeat.py', T + 'limit.py', T + 'zip.py', T + 'cache.py', T + 'batch.py', T + 'map.py'],
  [('get_state/set_state of every DatasetIterator', T), ('replay of buffered elements from the state of the buffer start', T + 'shuffle.py, flatmap.py, packing.py')],
  [('iterator state', 'position of every stateful iterator in the pipeline', 'get_state of each DatasetIterator')],
  ['DatasetIterator.__next__', 'get_state', 'set_state'])
p('C02', 'Saved states are immutable values and saving has no side effects',
  'A state obtained from an iterator does not change when the iterator, or an iterator restored from it, is advanced; it can be restored any number of times and survives a JSON round trip with the same meaning. Saving a state does not change what the iterator produces, and restoring does not modify the state that was passed in.',
  'histories,programs', 'every interleaving of save, restore and next over several iterators sharing the saved states',
  'Tests restore each state at most once, right after saving it, on the iterator that produced it.',
  [T + 'interleave.py', T + 'packing.py', T + 'packing_concat_then_split.py', T + 'mix.py', T + 'process_prefetch.py', T + 'cache.py', D + 'elastic_iterator.py', 'grain/_src/python/checkpoint/handler.py'],
  [('copies of nested states in get_state and set_state', T)], observe=['get_state', 'set_state'])
p('C03', 'Thread-pool prefetching is transparent and its lookahead is bounded',
  'Reading a random-access dataset through the prefetching iterator yields the present elements in index order, each exactly once, for every number of threads and buffer size and every change of these at run time, no matter in which order the reads complete. At any time no more elements than the buffer size in force when they were requested are being read or held beyond the element the consumer last asked for.',
  'schedules,configurations,histories', 'every completion order of the worker threads, buffer size, thread count, and interleaving of next, save, restore, resizing and start of prefetching',
  'Tests run one arbitrary schedule with instantly returning sources and never resize between elements of a checkpointed iteration.',
  [T + 'prefetch.py'],
  [('PrefetchDatasetIterator._buffer refilled one element at a time', T + 'prefetch.py'), ('set_num_threads / set_prefetch_buffer_size', T + 'prefetch.py')],
  [('_buffer', 'futures of the next elements', T + 'prefetch.py'), ('_next_index', 'next position in the parent', T + 'prefetch.py')],
  ['PrefetchDatasetIterator.__next__', 'parent __getitem__'])
p('C04', 'Background-thread prefetching is transparent under every schedule',
  'An iterator whose parent is read ahead in a background thread yields the same elements as the parent itself and its saved state always describes the last element handed out, whatever the relative speed of the two threads and whenever save, restore, stop or close happen. The background thread reads at most one element more than the buffer size ahead of the consumer, never gets stuck and never survives the closing of the iterator.',
  'schedules,histories', 'every interleaving of the producer thread with next, get_state, set_state, start_prefetch and close',
  'Tests observe one schedule per run; races between restoring and the producer need specific interleavings.',
  [T + 'prefetch.py', T + 'interleave.py'],
  [('_ThreadPrefetchDatasetIterator producer loop with its bounded buffer', T + 'prefetch.py'), ('_stop_producer / _clear_and_set_state', T + 'prefetch.py')],
  [('_buffer', 'queue of (element, state, error)', T + 'prefetch.py')], ['next', 'get_state', 'set_state', 'close'])
p('C05', 'Process prefetching delivers exactly once and never hangs',
  'An iterator whose parent runs in a worker process yields the same elements as the parent, each exactly once and in order, and can be saved and restored at any time, also before the first element, repeatedly in a row, and while the worker is ahead. If the worker fails or dies the consumer gets an error instead of waiting forever, and elements produced before the failure are still delivered in order.',
  'schedules,crash_points,histories', 'every interleaving of worker and consumer, of restores, and every point at which the worker process fails or dies',
  'Tests kill no worker with a restore pending and cannot choose how far the worker is ahead when a restore arrives.',
  [T + 'process_prefetch.py', T + 'prefetch.py'],
  [('request/acknowledge counter of set_state between the processes', T + 'process_prefetch.py'), ('liveness polling of the worker', T + 'process_prefetch.py')],
  [('_set_state_request_count', 'number of restores the worker must acknowledge', T + 'process_prefetch.py')], ['next', 'get_state', 'set_state'])
p('C06', 'Interleaving datasets yields every element exactly once, deterministically',
  'Interleaving datasets (directly, or by reading with several worker processes or threads) yields the elements of every input dataset exactly once and in the order of that dataset, with the inputs visited round-robin over at most the configured number of simultaneously open inputs, in an order that does not depend on timing, prefetching or buffer sizes. This also holds when inputs are empty, of different lengths, fewer than the cycle length, or restored from any saved position.',
  'schedules,configurations,histories', 'every number and length of inputs, cycle length, prefetch setting, worker count and thread timing',
  'Tests sample a dozen shapes with one schedule each.',
  [T + 'interleave.py', T + 'prefetch.py', T + 'process_prefetch.py'],
  [('slot round-robin of _InterleaveDatasetIterator', T + 'interleave.py'), ('multiprocess_prefetch / multithread_prefetch built on interleave', T + 'process_prefetch.py, prefetch.py')],
  [('iterators in use, exhausted markers, next index in cycle', 'open inputs', T + 'interleave.py')], ['next'])
p('C07', 'Shuffling is a permutation',
  'A global shuffle of a dataset visits every element exactly once per epoch, for every length and seed, with a new order in each epoch that is the same whenever the same seed and epoch are used. A windowed shuffle permutes elements only within consecutive windows of the given size and never loses or repeats any.',
  'inputs', 'every length, seed, epoch, window size and number of rounds',
  'Tests check a few lengths and seeds; a permutation that breaks for one length/seed goes unnoticed.',
  [T + 'shuffle.py', 'grain/_src/python/experimental/index_shuffle/index_shuffle.cc', 'grain/_src/python/samplers.py'],
  [('cycle walking block cipher on indices', 'grain/_src/python/experimental/index_shuffle/index_shuffle.cc'), ('per-epoch seed derivation', T + 'shuffle.py')], observe=['__getitem__', 'index_shuffle.index_shuffle'])
p('C08', 'Sharding and slicing partition the data',
  'Splitting data over any number of shards - by slicing a dataset, by sharding options of the loader or by assigning slices to workers - gives disjoint shards that together contain every record exactly once (except remainders that were explicitly asked to be dropped), in order, with sizes differing by at most one. A sliced dataset has exactly the elements and length that the same slice of a list has.',
  'inputs,configurations', 'every length, slice start/stop/step, shard count and index, nesting of slices',
  'Tests enumerate few lengths and shard counts; off-by-one errors appear for particular remainders and negative steps.',
  [T + 'slice.py', 'grain/_src/core/sharding.py', 'grain/_src/python/samplers.py', T + 'process_prefetch.py', T + 'source.py'],
  [('even_split', 'grain/_src/core/sharding.py'), ('SliceMapDataset index arithmetic', T + 'slice.py'), ('worker slices', T + 'process_prefetch.py, source.py')], observe=['__len__', '__getitem__', 'even_split'])
p('C09', 'Random access agrees with iteration, length and epochs',
  'For every random-access pipeline the element at an index depends only on that index: any order of accesses, repeated accesses, batched accesses and sequential iteration all give the same elements. Indices beyond the length continue into the following epochs of the same elements (newly shuffled where the pipeline shuffles), and iteration from start to length yields exactly the present elements of the first epoch.',
  'programs,inputs,histories', 'every composition of random-access transformations and every index, including later epochs and negative indices',
  'Tests check transformations one at a time over the first epoch or two.',
  [D + 'dataset.py', T + 'map.py', T + 'batch.py', T + 'repeat.py', T + 'slice.py', T + 'zip.py', T + 'mix.py', T + 'flatmap.py', T + 'shuffle.py', T + 'source.py', T + 'filter.py'],
  [('_getitems batched access', D + 'dataset.py'), ('index modulo length in each MapDataset', T)], observe=['__getitem__', '__len__', '_getitems'])
p('C10', 'Mixing and concatenating keep each component in order and in proportion',
  'A mixture takes the elements of every component in that component\'s order, none skipped and none repeated before the component wraps around, and after any number of elements the count taken from each component deviates from its exact share by less than the number of other components (so by less than one for two components; weights are resolved to one percent of the smallest weight). The length of a mixture is what these shares allow until the first component is used up, and within it no component repeats; mixing iterators stop exactly when the component whose turn it is has ended. A concatenation is exactly one component after the other, in every epoch.',
  'inputs,configurations,histories', 'every number of components, lengths, rational weights, and index, over several epochs',
  'Tests use two or three components with round weights over short prefixes.',
  [T + 'mix.py'],
  [('_dataset_and_key_of_next_element', T + 'mix.py'), ('selection maps', T + 'mix.py'), ('ConcatenateMapDataset', T + 'mix.py')], observe=['__getitem__', '__next__', '__len__'])
p('C11', 'Filter, limit, repeat, zip, flat-map and cache have list semantics',
  'Filtering keeps exactly the matching elements in order; limiting yields the first n; repeating yields whole passes over the data the requested number of times; zipping pairs the i-th elements and ends (or fails, if strict) with the shortest input; flat-mapping yields the concatenation of the mapped lists; caching replays the same elements. This holds in every composition, for iterators and random-access datasets.',
  'programs,inputs', 'every composition and parameter, empty inputs and boundary sizes',
  'Tests sample individual transformations with a few parameters.',
  [T + 'filter.py', T + 'limit.py', T + 'repeat.py', T + 'zip.py', T + 'flatmap.py', T + 'cache.py', T + 'map.py'],
  [('__next__/__getitem__ of the transformations', T)], observe=['__next__', '__getitem__'])
p('C12', 'Batching and rebatching regroup the stream without loss',
  'Batching groups consecutive elements into batches of exactly the batch size, with only the last one smaller (or dropped, if requested), and the batches contain every element once and in order. Rebatching a stream of batches of any sizes yields the same rows in the same order in batches of exactly the new size with only the last one smaller (or dropped), and padding fills only the missing rows.',
  'inputs,programs', 'every stream length, sequence of input batch sizes, target size and remainder option',
  'Tests use uniform input batches and a few size combinations.',
  [T + 'batch.py', T + 'rebatch.py'],
  [('BatchDatasetIterator / BatchMapDataset', T + 'batch.py'), ('_RebatchDatasetIterator buffer', T + 'rebatch.py')], observe=['__next__', '__getitem__'])
p('C13', 'Packing keeps every sequence intact and within capacity',
  'First-fit and best-fit packing place every input sequence exactly once, unsplit and with its values in order, within the row capacity of every feature, with the segment ids and positions identifying the sequences of a row contiguously and padding nowhere else. Rows come out in the documented order of the packing strategy (first row with room, respectively the fullest row with room), and no row with a fitting sequence pending is emitted before it must be.',
  'inputs,histories', 'every sequence of lengths of several features, capacities, number of open rows and save points',
  'Tests pack a handful of hand-written sequences.',
  [T + 'packing.py', T + 'packing_packed_batch.py'],
  [('PackedBatch.try_add_to_batch', T + 'packing_packed_batch.py'), ('_PackIterator buffering', T + 'packing.py')], observe=['__next__'])
p('C14', 'Concat-then-split packing conserves the token stream',
  'Concat-then-split packing emits for every splittable feature exactly the concatenation of the input values, cut at fixed row length, with non-splittable features kept whole, and with segment ids and positions that allow the inputs to be recovered. With beginning-of-sequence handling only the documented tokens are replaced, and truncation and padding happen only where documented.',
  'inputs,histories,configurations', 'every sequence of lengths, split settings, row length, BOS handling and save points',
  'Tests use few hand-written inputs; carry-over remainders between rows interact with several features and with checkpoints.',
  [T + 'packing_concat_then_split.py'],
  [('_ConcatThenSplitDatasetIterator.__next__', T + 'packing_concat_then_split.py')], observe=['__next__', 'get_state'])
p('C15', 'The data loader yields every sampled record exactly once, in order',
  'A data loader yields exactly the records its sampler prescribes, in the sampler\'s order as interleaved round-robin over the workers - the same for any number of threads, buffer size and timing, and complete for any number of workers. A sequential or shuffling sampler visits every record of its shard exactly once per epoch, and all shards together cover the dataset.',
  'configurations,schedules,inputs', 'every dataset size, shard, epoch count, worker count, buffer size, operation list and timing',
  'Tests use a few sizes divisible by the worker counts with one schedule each.',
  ['grain/_src/python/data_loader.py', 'grain/_src/python/samplers.py', 'grain/_src/python/operations.py', 'grain/_src/python/load.py', 'grain/_src/core/sharding.py'],
  [('_iterator_with_context: worker reads every n-th record', 'grain/_src/python/data_loader.py'), ('IndexSampler', 'grain/_src/python/samplers.py')], observe=['DataLoader.__iter__', 'Sampler.__getitem__'])
p('C16', 'A data loader resumes exactly from its saved state',
  'Saving the state of a data-loader iterator after any number of elements and restoring it in a new iterator - of the same loader, or one constructed identically in another process - yields exactly the remaining elements, for every number of workers, batch size and epoch, and saving or restoring again later behaves likewise. A state of a loader with different sampler, source or worker configuration is rejected.',
  'histories,configurations', 'every save point, worker count, operations list, repeated save and restore',
  'Tests save at one or two points per configuration.',
  ['grain/_src/python/data_loader.py', 'grain/_src/python/checkpoint/handler.py'],
  [('last_seen_indices / last_worker_index bookkeeping', 'grain/_src/python/data_loader.py')],
  [('last_seen_indices', 'position of every worker', 'grain/_src/python/data_loader.py')], ['DataLoaderIterator.get_state', 'set_state'])
p('C17', 'Elastic iterators survive a change of the number of shards',
  'When a training job is checkpointed with one number of processes and restored with any other, the processes together continue to yield every remaining element exactly once, in global batches that match the uninterrupted iteration of a random-access dataset. This holds for every sequence of checkpoints, shard counts and uneven progress of iterator shards.',
  'configurations,histories', 'every shard count before and after, dataset length, batch size and number of reads between checkpoints',
  'Tests re-shard once, between two fixed counts.',
  [D + 'elastic_iterator.py', T + 'interleave.py', 'grain/_src/python/checkpoint/elastic_checkpoint.py'],
  [('ElasticIterator global index', D + 'elastic_iterator.py'), ('InterleaveIterDataset shard states', T + 'interleave.py'), ('save/restore of shard states', 'grain/_src/python/checkpoint/elastic_checkpoint.py')], observe=['ElasticIterator.__next__', 'save_elastic_iterator', 'restore_elastic_iterator'])
p('C18', 'Randomness is a function of seed and position only',
  'Random transformations receive a generator that is determined by the seed and the position of the element alone: the same pipeline gives the same elements in every run, with any access order, number of threads, processes, resets or restores. Different positions, epochs of random-access datasets and transformations of a pipeline get independent generators, and a pipeline that needs a seed but has none is rejected when it is built.',
  'histories,schedules,programs', 'every access order, restore point, thread schedule, seed and nesting of random transformations',
  'Tests compare a few draws; sharing or reuse of a generator between positions shows only in specific access orders.',
  [D + 'dataset.py', T + 'map.py', T + 'flatmap.py', T + 'shuffle.py', 'grain/_src/core/grain_random.py', 'grain/_src/python/data_loader.py', 'grain/_src/python/samplers.py'],
  [('RngPool', T + 'map.py'), ('seed derivation by position in the pipeline', D + 'dataset.py')], observe=['random_map', 'shuffle', '_default_seed'])
p('C19', 'Shared-memory transport is faithful and releases every block',
  'Arrays moved between processes through shared memory - whole, as views, as copies, or as part of nested elements - arrive with identical shape, type and contents and stay valid as long as they are referenced. Each shared-memory block is released exactly once, never while it is still used, so that no block remains after iteration ends, is abandoned, or is closed.',
  'histories,schedules,fault_sequences', 'every order of creating, transferring, opening, copying, viewing and dropping arrays, and every point of abandonment',
  'Tests do one transfer of contiguous arrays and check no leaks after abandoned iteration.',
  ['grain/_src/python/ipc/shared_memory_array.py', 'grain/_src/python/record.py', T + 'process_prefetch.py'],
  [('SharedMemoryArray reference hand-over', 'grain/_src/python/ipc/shared_memory_array.py')], observe=['/dev/shm', 'element contents'])
p('C20', 'Closing an iterator is idempotent, final and releases its resources',
  'Closing an iterator may happen at any time and any number of times, never hangs or fails, and afterwards asking for the next element raises a ValueError. All threads and processes started for the iterator end, including those of nested inputs that are exhausted, not yet started or still being filled.',
  'histories,schedules,programs', 'every composition of transformations, position of the iteration, moment of closing and order of calls',
  'Tests close a few iterator types at one position.',
  [D + 'dataset.py', T + 'interleave.py', T + 'prefetch.py', T + 'process_prefetch.py', T + 'zip.py', T + 'mix.py', D + 'elastic_iterator.py'],
  [('DatasetIterator.close, _assert_not_closed', D + 'dataset.py')], observe=['close', '__next__'])
p('C21', 'Errors surface at their position and do not corrupt the stream',
  'If producing an element fails, the failure reaches the consumer as that error at the position of the failed element, after all elements before it, no matter how many threads or processes read ahead. Restoring a state saved before the failure, in the same or in a fresh iterator, and reading again yields the elements from there without loss or repetition once the cause is gone.',
  'fault_sequences,schedules,programs', 'every position and repetition of failures, pipeline, buffer size and thread count',
  'Tests inject a failure at one position and only look at the error.',
  [T + 'prefetch.py', T + 'process_prefetch.py', T + 'interleave.py', D + 'dataset.py', T + 'map.py', T + 'filter.py'],
  [('futures and buffered errors in the prefetchers', T + 'prefetch.py, process_prefetch.py')], observe=['__next__', 'get_state'])
p('C22', 'Seeking to an index equals iterating to it',
  'For pipelines that support it, setting the next index of an iterator to any n below the number of elements makes it continue exactly as a fresh iterator would after n elements, and reading the next index returns the number of elements handed out so far, in any interleaving with reads, saves and restores, forwards and backwards and after the end. Iterators that cannot seek (mixtures, several interleaved inputs, ...) refuse instead of seeking wrongly.',
  'histories,programs', 'every supported composition, every index forwards and backwards, mixed with next, save and restore',
  'Tests seek on few pipelines, mostly forwards from a fresh iterator.',
  [D + 'dataset.py', T + 'prefetch.py', T + 'map.py', T + 'batch.py', T + 'repeat.py', T + 'interleave.py'],
  [('_set_next_index / _get_next_index', T)], observe=['grain.experimental.set_next_index', 'get_next_index'])
p('C23', 'Resizable queues are linearizable bounded FIFO queues',
  'The resizable thread and process queues deliver every item exactly once, for any number of concurrent producers and consumers: the thread queue in the order the puts took effect, the process queue in the order each producer put them (its items pass through a feeder thread of the producing process). A put succeeds only while fewer items than the current capacity are stored, growing the capacity wakes waiting producers, shrinking never drops items, and blocking, non-blocking and timed calls end as they should.',
  'schedules,histories', 'every interleaving of put, get, resize and size queries of several threads',
  'Tests run a few sequential calls and one two-thread schedule.',
  ['grain/_src/python/ipc/variable_size_queue.py', 'grain/_src/python/ipc/queue.py', T + 'process_prefetch.py', T + 'prefetch.py'],
  [('VariableSizeQueue / VariableSizeMultiprocessingQueue', 'grain/_src/python/ipc/variable_size_queue.py')], observe=['put', 'get', 'set_max_size', 'qsize'])
p('C24', 'Checkpoint files restore what was saved',
  'Saving an iterator to a checkpoint directory and restoring it from there puts any fresh iterator of the same pipeline (and process index) in the saved position, for dataset iterators and data-loader iterators, also when several steps, processes or shard files share the directory. A later change of the iterator does not alter what was saved, and restoring never reads another process\'s state.',
  'histories,configurations', 'every pipeline, process index/count, shards and order of saves and restores',
  'Tests save and restore once with a mocked process count.',
  ['grain/_src/python/checkpoint/handler.py', 'grain/_src/python/checkpoint/elastic_checkpoint.py', 'grain/_src/python/checkpoint/base.py'],
  [('CheckpointHandler.save/restore', 'grain/_src/python/checkpoint/handler.py')], observe=['checkpoint files', 'restored iterator'])
p('C25', 'Datasets are immutable and their iterators independent',
  'Deriving new datasets from a dataset, iterating it, slicing it for workers or setting read options never changes what that dataset or any other dataset derived from it yields. Any number of iterators of one dataset can be used in any interleaving, each yielding the complete sequence as if it were alone.',
  'histories,programs', 'every tree of derived datasets and every interleaving of iterators and accesses over it',
  'Tests use one iterator at a time and one derivation chain per dataset.',
  [D + 'dataset.py', T + 'process_prefetch.py', T + 'cache.py', T + 'mix.py', T + 'interleave.py'],
  [('copy-on-derive of datasets, per-iterator contexts', D + 'dataset.py')], observe=['__next__', '__getitem__', '__len__'])
p('C26', 'Observability options never change the data',
  'Turning on execution summaries, debug modes, visualisation, tracing or autotuning of prefetch buffers never changes the elements, their order, the errors or the saved states of a pipeline. Autotuned sizes stay within the given bounds.',
  'programs,configurations,schedules', 'every pipeline and every observability option, over whole histories',
  'Tests of these options check their reports, not the data under them.',
  [D + 'stats.py', D + 'stats_utils.py', D + 'base.py', T + 'autotune.py', T + 'prefetch_autotune.py'],
  [('record_self_time / record_bytes wrappers', D + 'stats.py'), ('autotuner', T + 'autotune.py')], observe=['__next__', 'get_state'])
p('C27', 'Structures of features are preserved, with or without JAX',
  'Whatever takes elements apart and puts them together again (batching, rebatching, padding, packing, shared-memory transport, the functions on feature trees behind them) keeps every feature under its name and in its place: for any nesting of dicts, ordered and default dicts, lists, tuples and named tuples, and any insertion order of keys in different elements, no value ends up in another feature, is lost, or is mixed with another. Elements whose features differ in name or number are rejected, never paired up. Grain behaves the same whether or not JAX is installed.',
  'inputs', 'every structure of features and every order of keys, with and without JAX',
  'Tests use a few fixed structures with keys in one order, mostly with JAX.',
  ['grain/_src/core/tree_lib.py', T + 'batch.py', T + 'rebatch.py', T + 'packing.py', 'grain/_src/python/operations.py'],
  [('map_structure / flatten / unflatten_as / assert_same_structure', 'grain/_src/core/tree_lib.py')], observe=['batched elements', 'tree_lib results', 'raised errors'])
p('C28', 'Sources deliver every record exactly once, in order',
  'A random access source has exactly the records it was made of, each at its index, from any number of threads and after pickling or attaching by name, and nothing outside of 0..len-1; the length of a range is exact for ranges of any size. A reader of TFRecord or Parquet files delivers every record of its files exactly once and in order (several files in the round robin order of interleave), whatever the records, their number, the row groups and the empty files or row groups; a position saved at any point continues there in any other reader of the same files. A truncated TFRecord file is an error, never a shorter dataset.',
  'inputs,histories', 'every file and row group layout, every record, every range, and every order of reads, saves and restores',
  'Tests read a few small well-formed files and ranges.',
  ['grain/_src/python/data_sources.py', D + 'sources/tfrecord_dataset.py', D + 'sources/parquet_dataset.py', T + 'source.py'],
  [('_ParquetDatasetIterator', D + 'sources/parquet_dataset.py'), ('_TFRecordReader', D + 'sources/tfrecord_dataset.py'), ('RangeDataSource', 'grain/_src/python/data_sources.py')],
  observe=['__len__', '__getitem__', '__next__', 'get_state'])
p('C29', 'Element specs describe the elements',
  'The element spec of a pipeline (grain.experimental.get_element_spec) is the composition of what its transformations do: datasets that pass elements on keep it, transformations that state their output change it as stated, batching adds a dimension that is known exactly if remainders are dropped, zipping makes tuples. Every element the pipeline yields has the structure, shapes and types of the spec, where unknown dimensions may have any size. Finding the spec never runs transformations or changes the pipeline.',
  'programs', 'every composition of transformations that support element specs, and every element',
  'Tests compare the spec of single transformations with a constant and rarely with elements.',
  [D + 'dataset.py', T + 'batch.py', T + 'rebatch.py', T + 'map.py', T + 'zip.py', T + 'mix.py', T + 'interleave.py'],
  [('get_element_spec', D + 'dataset.py'), ('_get_batch_element_spec', T + 'batch.py')], observe=['grain.experimental.get_element_spec', 'elements'])
p('C30', 'The checkpoint test helper accepts exactly the datasets that resume',
  'assert_equal_output_after_checkpoint (grain.experimental) returns normally for a dataset if and only if the dataset yields at least one element, all the states of an iterator over it, the one at the end included, have the same structure, and for each state taken before an element a fresh iterator restored to it reports that state and yields exactly the remaining elements, no fewer and no more. In every other case it raises AssertionError. A dataset it accepts can therefore be saved and restored at any point without losing, repeating or changing an element.',
  'inputs', 'every dataset with a finite number of elements, the states and elements being any trees of scalars and arrays',
  'The tests call the helper on datasets that are right; one that accepts everything passes them.',
  ['grain/_src/python/testing/experimental.py', 'grain/_src/core/tree_lib.py'],
  [('assert_equal_output_after_checkpoint', 'grain/_src/python/testing/experimental.py'), ('spec_like', 'grain/_src/core/tree_lib.py')], observe=['assert_equal_output_after_checkpoint returns or raises'])
p('C31', 'Options hold in the whole pipeline and filters fail exactly at their limit',
  'Options given by WithOptionsIterDataset hold for all transformations of the pipeline, before and after it, also below threads, processes, zips and interleaves; options set several times are merged field by field and the latest value that was set wins; a field that was not set changes nothing, and None switches a check off. A filter (and a sparse random-access dataset turned into an iterator) counts the elements it looks at in consecutive windows of 1000: with filter_raise_threshold_ratio in force it raises ValueError at the end of the first window of which it skipped a larger share, never otherwise, and every element before that is delivered. An interleaved dataset is a pipeline of its own that also obeys the options set outside it. Counts belong to one iterator: other iterators of the same dataset do not change them. filter_warn_threshold_ratio never changes what is delivered.',
  'programs', 'every pipeline with filters and options in any place, every content, and every interleaving of several iterators',
  'Tests check one filter with one limit, and the propagation of options over a few fixed pipelines.',
  [D + 'base.py', D + 'dataset.py', T + 'filter.py', T + 'prefetch.py', T + 'process_prefetch.py', T + 'interleave.py'],
  [('DatasetOptions.merge', D + 'base.py'), ('WithOptionsIterDataset', D + 'dataset.py'), ('FilterThresholdChecker', T + 'filter.py'), ('get_dataset_options', T + 'prefetch.py'), ('_add_prefetch_and_make_iterator', T + 'interleave.py')], observe=['elements', 'ValueError of a filter'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
  for x in P: f.write(json.dumps(x) + '\n')
