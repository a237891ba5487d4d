"""Writes known_findings.jsonl: the findings of the checks and the repaired defects."""
import json
import os
import subprocess

FINDINGS = [
    {'property': 'C15', 'fingerprint': 'sampler-epochs-uneven-shards',
     'what': 'IndexSampler with num_epochs>1, without drop_remainder and a shard count that does not divide the number '
             'of records cuts the records of all epochs as one list, e.g. 5 records, 2 shards, 2 epochs: shard 0 '
             'reads 0 1 2 0 1 and shard 1 reads 3 4 3 4 3'},
    {'property': 'C28', 'fingerprint': 'shm-source-text', 'what': "SharedMemoryDataSource truncates strings whose UTF-8 form is longer than their number of characters rounded up to a multiple of 8, as multiprocessing.ShareableList does: the source of 'ééééééé' has another element"},
    {'property': 'C28', 'fingerprint': 'shm-source-nul', 'what': "SharedMemoryDataSource drops NULs at the end of bytes and strings, as multiprocessing.ShareableList does: the source of b'a\\0' has the element b'a'"},
    {'property': 'C29', 'fingerprint': 'rebatch-remainder-spec', 'what': 'the element spec of RebatchIterDataset states the batch size also without drop_remainder, when the last batch is smaller (an existing test requires this): 6 elements rebatched to 4'},
] + [
    {'property': 'C08', 'fingerprint': 'sequential-slice-' + op,
     'what': 'workers with sequential_slice=True lose or repeat elements below %s, which keeps the length its input had before '
             'slicing: range(8), 2 workers' % op}
    for op in ('batch', 'repeat', 'mix', 'concat', 'zip')
] + [
    {'property': 'C05', 'fingerprint': 'worker-killed-mid-write',
     'what': 'a worker process that is killed while it writes an element larger than the pipe buffer (and not sent through shared memory) '
             'leaves half a message behind, for which the consumer waits forever: elements of 300000 bytes, buffer 2, SIGKILL after one element'},
    {'property': 'C17', 'fingerprint': 'elastic-state-above-interleave',
     'what': 'restoring an elastic iterator with another number of processes only restores the interleaved shards; what transformations '
             'above them hold (flat map and window shuffle buffers, counters) is lost: 2 -> 3 processes in the middle of a fan-out of 9'}
]
# subject of the fix commit -> (property, what failed)
FIXED = [
    ('FlatMapIterDataset replayed stale buffer', 'C01', 'FlatMap iterator restored at the end of data replayed buffered elements'),
    ('RebatchIterDataset produced an empty batch', 'C01', 'rebatch restored at the end of data produced an empty batch'),
    ('raise ValueError from __next__', 'C20', 'next after close did not raise ValueError for several iterators'),
    ('restored a stale exhausted marker', 'C02', 'interleave kept a stale exhausted marker on restore and modified the restored state'),
    ('lost future shard states', 'C17', 'interleave lost future shard states in snapshots and after a JSON round trip'),
    ('set_shard_states read exhausted shards', 'C17', 'elastic restore read exhausted shards again'),
    ('left exhausted but kept iterators', 'C20', 'closing an interleave iterator left exhausted but kept inputs open'),
    ('position was off by one after an element failed', 'C21', 'prefetching iterator skipped an element after a failure'),
    ('hung if the worker crashed', 'C05', 'process prefetch hung when the worker crashed with a pending set_state'),
    ('hung if the worker failed', 'C05', 'process prefetch hung when the worker failed with a pending set_state'),
    ('ElasticIterator.close', 'C20', 'closing an ElasticIterator left the underlying iterator running'),
    ('lost or repeated tokens of features', 'C14', 'concat-then-split lost or repeated tokens of features without a split'),
    ('lost data when restored from a JSON', 'C01', 'concat-then-split lost data when restored from a JSON checkpoint'),
    ('dropped and repeated elements if the window', 'C07', 'windowed shuffle was no permutation when the window does not divide the length'),
    ('window shuffle failed for seeds', 'C07', 'window shuffle failed for seeds close to 2**32'),
    ('views and copies of SharedMemoryArray', 'C19', 'views and copies of shared memory arrays arrived with wrong contents'),
    ('mp_prefetch switched the dataset', 'C25', 'mp_prefetch switched the dataset of the caller to shared memory output'),
    ('mp_prefetch produced initial states', 'C01', 'initial states of mp_prefetch did not fit the sliced dataset of the worker'),
    ('IndexError without datasets', 'C06', 'interleaving no datasets (more workers than shards) raised IndexError'),
    ('VariableSizeMultiprocessingQueue.qsize', 'C23', 'qsize of a resized process queue was wrong, e.g. -2 for an empty queue grown from 2 to 4'),
    ('VariableSizeQueue.full', 'C23', 'full() of a full resizable thread queue was False'),
    ('growing a shrunk', 'C23', 'a queue grown after shrinking stored more than its capacity'),
    ('FlatMapIterDataset repeated elements', 'C21', 'flat-map repeated elements after the user function failed'),
    ('next index of an exhausted Interleave', 'C22', 'next index of an exhausted interleave iterator could not be read or set'),
    ('next index of the batch iterator', 'C22', 'next index of the batch iterator counted the dropped remainder'),
    ('garbage collection of an iterator', 'C20', 'garbage collecting an abandoned iterator with a prefetch thread could deadlock'),
    ('lost an element if a buffered read failed', 'C21', 'an element was lost and another repeated when a buffered read failed after the buffer was disabled'),
    ('BOS handling of concat-then-split', 'C14', 'BOS replacement wrote into the cell after an empty sequence or failed with IndexError'),
    ('sliced a dataset that is used twice', 'C08', 'workers sliced a dataset that is used twice in the pipeline more than once and lost elements'),
    ('index_shuffle was no permutation', 'C07', 'shuffling 65537 (2**18+1, ...) elements repeated one and lost another'),
    ('best-fit packing exceeded', 'C13', 'best-fit packing put empty sequences into bins that already held max_sequences_per_bin sequences'),
    ('repeated scalar features of split elements', 'C14', 'a scalar feature of a split element was packed again with the remainder'),
    ('hung if the state was set several times', 'C05', 'setting the state more than five times before the first read hung'),
    ('do not start a prefetch thread', 'C04', 'interleave with iter_buffer_size=0 (and start_prefetch with buffer size 0) read the parent in two threads at a time'),
    ('workers that exit with code 0', 'C05', 'process prefetch hung when the worker exited with code 0'),
    ('create new queues after', 'C05', 'an iterator restored after a worker crash hung, e.g. the source exits while reading element 1, buffer 1'),
    ('shards of ElasticIterator stop at the same step', 'C17', 'with 11 elements, 2 processes and global batches of 4 one process read a third batch and the other did not'),
    ('zero-size arrays) failed', 'C19', 'batches of zero-size arrays failed with 2 or more workers: batch(2) of np.zeros((0,)) with 2 workers'),
    ('truncated elements of a larger type', 'C19', 'batches of int32 and int64 arrays made by 2 or more workers were truncated to int32, and the same in parallel batching'),
    ('handed over again and released twice', 'C19', 'batches received from workers and used as a source for other workers were released while the source still needed them: FileNotFoundError'),
    ('could not be completed was never released', 'C19', 'a batch that fails after some of its leaves have been stacked left their shared memory behind'),
    ('in reference cycles is closed twice', 'C19', 'an array in a reference cycle: its block was closed by the garbage collector and in the background, failed with EBADF and was never released'),
    ('masked arrays lost their mask', 'C19', 'the mask of masked arrays was lost on the way from a worker'),
    ('elastic iterator could be read after close', 'C20', 'an ElasticIterator could be read after close'),
    ('file iterators could be read after close', 'C20', 'Parquet and TFRecord iterators could be read after close'),
    ('did not restore falsy states', 'C01', 'interleave did not restore inputs whose state is falsy, e.g. an element counter of 0'),
    ('without JAX the features of dicts', 'C27', 'without JAX rebatching mixed up the features of dicts with different key orders'),
    ('without JAX lists of different lengths', 'C27', 'without JAX lists of different lengths were batched after dropping the extra features'),
    ('Parquet files without row groups', 'C28', 'a Parquet file without row groups could not be read'),
    ('Parquet files with many empty', 'C28', 'a Parquet file with more than about 1000 consecutive empty row groups exceeded the recursion limit'),
    ('started with the last batch of its previous', 'C13', 'PackAndBatchOperation started with the last batch of its previous use'),
    ('PackAndBatchOperation failed without input', 'C13', 'PackAndBatchOperation failed without input elements'),
    ('rebatching mixed up features', 'C27', 'rebatching mixed up features of elements with different structures, e.g. other keys'),
    ('rebatching misaligned', 'C27', 'rebatching misaligned features with different batch sizes'),
    ('large RangeDataSource had a wrong', 'C28', 'RangeDataSource(0, 2**53 + 1, 1) had 2**53 elements'),
    ('shared memory source had elements before', 'C28', 'SharedMemoryDataSource had elements at indices below -len'),
    ('inputs created early', 'C31', 'options set after a thread prefetch of an interleave (or after nested interleaves) were ignored by the interleaved inputs: filter_raise_threshold_ratio=0.5 over ThreadPrefetch(Interleave([filter that drops 2000 of 2000])) did not raise'),
    ('without JAX leaves were considered', 'C27', 'without JAX a leaf was considered to have the same structure as any list or dict'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout.splitlines()
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
used = set()
with open(path, 'w') as f:
  for x in FINDINGS:
    f.write(json.dumps(x) + '\n')
  for key, prop, what in FIXED:
    h = [l.split()[0] for l in log if key in l]
    assert len(h) == 1, (key, h)
    used.add(h[0])
    f.write('fixed: property=%s %s %s\n' % (prop, h[0], what))
rest = [l for l in log if l.split()[0] not in used]
assert not rest, rest
