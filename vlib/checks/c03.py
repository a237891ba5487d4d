"""C03: prefetching from a random-access dataset with a thread pool."""
from vlib import prefetches

TECHNIQUE = ('TLA+ design model of the thread pool (spec/PoolPrefetch.tla) checked by TLC including progress; schedules generated from it are '
             'replayed on real iterators with gated reads, and the recorded reads and results are validated by TLC (spec/PrefetchTrace.tla)')
NOTE = ('The design is exhaustive for 3 elements, 2 threads, buffer 2. Replayed schedules fix the order in which reads end, and contain saves, '
        'restores, changes of threads and buffer size, failing reads and missing elements; up to 9 elements, 3 threads, buffer 4.')


def run(ctx):
  prefetches.run(ctx, 'pool', 400, 4000, 'thread pool prefetching: order, contiguity, lookahead and progress')
