"""C04: reading an iterator ahead in a background thread."""
from vlib import prefetches

TECHNIQUE = ('TLA+ design model of producer and consumer (spec/ThreadPrefetch.tla) checked by TLC including progress; schedules generated from it '
             'are replayed on real iterators with gated reads, and the recorded reads and results are validated by TLC (spec/PrefetchTrace.tla)')
NOTE = ('The design is exhaustive for 4 elements and buffers up to 2. Replayed schedules fix when reads end relative to next, save, restore, seek, '
        'start and close, with failing reads; the trace shows that the parent is never read by two threads, too far, or after stop or close.')


def run(ctx):
  prefetches.run(ctx, 'thread', 400, 4000, 'producer and consumer: order, exclusive access to the parent, lookahead and progress')
