"""C05: reading an iterator ahead in a worker process."""
from vlib import prefetches

TECHNIQUE = ('TLA+ design model of the protocol of consumer and worker process with crashes at every step (spec/ProcPrefetch.tla) checked by TLC '
             'including progress; schedules generated from it are replayed on real worker processes with gated reads and injected deaths, and the '
             'recorded reads and results are validated by TLC (spec/PrefetchTrace.tla)')
NOTE = ('The design is exhaustive for 2 elements, buffers up to 2, 2 restores and 1 fault (thorough: 3 elements, 2 faults). Replayed schedules '
        'contain saves, restores before the start, repeatedly and while the worker is ahead, seeks, errors and worker deaths (exit codes 0 and 3, '
        'SIGKILL) during and between reads.')


def run(ctx):
  prefetches.run(ctx, 'proc', 160, 1200, 'worker process protocol: exactly once, restores, crashes, no hang', big='ProcPrefetchBig',
                 shards=16, parallel=16)
