"""A worker is killed while it is writing a large element (not importable)."""
import os
import sys
import threading
import time

import common
import carry_big


def main():
  common.fast_workers(['carry_big', 'grain', 'grain._src.python.dataset.transformations.process_prefetch'])
  from grain._src.python.dataset.transformations import process_prefetch
  it = iter(process_prefetch.ProcessPrefetchIterDataset(carry_big.Big(6, 300000), buffer_size=2))
  got = [next(it)[0]]
  time.sleep(1)
  p = it._prefetch_process  # pylint: disable=protected-access
  p.kill()
  p.join(5)

  def late():
    time.sleep(15)
    print('hang', flush=True)
    common.kill_children()
    os._exit(0)
  threading.Thread(target=late, daemon=True).start()
  try:
    for x in it:
      got.append(x[0])
    print('ended without an error')
  except RuntimeError:
    print('error' if got == list(range(len(got))) else 'wrong elements')
  sys.stdout.flush()
  os._exit(0)


main()
