"""Runs real code under a scheduler: its threads are real, but only one runs at
a time, and it is preempted only where it takes a lock, waits or reads the
clock. The primitives of `threading` and the clock are replaced in the modules
under test; time is virtual."""
import threading as real
import time as realtime


class Abort(BaseException):
  pass


class Sched:

  def __init__(self, rng):
    self.r = rng
    self.now = 1000.0
    self.threads = {}          # name -> [thread, baton, predicate, deadline, done]
    self.main = real.Semaphore(0)
    self.cur = None
    self.aborting = False
    self.by_ident = {}
    self.prefer = None
    self.steps = 0

  def managed(self):
    return self.by_ident.get(real.get_ident())

  def spawn(self, name, fn):
    baton = real.Semaphore(0)
    rec = [None, baton, lambda: True, None, False]

    def run():
      baton.acquire()
      self.by_ident[real.get_ident()] = name
      try:
        if not self.aborting:
          fn()
      except Abort:
        pass
      finally:
        rec[4] = True
        self.by_ident.pop(real.get_ident(), None)
        self.main.release()
    rec[0] = real.Thread(target=run, daemon=True)
    self.threads[name] = rec
    rec[0].start()

  def block(self, pred, deadline=None):
    """Gives up control; returns whether pred holds (else: the time is up)."""
    n = self.managed()
    if n is None:
      # not one of the threads (e.g. the harness itself): nothing to wait for
      if pred():
        return True
      raise RuntimeError('the harness would block')
    if self.aborting:
      raise Abort()
    rec = self.threads[n]
    rec[2], rec[3] = pred, deadline
    self.main.release()
    rec[1].acquire()
    if self.aborting:
      raise Abort()
    return bool(pred())

  def step(self, n):
    rec = self.threads[n]
    self.cur = n
    self.steps += 1
    rec[1].release()
    if not self.main.acquire(timeout=30):
      raise RuntimeError('thread %s does not come back' % n)
    self.cur = None

  def ready(self):
    return [n for n, t in self.threads.items() if not t[4] and t[2]()]

  def timed(self):
    return [n for n, t in self.threads.items() if not t[4] and t[3] is not None and not t[2]()]

  def alive(self):
    return [n for n, t in self.threads.items() if not t[4]]

  def expire(self, n):
    """The time of n is up."""
    self.now = max(self.now, self.threads[n][3] + 1e-6)
    self.step(n)

  def abort(self):
    self.aborting = True
    for n in self.alive():
      self.threads[n][1].release()
      self.threads[n][0].join(5)

  # ----------------------------------------------------------- primitives
  def modules(self):
    s = self

    class Lock:

      def __init__(self):
        self.owner = None
        self.count = 0

      def acquire(self, blocking=True, timeout=-1):
        me = s.managed() or 'main'
        if self.reentrant and self.owner == me:
          self.count += 1
          return True
        s.block(lambda: True)
        if self.owner is not None:
          if not blocking:
            return False
          s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else s.now + timeout)
          if self.owner is not None:
            return False
        self.owner, self.count = me, 1
        return True

      def release(self):
        if self.owner is None:
          raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
          self.owner = None

      def locked(self):
        return self.owner is not None

      def __enter__(self):
        self.acquire()
        return self

      def __exit__(self, *a):
        if s.aborting and self.owner is None:
          return
        self.release()

    class PlainLock(Lock):
      reentrant = False

    class RLock(Lock):
      reentrant = True

    class Condition:

      def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

      def __enter__(self):
        self.lock.__enter__()
        return self

      def __exit__(self, *a):
        return self.lock.__exit__(*a)

      def wait(self, timeout=None):
        if self.lock.owner != (s.managed() or 'main'):
          raise RuntimeError('cannot wait on un-acquired lock')
        w = [False]
        self.waiters.append(w)
        count, self.lock.count, self.lock.owner = self.lock.count, 0, None
        got = s.block(lambda: w[0], None if timeout is None else s.now + timeout)
        if not got:
          s.block(lambda: True)
          if w in self.waiters and any(x is w for x in self.waiters):
            self.waiters = [x for x in self.waiters if x is not w]
        while self.lock.owner is not None:
          s.block(lambda: self.lock.owner is None)
        self.lock.owner, self.lock.count = s.managed() or 'main', count
        return got

      def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else s.now + timeout
        v = predicate()
        while not v:
          if end is not None:
            if end <= s.now:
              break
            self.wait(end - s.now)
          else:
            self.wait()
          v = predicate()
        return v

      def notify(self, n=1):
        if self.lock.owner != (s.managed() or 'main'):
          raise RuntimeError('cannot notify on un-acquired lock')
        for w in self.waiters[:n]:
          w[0] = True
        self.waiters = self.waiters[n:]

      def notify_all(self):
        self.notify(len(self.waiters))

      notifyAll = notify_all

    class Semaphore:

      def __init__(self, value=1):
        self.value = value

      def acquire(self, blocking=True, timeout=None):
        s.block(lambda: True)
        if not self.value:
          if not blocking:
            return False
          s.block(lambda: self.value > 0, None if timeout is None else s.now + timeout)
          if not self.value:
            return False
        self.value -= 1
        return True

      def release(self, n=1):
        self.value += n

      def __enter__(self):
        self.acquire()
        return self

      def __exit__(self, *a):
        self.release()

    class Event:

      def __init__(self):
        self.flag = False

      def is_set(self):
        return self.flag

      def set(self):
        self.flag = True

      def clear(self):
        self.flag = False

      def wait(self, timeout=None):
        s.block(lambda: self.flag, None if timeout is None else s.now + timeout)
        return self.flag

    class Threading:
      def __getattr__(self, n):
        return getattr(real, n)

    Threading.Lock = staticmethod(PlainLock)
    Threading.RLock = staticmethod(RLock)
    Threading.Condition = staticmethod(Condition)
    Threading.Semaphore = Threading.BoundedSemaphore = staticmethod(Semaphore)
    Threading.Event = staticmethod(Event)

    class Time:
      def __getattr__(self, n):
        return getattr(realtime, n)

      @staticmethod
      def time():
        return s.now

      monotonic = perf_counter = time

      @staticmethod
      def sleep(d):
        s.block(lambda: False, s.now + d)
    return Threading(), Time()
