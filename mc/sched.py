"""A controlled scheduler: exhaustive, preemption-bounded exploration of the interleavings of real threads.

Exactly one thread runs at a time.  Threads call point() before each operation on shared state; there the scheduler decides
who runs next.  explore() enumerates every schedule with at most `bound` preemptions (CHESS-style, stateless).
"""
import threading

STUCK_AFTER_S = 5


class Scheduler:
    def __init__(self, prefix, bound):
        self.prefix = prefix
        self.bound = bound
        self.decisions = []     # (enabled threads, chosen, preemptions before, running thread)
        self.preemptions = 0
        self.threads = {}
        self.ident = {}
        self.running = None
        self.progress = threading.Semaphore(0)
        self.log = []
        self.stuck = 0
        self.error = None
        self.lock = threading.Lock()

    def point(self, label):
        """Called by a controlled thread which is about to do something others might see."""
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        t = self.threads[me]
        with self.lock:
            t['label'] = label
            t['state'] = 'ready'
            went_on = self.running == me    # else it was given up as blocked, and others were let on
            chosen = self._choose() if went_on or self.running is None else None
        if not (went_on and chosen == me):
            t['go'].acquire()

    def _choose(self):
        """Decide who runs next, and let it."""
        enabled = [n for n, t in self.threads.items() if t['state'] == 'ready']
        if not enabled:
            self.running = None
            self.progress.release()
            return None
        current = self.running
        k = len(self.decisions)
        if k < len(self.prefix):
            chosen = self.prefix[k]
            if chosen not in enabled:
                self.error = 'the schedule could not be replayed'
                chosen = enabled[0]
        else:
            chosen = current if current in enabled else enabled[0]
        self.decisions.append((tuple(enabled), chosen, self.preemptions, current))
        if current in enabled and chosen != current:
            self.preemptions += 1
        t = self.threads[chosen]
        self.log.append((chosen, t['label']))
        t['state'] = 'running'
        self.running = chosen
        if current != chosen:
            t['go'].release()
        return chosen

    def _body(self, name, fn):
        self.ident[threading.get_ident()] = name
        t = self.threads[name]
        t['go'].acquire()
        try:
            t['result'] = ('ok', fn())
        except BaseException as e:
            t['result'] = ('raised', e)
        with self.lock:
            t['state'] = 'done'
            if self.running == name:
                self._choose()
            else:
                self.progress.release()

    def run(self, bodies):
        for name, fn in enumerate(bodies):
            self.threads[name] = {'go': threading.Semaphore(0), 'state': 'ready', 'label': 'start', 'result': None}
            th = threading.Thread(target=self._body, args=(name, fn), daemon=True)
            self.threads[name]['thread'] = th
            th.start()
        with self.lock:
            self._choose()
        idle = 0
        while not all(t['state'] == 'done' for t in self.threads.values()):
            steps = len(self.log)
            if self.progress.acquire(timeout=STUCK_AFTER_S) or len(self.log) != steps:
                idle = 0
                continue
            idle += 1
            with self.lock:
                # The running thread waits for a lock another one holds: let others go on
                if self.running is not None and self.threads[self.running]['state'] == 'running':
                    self.threads[self.running]['state'] = 'blocked'
                    self.stuck += 1
                    self.running = None
                    self._choose()
            if idle > 6:
                raise RuntimeError('deadlock: %r' % {n: t['state'] for n, t in self.threads.items()})
        for t in self.threads.values():
            t['thread'].join()
        if self.error:
            raise RuntimeError(self.error)
        return [self.threads[n]['result'] for n in sorted(self.threads)]


def alternatives(s, start):
    """The schedules which differ from the one just run at one decision at or after `start`."""
    out = []
    for k in range(start, len(s.decisions)):
        enabled, chosen, before, current = s.decisions[k]
        for other in enabled:
            if other == chosen:
                continue
            cost = 1 if current in enabled and other != current else 0
            if before + cost <= s.bound:
                out.append([d[1] for d in s.decisions[:k]] + [other])
    return out


def explore(run_one, bound, roots=((),)):
    """Run every schedule with at most `bound` preemptions.  run_one(scheduler) executes one; returns their number."""
    todo = [list(r) for r in roots]
    done = 0
    while todo:
        prefix = todo.pop()
        s = Scheduler(prefix, bound)
        run_one(s)
        done += 1
        todo.extend(alternatives(s, len(prefix)))
    return done
