"""Two threads, each doing one of the operations of mc.histories, under a controlled scheduler.

Meant to be run in a new process (see mc.zygote), so that whatever segpy keeps in memory is as it is after importing.
"""
import os
import shutil
import sys
import tempfile

from segpy.reader import create_reader

from mc import engine, histories, sched, spaces, sut

PLACES = (os.path.join(engine.REPO, 'segpy') + os.sep, os.path.join(engine.REPO, 'segpy-ext') + os.sep)

# (x and z are of the same size, and opened with the same arguments)
CACHED = {'x': histories.SPECS['rev1'], 'y': histories.SPECS['rev1le'], 'z': dict(histories.SPECS['rev1'], k=9)}


def cached(names, prefix, bound, times, start, scratch):
    """As race(), for operations which open a file with a cache directory, in the state given by start."""
    root = tempfile.mkdtemp(dir=scratch)
    try:
        for name in set(names):
            with open(os.path.join(root, name + '.segy'), 'wb') as fh:
                fh.write(spaces.build(CACHED[name]).to_bytes())
        if start != 'none':
            pid = os.fork()     # so that this process remains as it was
            if pid == 0:
                try:
                    for name in names:
                        opening(root, name)()
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
        if start == 'damaged':
            for e in os.listdir(os.path.join(root, 'cache')):
                os.truncate(os.path.join(root, 'cache', e), 200)
        return race([opening(root, name) for name in names], prefix, bound, times)
    finally:
        shutil.rmtree(root)


def opening(root, name):
    kw = dict(encoding='cp037', endian='<') if name == 'y' else {}

    def op(keep=None):
        with open(os.path.join(root, name + '.segy'), 'rb') as fh:
            return sut.observe_reader(create_reader(fh, cache_directory=os.path.join(root, 'cache'), **kw))
    return op


def race(names, prefix, bound, times):
    """Run the operations at once, by the schedule which begins with prefix.

    Threads may be preempted before any of the first `times` executions, in each thread, of every source line of segpy.
    Returns (results in the threads, what is seen later, results of the same operations later, decisions, log).
    """
    s = sched.Scheduler(prefix, bound)
    mine = {}

    def body(name):
        def go():
            seen = {}

            def on_line(frame, event, arg):
                if s.preemptions >= bound and len(s.decisions) >= len(prefix):
                    sys.settrace(None)      # the rest of the schedule is settled
                    return None
                if event == 'line':
                    key = frame.f_code, frame.f_lineno
                    n = seen.get(key, 0)
                    if n < times:
                        seen[key] = n + 1
                        s.point((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                return on_line

            def on_call(frame, event, arg):
                code = frame.f_code
                known = mine.get(code)
                if known is None:
                    known = mine[code] = code.co_filename.startswith(PLACES)
                return on_line if known else None
            keep = []
            sys.settrace(on_call)
            try:
                return operation(name)(keep), keep
            finally:
                sys.settrace(None)
        return go

    ended = s.run([body(n) for n in names])
    results, later = [], []
    for status, value in ended:
        if status == 'raised':
            results.append(('raised', repr(value)[:300]))
            later.append(None)
        else:
            results.append(('ok', value[0]))
            later.append([f() for f in value[1]])
    again = [operation(n)([]) for n in names]
    return results, later, again, s.decisions, s.log


def operation(name):
    return name if callable(name) else histories.OPS[name]
