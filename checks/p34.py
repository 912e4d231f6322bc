import itertools

from mc.engine import Check
from mc import histories, sched
from mc.zygote import Zygote

CHEAP = ('write_rev1', 'packers', 'sub_formats', 'headers', 'pickled', 'text', 'extended', 'catalogs', 'floats', 'guesses', 'bad_write')
HEAVY = (('rev1', 'rev1'), ('rev1', 'rev0'), ('custom0', 'custom2'), ('reel60', 'rev1le'), ('numpy', 'rev1'), ('write_rev0', 'rev1'))
DEEP = ('packers', 'headers', 'pickled', 'extended', 'floats', 'guesses')
PARTS = 16


class P34(Check):
    id = 'P34'
    level = 'model_checking'
    technique = 'stateless exploration of the preemption-bounded interleavings of two real threads at source lines, each schedule in a new process'
    level_note = ('Every pair of eleven operations, and six (thorough: all) pairs among 27, with one preemption (thorough: two for the shorter ones) before the '
                  'first (thorough: first two) executions of each source line of segpy; a thread may be preempted only between lines.')
    rule = ('A case is a pair of operations and part of its schedules. Each schedule is run in a process which has only imported segpy; the results of both '
            'operations, of what they made, and of both once more afterwards must be those of each in a process of its own. States are distinct schedules.')

    def cases(self, tier):
        pairs = list(itertools.combinations_with_replacement(CHEAP, 2)) + list(HEAVY)
        for pair in pairs:
            for part in range(PARTS):
                yield dict(ops=list(pair), bound=1, times=1, part=part)
        if tier == 'thorough':
            for pair in itertools.combinations_with_replacement(histories.NAMES, 2):
                if pair not in pairs:
                    for part in range(PARTS):
                        yield dict(ops=list(pair), bound=1, times=1, part=part)
            for pair in itertools.combinations_with_replacement(CHEAP, 2):
                for part in range(PARTS):
                    yield dict(ops=list(pair), bound=1, times=2, part=part)
            for pair in itertools.combinations_with_replacement(DEEP, 2):
                for part in range(PARTS):
                    yield dict(ops=list(pair), bound=2, times=1, part=part)

    def setup(self, ctx):
        self.zygote = Zygote('mc.threads', 'mc.histories')
        self.alone = {}

    def wanted(self, op):
        if op not in self.alone:
            self.alone[op] = self.zygote.ask('mc.histories', 'run', [op])
        return self.alone[op]

    def run(self, case, ctx):
        ops, bound, times = case['ops'], case['bound'], case['times']
        want = []
        for op in ops:
            answer = self.wanted(op)
            ctx.require(answer[0] == 'ok', '{} alone raised {}', op, answer[1:])
            want.append((answer[1][0][0], answer[1][1][0]))

        def execute(prefix):
            answer = self.zygote.ask('mc.threads', 'race', ops, prefix, bound, times)
            what = '{} and {} in two threads'.format(*ops)
            if answer[0] != 'ok':
                ctx.fail('{}: {}'.format(what, answer[1:]))
            results, later, again, decisions, log = answer[1]
            switches = [log[k] for k in range(1, len(log)) if log[k][0] != log[k - 1][0]]
            what += ', switching at {}'.format(switches)
            for k, op in enumerate(ops):
                ctx.require(results[k][0] == 'ok', '{}: {} raised {}', what, op, results[k][1])
                ctx.equal(results[k][1], want[k][0], '{}: result of {}'.format(what, op))
                ctx.equal(later[k], want[k][1], '{}: what {} made'.format(what, op))
                ctx.equal(again[k], want[k][0], '{}: result of {} again afterwards'.format(what, op))
            s = sched.Scheduler(prefix, bound)
            s.decisions = decisions
            ctx.transition(len(decisions))
            ctx.state((tuple(ops), bound, times, tuple(d[1] for d in decisions)))
            ctx.trace()
            ctx.count('schedules')
            return s

        todo = []
        roots = []
        for first in (0, 1):
            roots += sched.alternatives(execute([first]), 1)
        todo = [r for k, r in enumerate(roots) if k % PARTS == case['part']]
        while todo:
            prefix = todo.pop()
            todo += sched.alternatives(execute(prefix), len(prefix))
        ctx.sample(case)


CHECK = P34()
