# Simulated threads: real Java threads, one of which holds the baton at any time;
# who gets it next, and at which line of the library, is part of the plan.
import sys
import java.lang.Thread
import java.lang.Throwable
import java.lang.Runnable
import core
from core import SimLock, PlanInvalid, Violation
import SimTrace

LIMIT = 2000000


class _Body(java.lang.Runnable):
    def __init__(self, sched, i, fn, out):
        self.a = (sched, i, fn, out)

    def run(self):
        sched, i, fn, out = self.a
        sched.begin(i)
        try:
            core.tracer.install()
            try:
                try:
                    r = ('ok', fn())
                finally:
                    core.tracer.uninstall()
            except SimTrace.Budget, e:
                r = ('hang', e)
            except Violation, e:
                r = ('violation', e)
            except java.lang.Throwable, e:
                r = ('hang', e) if isinstance(e, SimTrace.Budget) else ('exc', e)
            except BaseException, e:
                r = ('exc', e)
            out[i] = r
        finally:
            sched.end()


def run(ctx, bodies, preempts, first=0, cancels=(), every=0):
    """-> list of ('ok', value) / ('exc', exception)
    preempts: [[thread, its operation, point in it, next thread], ..]
    cancels: [(thread, operation, point, exception), ..]
    every: > 0: the threads take turns, so many points each"""
    n = len(bodies)
    if not 1 <= n <= 8:
        raise PlanInvalid('threads')
    sched = SimTrace.Sched(n, LIMIT)
    for p in preempts or []:
        if len(p) != 4 or [x for x in p if not isinstance(x, (int, long)) or x < 0]:
            raise PlanInvalid('preempt')
        sched.addPreempt(p[0] % n, p[1], p[2], p[3] % n)
    for c in cancels:
        if len(c) != 4 or c[1] < 0 or c[2] < 1:
            raise PlanInvalid('cancel')
        sched.addCancel(c[0] % n, c[1], c[2], c[3])
    sched.every = every or 0
    out = [None] * n
    SimLock.sched = sched
    core.tracer.setSched(sched)
    try:
        ts = []
        for i, b in enumerate(bodies):
            t = java.lang.Thread(None, _Body(sched, i, b, out), 'sim-%d' % i, 16 << 20)
            t.setDaemon(True)
            t.start()
            ts.append(t)
        sched.start(first % n)
        for t in ts:
            t.join()
    finally:
        SimLock.sched = None
        core.tracer.setSched(None)
    ctx.fault('preemption', int(sched.fired))
    ctx.stat('thread_switches', int(sched.switches))
    ctx.token(str(sched.order))
    ctx.log('order', str(sched.order))
    for i, r in enumerate(out):
        if r is None:
            raise RuntimeError('thread %d has no result' % i)
        if r[0] == 'violation':
            raise r[1]
        if r[0] == 'hang':
            ctx.fail('hang', 'a thread did not end within %d steps' % LIMIT)
    if sched.deadlock:
        ctx.fail('deadlock', 'threads wait for each other for ever')
    return out, sched


def gen_preempts(rng, n, ops, est):
    """few preemptions find most races; places are spread over the operations and the work of each"""
    k = rng.weighted([(1, 0), (4, 1), (5, 2), (4, 3), (2, 6), (1, 20)])
    out = []
    for _ in range(k):
        t = rng.n(n)
        at = rng.between(1, est) if rng.chance(60) else 1 + rng.loguniform(est)
        out.append([t, rng.n(ops[t % len(ops)] or 1), at, (t + 1 + rng.n(n - 1)) % n if n > 1 else 0])
    return sorted(out)


def gen_schedule(rng, n, ops, est, cut=True):
    """-> what of a round decides who runs when"""
    rd = dict(pre=gen_preempts(rng, n, ops, est), first=rng.n(n), cut=[])
    if rng.chance(20):
        rd['every'] = rng.weighted([(3, 1), (2, 2), (2, 3), (2, rng.between(4, 12)), (1, rng.between(13, 60))])
    if cut and rng.chance(20):
        t = rng.n(n)
        rd['cut'] = [[t, rng.n(ops[t] or 1), 1 + rng.loguniform(est)]]
    return rd


def round_of(rd, make):
    """-> keyword arguments of run()"""
    cuts = []
    if rd.get('cut') and make is None:
        raise PlanInvalid('cut')
    for c in rd.get('cut') or []:
        if len(c) != 3 or [x for x in c if not isinstance(x, (int, long))]:
            raise PlanInvalid('cut')
        cuts.append((c[0], c[1], c[2], make()))
    ev = rd.get('every') or 0
    if not isinstance(ev, (int, long)) or ev < 0:
        raise PlanInvalid('every')
    return dict(preempts=rd.get('pre'), first=rd.get('first') or 0, cancels=cuts, every=ev)
