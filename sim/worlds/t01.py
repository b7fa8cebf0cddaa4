# -*- coding: utf-8 -*-
# T01: threads with their own short messages
from common import *
import pdus
import threads
import SimTrace


def gen_message(rng):
    coding = rng.weighted([(5, '7bit'), (3, 'ucs2'), (2, '8bit')])
    m = dict(coding=coding, number=gen_number(rng), csca=gen_number(rng) if rng.chance(30) else None, text=gen_text(rng, coding, 3),
             klass=rng.n(4) if rng.chance(20) else None, srr=rng.chance(30), plain=rng.chance(50), fmt=rng.chance(30))
    if coding == 'ucs2' and tpdu.is_gsm(m['text']):
        m['text'] = m['text'][:-1] + u'\u4e2d'
    if rng.chance(15):
        m['ref'] = rng.n(256)
    if rng.chance(25):
        m['vp'] = rng.choice([300, 3600, 43200, 86400, 604800, 63 * 604800])
    return m


def gen(rng, tier):
    style = rng.weighted([(3, 'submit'), (3, 'receive'), (4, 'mix'), (2, 'same'), (2, 'alike')])
    n = rng.weighted([(5, 2), (3, 3), (1, 4)])
    same = gen_message(rng)
    sspec = pdus.gen_spec(rng)
    ths = []
    for _ in range(n):
        ops = []
        for _i in range(rng.between(1, 3)):
            k = rng.n(10)
            sub = style == 'submit' or style in ('mix', 'same', 'alike') and rng.chance(50)
            if k == 0:
                ops.append(dict(op='bad', spec=pdus.gen_spec(rng), other=pdus.gen_spec(rng), dm=pdus.gen_damage(rng)))
            elif k == 1 and sub:
                ops.append(dict(op='refuse', text=u'x' * rng.choice([3, 200])))
            elif sub:
                ops.append(dict(op='submit', m=same if style == 'same' else twin_message(rng, same) if style == 'alike' else gen_message(rng), again=rng.chance(20), inside=rng.chance(50)))
            else:
                ops.append(dict(op='receive', spec=sspec if style == 'same' else pdus.twin(rng, sspec) if style == 'alike' else pdus.gen_spec(rng), reuse=rng.chance(30)))
        ths.append(ops)
    rounds = [threads.gen_schedule(rng, n, [len(o) for o in ths], 270) for _ in range(rng.weighted([(3, 1), (3, 2), (1, 4)]))]
    return dict(threads=ths, rounds=rounds, fresh=rng.chance(70), skip=gen_skip(rng), zone=rng.choice(ZONES))


def outcome(fn):
    """what a piece of work gives, in a form that can be compared"""
    try:
        return ('ok', fn())
    except SimTrace.Budget:
        raise
    except Exception, e:
        return ('exc', type(e).__name__)


class Direct(object):
    """what worlds use to compose, without the tracing of single calls: for use inside simulated threads"""

    def __init__(self, lib):
        self.lib = lib

    def must(self, kind, fn, *a, **k):
        return fn(*a, **k)


class NoLib(object):
    class SmsSubmit(object):
        def __init__(self, *a):
            pass


def run(plan, ctx):
    ths = plan.get('threads') or []
    if not 1 <= len(ths) <= 6:
        raise PlanInvalid('threads')
    set_zone(plan.get('zone') or 'UTC')
    used = []           # concatenation references of messages under way
    count = [0]
    new = True
    for rd in plan.get('rounds') or []:
        if plan.get('fresh') and used:
            # a new process: its references have nothing to do with those before
            ctx.restart()
            ctx.restart_rx()
            del used[:]
            count[0] = 0
            new = True
        lib = ctx.lib.load('SmsSubmit', 'SmsDeliver')
        if new:
            skip_references(ctx, lib, plan)
            new = False
        bodies, checks = [], []
        for ops in ths:
            work = []
            for op in ops or []:
                k = op.get('op')
                if k == 'submit':
                    m = dict(op.get('m') or {})
                    if m.get('vp') is not None and not 300 <= m['vp'] <= 63 * 604800:
                        raise PlanInvalid('vp')
                    made = None
                    if not op.get('inside'):
                        made = new_submit(ctx, m)[0]
                        if m.get('vp') is not None:
                            made.validity = datetime.timedelta(seconds=m['vp'])
                    text = new_submit(Direct(NoLib), m)[1]
                    n = 2 if op.get('again') else 1
                    count[0] += n

                    def send(m=m, made=made, n=n):
                        sms = made
                        if sms is None:
                            sms = new_submit(Direct(lib), m)[0]
                            if m.get('vp') is not None:
                                sms.validity = datetime.timedelta(seconds=m['vp'])
                        return [sms.to_pdu() for _ in range(n)]
                    work.append((k, send, (m, text)))
                elif k == 'refuse':
                    text = valid_text('7bit', op.get('text'))[:400]
                    sms = lib.SmsSubmit('+34600000000', text)
                    sms.validity = datetime.timedelta(seconds=60)
                    count[0] += 1
                    work.append((k, sms.to_pdu, None))
                elif k == 'receive':
                    h = pdus.build(op.get('spec') or {})
                    if op.get('reuse') and work and work[-1][0] == 'receive':
                        def again(h=h, prev=work[-1][3]):
                            prev[0].pdu = h
                            return prev[0]
                        box = work[-1][3]
                        # the one before is no longer what it was
                        work[-1] = (k, work[-1][1], None, box)
                        work.append((k, again, op['spec'], box))
                    else:
                        box = [None]

                        def first(h=h, box=box):
                            box[0] = lib.SmsDeliver(h)
                            return box[0]
                        work.append((k, first, op['spec'], box))
                elif k == 'bad':
                    h = pdus.damage(op.get('dm') or {}, pdus.build(op.get('spec') or {}), pdus.build(op.get('other') or {}))
                    alone = ctx.call(lambda: outcome(lambda: data_view(lib.SmsDeliver(h))), _limit=60000)
                    if alone[0] != 'ok':
                        continue      # S07's business
                    ctx.fault('damaged_pdu')
                    work.append((k, (lambda h=h: data_view(lib.SmsDeliver(h))), alone[1]))
                else:
                    raise PlanInvalid('op')

            def body(work=work):
                res = []
                for w in work:
                    s = core.SimLock.sched
                    if s:
                        s.freshen()
                    res.append(outcome(w[1]))
                return res
            bodies.append(body)
            checks.append(work)
        if count[0] > 95:
            raise PlanInvalid('too many under way')
        out, sched = threads.run(ctx, bodies, **threads.round_of(rd, lambda: core.Interrupt('stop')))
        ctx.stat('nontrivial')
        for i, (work, (st, res)) in enumerate(zip(checks, out)):
            if sched.cancelled[i]:
                ctx.fault('thread_cancelled')
                if st == 'ok':
                    ctx.fail('interrupt-lost', 'a cancelled thread went on')
                continue
            if st != 'ok':
                ctx.fail('disturbed', 'a thread ended with %s %s' % (core.exc_name(res), core.str_exc(res)))
            for w, (s, v) in zip(work, res):
                k = w[0]
                if k == 'bad':
                    if (s, v) != w[2]:
                        ctx.fail('disturbed', 'alone %s, among threads %s' % (brief(w[2]), brief((s, v))))
                elif k == 'refuse':
                    if s == 'ok':
                        ctx.fail('disturbed', 'a validity of a minute was not refused')
                    ctx.fault('refused_submission')
                elif s != 'ok':
                    ctx.fail('disturbed', '%s raised %s' % (k, v))
                elif k == 'receive':
                    if w[2] is not None:
                        pdus.check_spec(ctx, v, w[2], None)
                    ctx.stat('received')
                else:
                    m, text = w[2]
                    for lst in v:
                        ps = check_parts(ctx, m, text, read_pdus(ctx, lst))
                        ctx.stat('submitted')
                        for r in ps:
                            vp = r['vp']
                            if m.get('vp') is None and vp is not None or m.get('vp') is not None and \
                                    (vp is None or vp[0] != 'rel' or not 0 <= m['vp'] - tpdu.relative_seconds(vp[1]) < 604800):
                                ctx.fail('disturbed', 'validity %r submitted as %r' % (m.get('vp'), vp))
                        c = ps[0]['concat']
                        if c is not None and len(ps) > 1 and m.get('rand_id') is None:
                            if c[0] in used:
                                ctx.fail('reference', 'two messages under way with reference %d' % c[0])
                            used.append(c[0])
        ctx.log('round', len(bodies))


def data_view(sms):
    d = sms.data
    return repr(sorted(d.items()))
