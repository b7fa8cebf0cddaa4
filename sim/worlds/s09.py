# -*- coding: utf-8 -*-
# S09: subscribers and service centres that know of each other only what PDUs say
from common import *
import pdus


def gen_book(rng, n):
    """distinct numbers, some the same but for '+', a digit or a trailing zero"""
    out = []
    while len(out) < n:
        k = rng.n(6)
        if out and k == 0:
            x = rng.choice(out)
            c = x[1:] if x[0] == '+' else '+' + x
        elif out and k == 1:
            x = rng.choice(out)
            c = x + rng.choice(['0', '00', '1'])
        elif out and k == 2:
            x = rng.choice(out)
            c = x[:-1]
        elif k == 3:
            c = rng.choice(['000', '0000', '+000', '112', '00000000000', '12121', '900', '99999999999999999999', '+1' + '0' * 10])
        else:
            c = gen_number(rng)
        if len(c.lstrip('+')) in range(3, 21) and c not in out:
            out.append(c)
    return out


def gen(rng, tier):
    subs = gen_book(rng, rng.between(2, 5))
    scs = gen_book(rng, rng.between(1, 3))
    ops = []
    for _ in range(rng.between(2, 18 if tier == 'quick' else 40)):
        k = rng.n(12)
        if k < 3:
            ops.append(dict(op='send', a=rng.n(len(subs)), b=rng.n(len(subs)), sc=rng.n(len(scs)), long=rng.chance(25),
                            coding=rng.choice(['7bit', '7bit', 'ucs2', '8bit'])))
        elif k < 8:
            ops.append(dict(op='net', x=rng.n(1000), dup=rng.chance(15), lose=rng.chance(8)))
        elif k < 11:
            ops.append(dict(op=rng.choice(['reply', 'reply', 'forward']), a=rng.n(len(subs)), x=rng.n(1000), to=rng.n(len(subs)),
                            long=rng.chance(20), edit=rng.chance(25), keep=rng.chance(80)))
        else:
            ops.append(dict(op=rng.choice(['restart', 'noise']), a=rng.n(len(subs))))
    return dict(subs=subs, scs=scs, ops=ops, t0=gen_instant(rng), q=gen_quarters(rng), reuse=rng.chance(50), kinds=gen_kinds(rng))


def run(plan, ctx):
    subs = [valid_number(x) for x in plan.get('subs') or []]
    scs = [valid_number(x) for x in plan.get('scs') or []]
    if not subs or not scs or len(set(subs)) < len(subs) or len(set(scs)) < len(scs):
        raise PlanInvalid('book')
    t = [plan.get('t0') or 0]
    q = plan.get('q') or 0
    kinds = kinds_of(plan)
    if not 946771200 <= t[0] <= 3155600000 or not -79 <= q <= 79:
        raise PlanInvalid('time')
    flying = []         # what the network carries: (truth, part)
    boxes = [[] for _ in subs]
    serial = [0]
    objs = {}
    rx = {}

    def submit(a, number, csca, truth_to, truth_sc, op, obj=None):
        coding = op.get('coding') or '7bit'
        if coding not in FMT:
            raise PlanInvalid('coding')
        text = (u'%d from %d ' % (serial[0], a)) * (20 if op.get('long') else 1)
        if coding == 'ucs2':
            text += u'\u3042'
        m = dict(number=number, csca=csca, coding=coding, text=text)
        if obj is None:
            sms, text = new_submit(ctx, m)
        else:
            # the same object is addressed anew
            sms = obj
            sms.number, sms.csca, sms.text, sms.fmt = number, csca, to_lib_text(coding, text, False), FMT[coding] if coding == '8bit' else None
        objs[a] = sms
        sms.ref = None
        pdus_ = pdus_of(ctx, 'submit-failed', sms)
        serial[0] += 1
        for p in pdus_:
            r = accept(ctx, p)
            # routing uses nothing but the PDU
            if r['smsc'] not in scs:
                ctx.fail('misrouted', 'no such service centre: %r, user gave %r' % (r['smsc'], csca))
            if r['da'] not in subs:
                ctx.fail('misrouted', 'no such subscriber: %r, user gave %r' % (r['da'], number))
            if scs.index(r['smsc']) != truth_sc or subs.index(r['da']) != truth_to:
                ctx.fail('misrouted', 'went to %r by %r; user addressed %r by %r' % (r['da'], r['smsc'], subs[truth_to], scs[truth_sc]))
            flying.append(dict(a=a, b=truth_to, sc=truth_sc, r=r, serial=serial[0]))
        check_parts(ctx, m, text, pdus_)
        ctx.stat('messages')

    def arrive(f):
        t[0] += 3
        ctx.simtime += 3
        b = f['b']
        h = deliver_pdu(f['r'], subs[f['a']], scs[f['sc']], t[0], q, kinds=kinds)
        if plan.get('reuse') and b in rx:
            sms = rx[b]
            ctx.must('receive-failed', setattr, sms, 'pdu', h)
        else:
            sms = rx[b] = ctx.must('receive-failed', ctx.rx.SmsDeliver, h)
        check_deliver(ctx, sms, dict(number=subs[f['a']], csca=scs[f['sc']], coding=f['r']['coding'], text=unicode_of(f['r']),
                                     concat=f['r']['concat'], date=utc(t[0])))
        boxes[b].append((sms.number, sms.csca, f['a'], f['sc']))
        ctx.log('arrive', b, f['a'], f['sc'])
        ctx.token('%d>%d' % (f['a'], b))

    for op in plan.get('ops') or []:
        k = op.get('op')
        a = (op.get('a') or 0) % len(subs)
        if k == 'send':
            b, sc = (op.get('b') or 0) % len(subs), (op.get('sc') or 0) % len(scs)
            submit(a, subs[b], scs[sc], b, sc, op)
        elif k == 'net':
            if flying:
                i = (op.get('x') or 0) % len(flying)
                if i:
                    ctx.fault('reorder')
                if op.get('lose'):
                    ctx.fault('loss')
                    flying.pop(i)
                    continue
                f = flying[i]
                if op.get('dup'):
                    ctx.fault('duplicate')
                else:
                    flying.pop(i)
                arrive(f)
        elif k in ('reply', 'forward'):
            if not boxes[a]:
                continue
            number, csca, ta, tsc = boxes[a][(op.get('x') or 0) % len(boxes[a])]
            obj = objs.get(a) if op.get('edit') else None
            if not op.get('keep'):
                tsc = (op.get('to') or 0) % len(scs)
                csca = scs[tsc]
            if k == 'reply':
                submit(a, number, csca, ta, tsc, op, obj)
            else:
                b = (op.get('to') or 0) % len(subs)
                submit(a, subs[b], csca, b, tsc, op, obj)
            ctx.stat('replies')
            ctx.stat('nontrivial')
            ctx.token(k)
        elif k == 'restart':
            ctx.restart_rx()
            rx.clear()
        elif k == 'noise':
            h = tpdu.deliver(u'@Info', None, 0, t[0], q, 2, [0xe8, 0x34])
            st, v = ctx.call(setattr, rx[a], 'pdu', h) if a in rx else ctx.call(ctx.rx.SmsDeliver, h)
            if st != 'ok':
                ctx.fail('receive-failed', core.exc_name(v))
            ctx.fault('foreign_message')
        else:
            raise PlanInvalid('op')
    while flying:
        arrive(flying.pop(0))
