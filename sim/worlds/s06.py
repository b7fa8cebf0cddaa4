# S06: receivers with a past
from pdus import *


def gen(rng, tier):
    specs = [gen_spec(rng) for _ in range(rng.between(2, 7))]
    # look-alikes: each differs from another PDU in one respect only
    for _ in range(rng.n(5)):
        specs.insert(rng.n(len(specs) + 1), twin(rng, rng.choice(specs)))
    ops = []
    for _ in range(rng.between(4, 24)):
        ops.append(rng.weighted([
            (6, dict(op='in', i=rng.n(len(specs)), rx=rng.n(3), how=rng.choice(['reuse', 'reuse', 'new', 'lax', 'lower']))),
            (3, dict(op='bad', i=rng.n(len(specs)), j=rng.n(len(specs)), d=gen_damage(rng), rx=rng.n(3), how=rng.choice(['reuse', 'reuse', 'new', 'lax']), times=rng.choice([1, 1, 2, 3]))),
            (1, dict(op='restart')), (1, dict(op='look', i=rng.n(20)))]))
    return dict(specs=specs, ops=ops, zone=rng.choice(ZONES))


def seen_by(ctx, st, v):
    if st != 'ok':
        return u'refused'
    st, d = throw_at(ctx, lambda: v.data)
    return u'%s %r' % (st, sorted(d.items()) if st == 'ok' else None)


def run(plan, ctx):
    set_zone(plan.get('zone') or 'UTC')
    specs = plan.get('specs') or []
    if not specs:
        raise PlanInvalid('specs')
    hexes = [build(s) for s in specs]
    rx = {}
    strict = {}
    kept = []
    inbox = []
    for op in plan.get('ops') or []:
        k = op.get('op')
        if k == 'in':
            i = op['i'] % len(specs)
            h = str(hexes[i])
            how = op.get('how')
            lax = False
            if how == 'lower':
                h = h.lower()
            elif how == 'lax':
                h, lax = h + 'F', True
            ctx.log('in', i, str(how))
            ctx.token('i%s%s' % (specs[i]['kind'][0], how))
            r = op.get('rx')
            if how in ('reuse', 'lower') and r in rx:
                o = rx[r]

                def again():
                    o.pdu = h
                    return o
                sms = ctx.must('receive-failed', again)
                kept[:] = [x for x in kept if x[0] is not o]
            elif lax:
                sms = ctx.must('receive-failed', ctx.rx.SmsDeliver, h, False)
                rx[r] = sms
                strict[r] = False
            else:
                sms = ctx.must('receive-failed', ctx.rx.SmsDeliver, h)
                rx[r] = sms
                strict[r] = True
            check_spec(ctx, sms, specs[i], h)
            kept.append((sms, i, h))
            inbox.append(i)
            ctx.stat('decodes')
            ctx.stat('nontrivial')
        elif k == 'bad':
            h = damage(op.get('d') or {}, str(hexes[op['i'] % len(specs)]), str(hexes[op['j'] % len(specs)]))
            ctx.token('b%s' % op['d'].get('kind'))
            r = op.get('rx')
            if op.get('how') == 'reuse' and r in rx:
                # a used receiver makes of it what a new one does, each time
                o = rx[r]
                kept[:] = [x for x in kept if x[0] is not o]
                fresh = seen_by(ctx, *throw_at(ctx, ctx.rx.SmsDeliver, h, strict[r]))
                for n in range(max(1, min(op.get('times') or 1, 4))):
                    st, v = throw_at(ctx, setattr, o, 'pdu', h)
                    got = seen_by(ctx, st, o if st == 'ok' else v)
                    if got != fresh:
                        ctx.fail('history', 'a new receiver: %s, a used one, %d. time: %s' % (brief(fresh), n + 1, brief(got)))
            elif op.get('how') == 'lax':
                st, v = throw_at(ctx, ctx.rx.SmsDeliver, h, False)
            else:
                st, v = throw_at(ctx, ctx.rx.SmsDeliver, h)
            ctx.fault('damaged_pdu')
            ctx.stat('refused' if st == 'exc' else 'damaged_but_decoded')
            ctx.log('bad', st)
        elif k == 'restart':
            # everything in memory is gone; the stored inbox is decoded again
            ctx.restart_rx()
            rx.clear()
            del kept[:]
            ctx.token('R')
            for i in inbox[-6:]:
                sms = ctx.must('receive-failed', ctx.rx.SmsDeliver, str(hexes[i]))
                check_spec(ctx, sms, specs[i], hexes[i])
                kept.append((sms, i, hexes[i]))
        elif k == 'look' and kept:
            sms, i, h = kept[(op.get('i') or 0) % len(kept)]
            check_spec(ctx, sms, specs[i], h)
    for sms, i, h in kept:
        check_spec(ctx, sms, specs[i], h)
        p = field(ctx, sms, 'pdu')
        if not isinstance(p, basestring) or p.upper() not in (hexes[i].upper(), hexes[i].upper() + 'F'):
            ctx.fail('wrong-pdu', 'pdu is %r' % (p,))
