# -*- coding: utf-8 -*-
# M06: decoders with a history
from mmsgen import *
from m05 import facts, damage, gen_damage, Source, ERRORS
import disk as simdisk


def gen(rng, tier):
    msgs = [gen_foreign(rng, tier != 'quick' and rng.chance(20)) for _ in range(rng.between(1, 5))]
    for i in range(1, len(msgs)):
        if rng.chance(40):
            msgs[i] = twin_foreign(rng, msgs[rng.n(i)])
    ops = []
    for _ in range(rng.between(3, 25)):
        k = rng.weighted([(8, 'good'), (3, 'bad'), (2, 'fail'), (2, 'cut'), (3, 'edit'), (1, 'check'), (1, 'restart')])
        o = dict(op=k, i=rng.n(5), how=rng.n(5))
        if k == 'good':
            o.update(buf=rng.weighted([(4, 'new'), (2, 'reuse'), (2, 'again')]))
        elif k == 'bad':
            o['ds'] = [gen_damage(rng) for _ in range(rng.weighted([(5, 1), (3, 3)]))]
        elif k == 'fail':
            o.update(at=rng.n(100000), err=rng.choice(sorted(ERRORS)))
        elif k == 'cut':
            o.update(at=rng.between(1, rng.choice([10, 100, 1000, 3000])))
        elif k == 'edit':
            o.update(j=rng.n(20), e=rng.n(8))
        ops.append(o)
    return dict(msgs=msgs, ops=ops)


class Held(object):
    """a message decoded earlier"""


def run(plan, ctx):
    known = []
    for m in plan.get('msgs') or []:
        m = valid_foreign(m)
        o, r = facts(m)
        known.append((o, want_of(m)))
    if not known:
        raise PlanInvalid('messages')
    w = [ctx.rx.load('MMSMessage', 'MMSDecoder')]
    decs = {}
    held = []
    buf = array.array('B')
    disk = Disk(ctx)

    def decode(data, how, **k):
        lib = w[0]
        if how < 2:
            if how not in decs:
                decs[how] = lib.MMSDecoder()
            return ctx.call(decs[how].decode_data, data, **k)
        if how == 2:
            return ctx.call(lib.MMSDecoder().decode_data, data, **k)
        if how == 3:
            return ctx.call(lib.MMSMessage.from_data, data, **k)
        path = disk.put('in.mms', data.tostring())
        if 5 not in decs:
            decs[5] = lib.MMSDecoder()
        return ctx.call(decs[5].decode_file, path, **k)

    def recheck(h):
        try:
            compare(ctx, look(ctx, h.mms), h.want)
        except core.Violation, v:
            ctx.fail('changed-later', 'an earlier message: %s' % v.detail)

    for op in plan.get('ops') or []:
        k = op.get('op')
        how = (op.get('how') or 0) % 5
        o, want = known[(op.get('i') or 0) % len(known)]
        ctx.token('%s%d' % (k, how))
        if k == 'good':
            kind = op.get('buf')
            if kind == 'reuse':         # the application's one receive buffer
                del buf[:]
                buf.fromlist(o)
                data = buf
            else:
                data = to_array(o)
            for _ in range(2 if kind == 'again' else 1):
                st, v = decode(data, how)
                if st != 'ok':
                    ctx.fail('decode-failed', '%s %s' % (core.exc_name(v), core.str_exc(v)))
                compare(ctx, look(ctx, v), want)
                h = Held()
                h.mms, h.want, h.edited = v, want, False
                held.append(h)
                ctx.stat('decoded')
                ctx.log('good', how, len(gp_of(v)))
            if kind == 'reuse':
                for i in range(len(buf)):
                    buf[i] = 0xff
        elif k == 'bad':
            d = o
            for x in op.get('ds') or []:
                d = damage(x, d, [q[0] for q in known])
            st, v = decode(to_array(d), how, _limit=400000 + 400 * len(d))
            ctx.fault('damaged_data')
            ctx.log('bad', st)
        elif k == 'fail':
            if op.get('err') not in ERRORS:
                raise PlanInvalid('error')
            st, v = decode(Source(o, (op.get('at') or 0) % (len(o) or 1), op['err'], 1), how % 4)
            ctx.fault('source_failure')
            ctx.log('fail', st)
        elif k == 'cut':
            st, v = decode(to_array(o), how, _cancel=(op.get('at') or 1, core.Interrupt('cut')))
            if core.tracer.cancelled:
                ctx.fault('interrupted_call')
                if st == 'ok':
                    ctx.fail('interrupt-lost', 'interrupted decoding returned normally')
        elif k == 'edit' and held:
            h = held[(op.get('j') or 0) % len(held)]
            h.edited = True
            edit(ctx, h.mms, op.get('e') or 0)
            ctx.stat('edits')
        elif k == 'restart':
            ctx.restart_rx()
            w[0] = ctx.rx.load('MMSMessage', 'MMSDecoder')
            decs.clear()
        elif k == 'check':
            for h in held:
                if not h.edited:
                    recheck(h)
        ctx.stat('nontrivial')
    for h in held:
        if not h.edited:
            recheck(h)
    # and everything still decodes as at the beginning
    for o, want in known:
        for how in (0, 2, 5):
            st, v = decode(to_array(o), how)
            if st != 'ok':
                ctx.fail('decode-failed', '%s %s' % (core.exc_name(v), core.str_exc(v)))
            compare(ctx, look(ctx, v), want)


def gp_of(v):
    return v.data_parts


def edit(ctx, mms, e):
    """the user changes a message she received"""
    def f():
        ct = mms.headers.get('Content-Type')
        ps = mms.data_parts
        if e == 0:
            mms.headers['Subject'] = 'edited'
            mms.headers['To'] = 'edited'
        elif e == 1 and ct:
            ct[1]['edited'] = '1'
        elif e == 2 and ps:
            ps[0].headers['Edited'] = '1'
            ps[0].headers['Content-Type'][1]['edited'] = '1'
        elif e == 3 and ps:
            ps[-1].content_type_parameters['edited'] = '1'
            ps[-1].set_data('edited', 'x/edited')
        elif e == 4:
            mms.add_data_part(ps[0] if ps else None)
            mms.data_parts.append(None)
        elif e == 5:
            mms.headers.clear()
        elif e == 6 and ps:
            for p in ps:
                p.content_type = 'x/edited'
                p.content_type_parameters.clear()
                p.headers.clear()
        elif e == 7:
            mms.headers.update({'Content-Type': ('x/edited', {}), 'From': 'edited'})
            del mms.data_parts[:]
    st, v = ctx.call(f)
    ctx.log('edit', e, st)
