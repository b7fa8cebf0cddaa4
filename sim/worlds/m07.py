# -*- coding: utf-8 -*-
# M07: times in MMS on hosts with any clock and zone
from mmsgen import *
import disk as simdisk


def gen_when(rng):
    k = rng.n(5)
    if k == 0:
        return rng.choice([0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 34])
    if k == 1:      # around clock changes
        return 1104537600 + 86400 * rng.n(7000) + 3600 * rng.n(24) + rng.n(3600)
    if k == 2:
        return rng.n(2 ** 31 - 1)
    return 1200000000 + rng.n(3 * 10 ** 8)


def gen_rel(rng):
    return rng.choice([0, 1, 60, 127, 128, 255, 256, 3600, 86400, 604800, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, rng.n(10 ** 7)])


def gen(rng, tier):
    items = []
    for _ in range(rng.between(1, 6)):
        it = dict(date=gen_when(rng), pad=rng.weighted([(6, 0), (1, 1), (1, 2)]), mt=rng.choice([0x80, 0x82, 0x84, 0x86]))
        if rng.chance(80):
            a = rng.chance(50)
            it['exp'] = dict(abs=a, v=gen_when(rng) if a else gen_rel(rng), long=rng.chance(30), q=rng.chance(10), pad=rng.weighted([(6, 0), (1, 1)]))
        if rng.chance(50):
            a = rng.chance(50)
            it['dt'] = dict(abs=a, v=gen_when(rng) if a else gen_rel(rng), long=rng.chance(30), q=rng.chance(10), pad=0)
        it['order'] = rng.n(6)
        items.append(it)
    hops = []
    for _ in range(rng.between(2, 14)):
        hops.append(dict(i=rng.n(len(items)), zone=rng.choice(ZONES), jump=rng.choice([0, 0, 1800, 3600, -3600, 86400 * 180, -86400 * 9000, 10 ** 9]),
                         how=rng.n(4)))
    return dict(items=items, hops=hops)


def run(plan, ctx):
    items = []
    for it in plan.get('items') or []:
        hs = [['Message-Type', it.get('mt')], ['Transaction-Id', 'T'], ['MMS-Version', '1.0'], ['Date', it.get('date')]]
        for k, n in (('exp', 'Expiry'), ('dt', 'Delivery-Time')):
            if it.get(k) is not None:
                v = dict(it[k])
                if not isinstance(v.get('pad') or 0, int) or not 0 <= (v.get('pad') or 0) <= 4:
                    raise PlanInvalid('pad')
                hs.append([n, v])
        k = (it.get('order') or 0) % (len(hs) - 3)
        hs = hs[:3] + hs[3 + k:] + hs[3:3 + k]
        m = valid_foreign(dict(hdrs=hs, ct=None, parts=[]))
        o, he, pe = wsp.message(m)
        items.append((o, want_of(m)[0], it))
    if not items:
        raise PlanInvalid('items')
    dec = None
    disk = Disk(ctx)
    kept = []
    for hop in plan.get('hops') or []:
        o, want, it = items[(hop.get('i') or 0) % len(items)]
        set_zone(hop.get('zone') or 'UTC')
        if hop.get('zone') not in (None, 'UTC'):
            ctx.fault('host_zone')
        if hop.get('jump'):
            Clock.now = max(0.0, Clock.now + hop['jump'])
            ctx.simtime += abs(hop['jump'])
            ctx.fault('clock_jump')
        how = hop.get('how') or 0
        if how == 1:
            ctx.restart_rx()
            dec = None
        lib = ctx.rx.load('MMSMessage', 'MMSDecoder')
        if how == 2:
            if dec is None:
                dec = lib.MMSDecoder()
            mms = ctx.must('decode-failed', dec.decode_data, to_array(o))
        elif how == 3:
            mms = ctx.must('decode-failed', lib.MMSMessage.from_file, disk.put('m', wsp.chars(o)))
        else:
            mms = ctx.must('decode-failed', lib.MMSMessage.from_data, to_array(o))
        check(ctx, mms, want, it)
        kept.append((mms, want, it))
        ctx.stat('decodes')
        ctx.token('%s %s %d' % (hop.get('zone'), it.get('mt'), how))
        ctx.log('decode', hop.get('i') or 0, str(hop.get('zone')), how)
    for mms, want, it in kept:
        check(ctx, mms, want, it)
    ctx.stat('nontrivial')


def check(ctx, mms, want, it):
    h = dict(field(ctx, mms, 'headers'))
    compare(ctx, (h, []), (want, []))
    d = h['Date']
    if not isinstance(d, datetime.datetime) or d.tzinfo is not None:
        ctx.fail('wrong-header', 'Date is %r' % (d,))
    e = it.get('exp')
    if e is not None:
        x = h['Expiry']
        try:
            end = x if e.get('abs') else d + datetime.timedelta(seconds=x)
            if end != wsp.utc(e['v'] if e.get('abs') else it['date'] + e['v']):
                ctx.fail('wrong-expiry', 'the message ends at %s' % end)
        except (TypeError, OverflowError), err:
            ctx.fail('wrong-expiry', '%r: %s' % (x, err))
