# S05: time stamps of received messages on hosts with any clock
from common import *


def gen(rng, tier):
    items = []
    for _ in range(rng.between(1, 8)):
        items.append(dict(t=gen_instant(rng), q=gen_quarters(rng), zone=rng.choice(ZONES), jump=rng.choice([0, 0, 3600, -3600, 86400 * 180, -86400 * 9000, 10 ** 9]),
                          udh=rng.chance(20), coding=rng.choice(['7bit', '7bit', 'ucs2', '8bit']), alpha=rng.chance(20)))
    for _ in range(rng.n(4)):
        # the same time on the clock at another offset, or nearly the same time
        it = dict(rng.choice(items), zone=rng.choice(ZONES))
        q = rng.choice([it['q'], -it['q'], 0, it['q'] + 4, it['q'] - 1, gen_quarters(rng)])
        t = it['t'] + 900 * (it['q'] - q) + rng.choice([0, 0, 0, 1, 60, 3600])
        if -79 <= q <= 79 and 946771200 <= t <= 3155673600:
            items.append(dict(it, q=q, t=t))
    looks = []
    for _ in range(rng.between(len(items), 3 * len(items))):
        looks.append([rng.n(len(items)), rng.choice(ZONES), rng.n(4), rng.choice([0, 0, 0, 1800, -86400, 15552000])])
    return dict(items=items, looks=looks)


def run(plan, ctx):
    items = []
    for it in plan.get('items') or []:
        t, q = it.get('t') or 0, it.get('q') or 0
        coding = it.get('coding')
        if not 946771200 <= t <= 3155673600 or not -79 <= q <= 79 or coding not in FMT:
            raise PlanInvalid('item')
        els = [(0, [7, 2, 1])] if it.get('udh') else []
        udl, ud, udhi = tpdu.user_data(coding, u'at' if coding != 'ucs2' else u'\u3042', els)
        pdu = tpdu.deliver('@Sim' if it.get('alpha') else '+3460000', '+34999', {'7bit': 0, '8bit': 4, 'ucs2': 8}[coding], t, q, udl, ud, udhi=udhi)
        items.append((t, q, pdu, it))
    kept = []
    rx = None
    seq = [[i, items[i][3].get('zone'), 0, items[i][3].get('jump')] for i in range(len(items))] + (plan.get('looks') or [])
    for i, zone, how, jump in seq:
        if not items:
            break
        t, q, pdu, it = items[i % len(items)]
        set_zone(zone or 'UTC')
        if zone != 'UTC':
            ctx.fault('host_zone')
        if jump:
            Clock.now = max(0.0, Clock.now + jump)
            ctx.fault('clock_jump')
            ctx.simtime += abs(jump)
        ctx.log('decode', i, str(zone), how)
        ctx.token('%s %d %d' % (zone, q, how or 0))
        if how == 1 and rx is not None:
            def again():
                rx.pdu = pdu
                return rx
            sms = ctx.must('receive-failed', again)
        elif how == 2:
            ctx.restart()
            sms = ctx.must('receive-failed', ctx.lib.SmsDeliver, pdu)
        else:
            sms = ctx.must('receive-failed', ctx.lib.SmsDeliver, pdu.lower() if how == 3 else pdu)
        rx = sms
        check_date(ctx, sms, t, q)
        kept.append((sms, t, q, data_of(ctx, sms)))
        ctx.stat('decodes')
    for n, (sms, t, q, d) in enumerate(kept):
        if d.get('date') != utc(t):
            ctx.fail('wrong-date', 'a date handed out earlier is now %r, was %s' % (d.get('date'), utc(t)))
    ctx.stat('nontrivial')


def check_date(ctx, sms, t, q):
    d = data_of(ctx, sms)
    for v in (field(ctx, sms, 'date'), d.get('date')):
        if not isinstance(v, datetime.datetime) or v.tzinfo is not None or v != utc(t):
            ctx.fail('wrong-date', 'stamped %s UTC at offset %+d min, decoded %r' % (utc(t), q * 15, v))
