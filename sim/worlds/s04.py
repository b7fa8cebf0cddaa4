# S04: validity as applied by a service centre to an absent receiver
from common import *
import datetime as _dt


def gen(rng, tier):
    ops = []
    for _ in range(rng.between(1, 6)):
        k = rng.n(10)
        if k < 5:
            base = rng.choice([300, 600, 3600, 12 * 3600, 12 * 3600 + 1800, 13 * 3600, 24 * 3600, 25 * 3600, 2 * 86400, 29 * 86400, 30 * 86400,
                               31 * 86400, 5 * 604800, 6 * 604800, 62 * 604800, 63 * 604800])
            s = rng.choice([base, base, base - 1, base + 1, base + rng.between(-1800, 1800), rng.between(300, 12 * 3600),
                            rng.between(12 * 3600, 86400), rng.between(86400, 30 * 86400), rng.between(30 * 86400, 63 * 604800)])
            v = dict(kind='rel', s=max(300, min(63 * 604800, s)), us=rng.choice([0, 0, 1, 999999]))
            if v['s'] == 63 * 604800:
                v['us'] = 0
        elif k < 8:
            v = dict(kind='abs', t=gen_instant(rng), q=gen_quarters(rng), tz=rng.choice(['fixed', 'from', 'own', 'dst']), us=rng.choice([0, 0, 500000]))
            if v['tz'] == 'dst':
                v['q'] = min(v['q'], 75)
            if rng.chance(20):
                v['tz'], v['q'] = 'none', 0
        elif k == 8:
            v = dict(kind='bad', s=rng.choice([-86400, -1, 0, 1, 299, 63 * 604800 + 1, 64 * 604800, 10000 * 86400]))
        else:
            v = dict(kind='none')
        ops.append(dict(v=v, zone=rng.choice(ZONES), jump=rng.choice([0, 0, 3600, -7200, 86400 * 200, -86400 * 4000]),
                        resend=rng.n(3), edit=rng.chance(25), delay=rng.loguniform(86400 * 3), back=rng.n(5), same=rng.chance(50),
                        fail=rng.chance(15)))
    absolute = [o for o in ops if o['v']['kind'] == 'abs']
    for _ in range(rng.n(4) if absolute else 0):
        # the same time zone at another time of the year, or the same time on the clock elsewhere
        o = dict(rng.choice(absolute))
        v = o['v'] = dict(o['v'])
        if rng.chance(60):
            v['t'] += 86400 * rng.choice([-182, 91, 182, 365])
        else:
            q = rng.choice([0, -v['q'], min(75, v['q'] + 4)])
            if v['tz'] != 'none' and -79 <= q <= 75:
                v['t'] += 900 * (v['q'] - q)
                v['q'] = q
        if 946684800 <= v['t'] <= 3150000000:
            ops.insert(rng.n(len(ops) + 1), o)
    return dict(ops=ops, long=rng.chance(20), coding=rng.choice(['7bit', 'ucs2', '8bit']), srr=rng.chance(30), number=gen_number(rng),
                csca=gen_number(rng) if rng.chance(30) else None)


class Own(_dt.tzinfo):
    """a user's own time zone; with `dst`, an hour ahead in summer"""

    def __init__(self, q, dst):
        self.q, self.d = q, dst

    def utcoffset(self, d):
        return _dt.timedelta(minutes=15 * self.q) + self.dst(d)

    def dst(self, d):
        return _dt.timedelta(hours=1) if self.d and d is not None and 4 <= d.month <= 9 else _dt.timedelta(0)

    def tzname(self, d):
        return 'own'


def step_of(s):
    if s <= 12 * 3600:
        return 300
    if s <= 86400:
        return 1800
    if s <= 30 * 86400:
        return 86400
    return 604800


def run(plan, ctx):
    m = dict(coding=plan.get('coding'), number=plan.get('number'), csca=plan.get('csca'), srr=plan.get('srr'))
    if m['coding'] not in FMT:
        raise PlanInvalid('coding')
    m['text'] = {'7bit': u'hello', 'ucs2': u'\u3042', '8bit': u'\x00\xff'}[m['coding']] * (200 if plan.get('long') else 1)
    sms = None
    zones = {}
    for op in plan.get('ops') or []:
        zone = op.get('zone') or 'UTC'
        set_zone(zone)
        Clock.now += op.get('jump') or 0
        if op.get('jump'):
            ctx.fault('clock_jump')
        if zone != 'UTC':
            ctx.fault('host_zone')
        v = op.get('v') or {}
        kind = v.get('kind')
        if sms is None or not op.get('same'):
            sms, text = new_submit(ctx, m)
        FixedOffset = ctx.lib.FixedOffset
        us = v.get('us') or 0
        if kind in ('rel', 'bad'):
            s = v.get('s') or 0
            if (kind == 'rel') != (300 <= s <= 63 * 604800 and not (s == 63 * 604800 and us)):
                raise PlanInvalid('range')
            val = datetime.timedelta(seconds=s, microseconds=us if kind == 'rel' else 0)
        elif kind == 'abs':
            q, t = v.get('q') or 0, v.get('t') or 0
            tz = v.get('tz')
            if not -79 <= q <= 79 or not 946684800 <= t <= 3150000000 or tz not in ('fixed', 'from', 'own', 'dst', 'none'):
                raise PlanInvalid('abs')
            if tz == 'none':
                q, zi = 0, None
            elif tz == 'fixed':
                zi = FixedOffset(q * 15, 'x')
            elif tz == 'from':
                zi = ctx.must('time-zone', FixedOffset.from_timezone, '%s%02d%02d' % ('-' if q < 0 else '+', abs(q) // 4, abs(q) % 4 * 15), 'x')
            else:
                if q > 75 and tz == 'dst':
                    raise PlanInvalid('q')
                zi = zones.setdefault((q, tz), Own(q, tz == 'dst'))
            loc = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + 900 * q, microseconds=us)
            val = loc.replace(tzinfo=zi)
            if zi is not None:
                off = zi.utcoffset(val)
                if tz in ('own', 'dst'):
                    t = t + 900 * q - int(off.days * 86400 + off.seconds)
        elif kind == 'none':
            val = None
        else:
            raise PlanInvalid('kind')
        if op.get('fail') and op.get('same'):
            sms.validity = datetime.timedelta(seconds=1)     # an attempt that is refused comes before
            st, e = ctx.call(sms.to_pdu)
            if st == 'ok':
                ctx.fail('not-refused', 'a validity of one second was submitted')
            ctx.fault('refused_before')
        st, e = ctx.call(setattr, sms, 'validity', val)
        if st != 'ok' and kind != 'bad':
            ctx.fail('refused', 'validity %r: %s' % (val, core.exc_name(e)))
        ctx.token(kind)
        ctx.token(step_of(v.get('s') or 0) if kind == 'rel' else v.get('tz'))
        if kind == 'bad':
            if st == 'ok':
                st, e = ctx.call(sms.to_pdu)
            if st == 'ok':
                ctx.fail('not-refused', 'a validity of %r was submitted' % (val,))
            ctx.stat('inexpressible')
            sms = None
            continue
        for k in range(1 + min(op.get('resend') or 0, 3)):
            if k:
                ctx.fault('resubmission')
                if op.get('edit'):
                    sms.number = m['number']
            pdus = pdus_of(ctx, 'submit-failed', sms)
            ps = check_parts(ctx, m, m['text'], pdus)
            ctx.stat('submissions')
            Clock.now += op.get('delay') or 0
            now = tpdu.seconds(2010, 1, 1) + (op.get('delay') or 0) * (k + 1)       # service centre's clock
            ctx.simtime += op.get('delay') or 0
            for r in ps:
                vp = r['vp']
                ctx.log('vp', repr(vp))
                if kind == 'none':
                    if vp is not None:
                        ctx.fail('unasked', 'validity %r was never asked for' % (vp,))
                    continue
                if vp is None:
                    ctx.fail('lost', 'no validity submitted for %r' % (val,))
                if kind == 'rel':
                    if vp[0] != 'rel':
                        ctx.fail('wrong-format', '%r for %r' % (vp, val))
                    until = now + tpdu.relative_seconds(vp[1])
                    early = now + v['s'] - until
                    step = step_of(v['s'])
                else:
                    if vp[0] != 'abs':
                        ctx.fail('wrong-format', '%r for %r' % (vp, val))
                    until = vp[1]
                    early = t - until
                    step = 1
                if early < 0:
                    ctx.fail('late', 'held %d s longer than asked: %r submitted as %r' % (-early, val, vp))
                if early >= step:
                    ctx.fail('early', 'dropped %d s before the time asked: %r submitted as %r' % (early, val, vp))
                # the receiver comes back just before, at or after the end
                for back in (until - 1, until):
                    held = back < until
                    if held and back >= (now + v['s'] if kind == 'rel' else t):
                        ctx.fail('late', 'delivered after the end')
        ctx.stat('nontrivial')
