# S07: damaged PDUs, interleaved with intact ones
from pdus import *


def gen(rng, tier):
    specs = [gen_spec(rng) for _ in range(rng.between(1, 4))]
    ops = []
    for _ in range(rng.between(3, 20)):
        i = rng.n(len(specs))
        ops.append(rng.weighted([
            (5, dict(op='cut', i=i, at=rng.n(300), rx=rng.n(2), half=rng.chance(15), lax=rng.chance(50))),
            (5, dict(op='bad', i=i, j=rng.n(len(specs)), d=gen_damage(rng), rx=rng.n(2))),
            (3, dict(op='in', i=i, rx=rng.n(2))),
            (1, dict(op='sweep', i=i))]))
    return dict(specs=specs, ops=ops, zone=rng.choice(ZONES))


def ud_start(spec, h):
    """number of hex digits before the user data of a DELIVER"""
    o = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
    p = 1 + o[0] + 1
    p += 2 + (o[p] + 1) // 2 + 2 + 7 + 1
    return 2 * p


def run(plan, ctx):
    set_zone(plan.get('zone') or 'UTC')
    specs = plan.get('specs') or []
    if not specs:
        raise PlanInvalid('specs')
    hexes = [str(build(dict(s, junk=0))) for s in specs]
    rx = {}
    lib = ctx.rx

    def decode(r, h, lax=False):
        if r in rx and not lax:
            o = rx[r]

            def again():
                o.pdu = h
                return o
            return throw_at(ctx, again)
        st, v = throw_at(ctx, lib.SmsDeliver, h, not lax)
        if st == 'ok':
            rx[r] = v
        return st, v

    def intact(r, i):
        st, v = decode(r, hexes[i])
        if st != 'ok':
            ctx.fail('receive-failed', 'an intact PDU after damaged ones: %s %s' % (core.exc_name(v), core.str_exc(v)))
        check_spec(ctx, v, specs[i], hexes[i])

    def cut(r, i, digits, lax):
        spec, h = specs[i], hexes[i]
        if digits >= len(h):
            return
        st, v = decode(r, h[:digits], lax)
        ctx.fault('truncated_pdu')
        ctx.log('cut', digits, st)
        if st == 'ok' and spec['kind'] == 'deliver' and digits >= ud_start(spec, h):
            check_prefix(ctx, spec, v, digits)
        if st == 'ok' and spec['kind'] == 'report':
            sr = field(ctx, v, 'sr')
            ctx.stat('short_reports')
            if digits >= status_end(spec, h):
                check_spec(ctx, v, spec, h)
            elif field(ctx, v, 'number') == 'SR-OK':
                ctx.fail('false-delivery', 'a report cut before its status is shown as delivered')

    for op in plan.get('ops') or []:
        k, r = op.get('op'), op.get('rx') or 0
        i = (op.get('i') or 0) % len(specs)
        ctx.token('%s%s' % (k, specs[i]['kind'][0]))
        if k == 'in':
            intact(r, i)
        elif k == 'cut':
            h = hexes[i]
            us = ud_start(specs[i], h) if specs[i]['kind'] == 'deliver' else 0
            span = len(h) - us
            d = us + ((op.get('at') or 0) * 2) % span if span > 0 and (op.get('at') or 0) % 5 else ((op.get('at') or 0) * 2) % len(h)
            cut(r, i, d - 1 if op.get('half') and d else d, bool(op.get('lax')))
        elif k == 'sweep':
            us = ud_start(specs[i], hexes[i]) if specs[i]['kind'] == 'deliver' else 0
            for d in range(max(us - 40, 0), len(hexes[i]), 2):
                cut(5, i, d, False)
            intact(5, i)
        elif k == 'bad':
            h = damage(op.get('d') or {}, hexes[i], hexes[(op.get('j') or 0) % len(specs)])
            st, v = decode(r, h)
            ctx.fault('damaged_pdu')
            ctx.stat('refused' if st == 'exc' else 'damaged_but_decoded')
            ctx.log('bad', st)
            if st == 'ok':
                throw_at(ctx, lambda: v.data)
        ctx.stat('nontrivial')
    for i in range(len(specs)):
        for r in (0, 1, 9):
            intact(r, i)


def check_prefix(ctx, spec, sms, digits):
    text = field(ctx, sms, 'text')
    true = spec['text']
    ctx.stat('prefixes_checked')
    if not isinstance(text, basestring):
        if text is None:
            return
        ctx.fail('wrong-text', 'text is %r' % (text,))
    if spec['coding'] == '8bit':
        text = text if isinstance(text, unicode) else text.decode('latin-1')
        ok = true.startswith(text)
    else:
        ok = true.startswith(text) or (len(text) and true.startswith(text[:-1]) and len(text) <= len(true) and
                                       spec['coding'] == '7bit' and true[len(text) - 1] in tpdu.EXT.values())
    if not ok:
        ctx.fail('not-a-prefix', 'cut after %d digits the text %s becomes %s' % (digits, brief(true), brief(text)))
