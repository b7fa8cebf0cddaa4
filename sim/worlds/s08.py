# -*- coding: utf-8 -*-
# S08: one SmsSubmit object edited, refused, interrupted and submitted again and again
from common import *

SET = ('number', 'csca', 'text', 'klass', 'validity', 'fmt', 'srr', 'ref', 'rand_id', 'pid')


def gen_value(rng, k):
    if k == 'number':
        return gen_number(rng)
    if k == 'csca':
        return gen_number(rng) if rng.chance(70) else None
    if k == 'text':
        c = rng.choice(['7bit', '7bit', 'ucs2', '8bit'])
        t = gen_text(rng, c, 3)
        if c == '8bit' and rng.chance(30):
            t = t[:rng.between(0, 40)]
        return [t, rng.chance(50) or c == '8bit']
    if k == 'klass':
        return rng.n(4)
    if k == 'validity':
        return rng.weighted([(2, None), (4, ['rel', rng.choice([300, 3600, 86400, 12 * 3600, 604800, rng.between(300, 63 * 604800)])]),
                             (3, ['abs', gen_instant(rng), rng.between(-48, 56)]), (2, ['bad', rng.choice([0, 299, -5, 63 * 604800 + 60])])])
    if k == 'fmt':
        return rng.weighted([(4, None), (3, 0), (3, 8), (3, 4), (1, 0x0c), (1, 0x40)])
    if k == 'srr':
        return rng.chance(50)
    if k in ('ref', 'rand_id'):
        return rng.weighted([(1, None), (3, rng.n(256)), (1, 0), (1, 255)])
    return rng.choice([0, 0x3f, 0x41, rng.n(256)])


def gen_bad(rng):
    return rng.choice([['number', '12'], ['number', 'abc'], ['number', '+'], ['number', '123456789012345678901'], ['number', '12 34x'],
                       ['csca', '+12'], ['csca', 'x' * 5], ['csca', '1234567890123456789012'], ['klass', 4], ['klass', -1], ['klass', '1'],
                       ['klass', None], ['klass', 17], ['validity', 5], ['validity', 'soon'], ['validity', [1]]])


def gen(rng, tier):
    objs = []
    for _ in range(rng.weighted([(3, 1), (2, 2), (1, 3)])):
        objs.append(dict(number=gen_number(rng), text=gen_value(rng, 'text')))
    ops = []
    for _ in range(rng.between(2, 16 if tier == 'quick' else 24)):
        k = rng.n(20)
        o = rng.n(len(objs))
        if k < 9:
            n = rng.weighted([(3, 'text'), (2, 'number'), (2, 'csca'), (2, 'klass'), (4, 'validity'), (4, 'fmt'), (2, 'srr'), (1, 'ref'),
                              (1, 'rand_id'), (1, 'pid')])
            v = gen_value(rng, n)
            if n == 'text' and rng.chance(40):
                # nearly what was there
                old = ([x['v'] for x in ops if x.get('name') == 'text' and x['op'] == 'set' and x['o'] == o] or [objs[o]['text']])[-1]
                v = [twin_text(rng, '8bit', old[0]) if rng.chance(30) else old[0][:-1] + u'z', old[1]]
            elif n == 'number' and rng.chance(40):
                v = twin_number(rng, objs[o]['number'])
            ops.append(dict(op='set', o=o, name=n, v=v))
        elif k < 12:
            b = gen_bad(rng)
            ops.append(dict(op='bad', o=o, name=b[0], v=b[1]))
        elif k < 17:
            ops.append(dict(op='submit', o=o))
        elif k < 19:
            ops.append(dict(op='interrupt', o=o, at=1 + rng.loguniform(400)))
        else:
            ops.append(dict(op='other', n=rng.between(1, 3)))
    for o in range(len(objs)):
        ops.append(dict(op='submit', o=o))
    return dict(objs=objs, ops=ops)


def value(ctx, name, v):
    """plan value -> (library value, model value)"""
    if name == 'number':
        v = valid_number(v)
        return v, v
    if name == 'csca':
        v = valid_number(v, True)
        return v, v
    if name == 'text':
        if not isinstance(v, list) or len(v) != 2 or not isinstance(v[0], basestring):
            raise PlanInvalid('text')
        t = unicode(v[0])
        if len(t) > 5000 or [c for c in t if 0xd800 <= ord(c) < 0xe000]:
            raise PlanInvalid('text')
        if v[1] and not [c for c in t if ord(c) > 255]:
            return ''.join([chr(ord(c)) for c in t]), t
        return t, t
    if name == 'klass':
        if v not in (0, 1, 2, 3) or isinstance(v, bool):
            raise PlanInvalid('klass')
        return v, v
    if name == 'validity':
        if v is None:
            return None, None
        if v[0] == 'rel':
            if not 300 <= v[1] <= 63 * 604800:
                raise PlanInvalid('rel')
            return datetime.timedelta(seconds=v[1]), v
        if v[0] == 'bad':
            if 300 <= v[1] <= 63 * 604800:
                raise PlanInvalid('bad')
            return datetime.timedelta(seconds=v[1]), v
        if v[0] == 'abs':
            if not 946684800 <= v[1] <= 3150000000 or not -79 <= v[2] <= 79:
                raise PlanInvalid('abs')
            return utc(v[1] + 900 * v[2]).replace(tzinfo=ctx.lib.FixedOffset(15 * v[2], 'x')), v
        raise PlanInvalid('validity')
    if name == 'fmt':
        if v not in (None, 0, 4, 8, 0x0c, 0x40):
            raise PlanInvalid('fmt')
        return v, v
    if name == 'srr':
        return bool(v), bool(v)
    if name in ('ref', 'rand_id'):
        if v is not None and not 0 <= v <= 255:
            raise PlanInvalid(name)
        return v, v
    if name == 'pid':
        if not 0 <= v <= 255:
            raise PlanInvalid(name)
        return v, v
    raise PlanInvalid('name')


ATTR = dict(srr='request_status')


def assign(sms, name, v):
    setattr(sms, ATTR.get(name, name), v)


def look(ctx, sms, names):
    return [(n, field(ctx, sms, ATTR.get(n, n))) for n in names]


def outcome(model):
    """('ok', coding) or ('refused', why) for the settings at this moment; adapts those outside the domain"""
    t, fmt, v = model['text'], model['fmt'], model['validity']
    if v is not None and v[0] == 'bad':
        return 'refused', 'validity'
    if fmt in (0x0c, 0x40):
        return 'refused', 'coding'
    if fmt == 0 and not tpdu.is_gsm(t):
        return 'refused', 'alphabet'
    if fmt == 4 and [c for c in t if ord(c) > 255]:
        return 'refused', 'octets'
    coding = {None: '7bit' if tpdu.is_gsm(t) else 'ucs2', 0: '7bit', 4: '8bit', 8: 'ucs2'}[fmt]
    return 'ok', coding


def settle(ctx, sms, model):
    """settings nobody says anything about are replaced before a submission"""
    t = model['text']
    raw = field(ctx, sms, 'text')
    ascii_ = not [c for c in t if ord(c) > 127]
    if model['fmt'] == 4 and not ascii_ and not [c for c in t if ord(c) > 255] and isinstance(raw, unicode):
        sms.text = ''.join([chr(ord(c)) for c in t])
    if model['fmt'] != 4 and not ascii_ and isinstance(raw, str):
        sms.text = t
    if model['fmt'] != 4 and isinstance(raw, str) and isinstance(t, unicode) and raw != ''.join([chr(ord(c) & 255) for c in t]):
        ctx.fail('edited', 'text is %r' % (raw,))


def examine(ctx, model, lst, coding):
    m = dict(model, coding=coding)
    ps = check_parts(ctx, m, model['text'], read_pdus(ctx, lst))
    v = model['validity']
    for r in ps:
        vp = r['vp']
        if v is None:
            ok = vp is None
        elif v[0] == 'abs':
            ok = vp == ('abs', v[1])
        else:
            ok = vp is not None and vp[0] == 'rel' and 0 <= v[1] - tpdu.relative_seconds(vp[1]) < 604800
        if not ok:
            ctx.fail('wrong-validity', 'validity %r submitted as %r' % (v, vp))
    return ps


def view(ps, model):
    """what is in the PDUs, apart from references nobody chose"""
    out = []
    for r in ps:
        d = dict(r)
        els = []
        for iei, x in r['els']:
            x = list(x)
            if iei in (0, 8) and model['rand_id'] is None:
                x[:len(x) - 2] = [0]
            els.append((iei, x))
        d['els'] = els
        d['ud'] = None
        if model['rand_id'] is None and d['concat']:
            d['concat'] = (0,) + tuple(d['concat'][1:])
        if d.get('septets') is not None:
            d['septets'] = list(d['septets'])
        if model['ref'] is None:
            d['mr'] = 0
        out.append(sorted(d.items()))
    return out


def fresh(ctx, model):
    sms = ctx.must('submit-refused', ctx.lib.SmsSubmit, model['number'], model['text'])
    for n in SET:
        v = model.get('raw_' + n)
        if n in ('number',) or (n == 'klass' and v is None):
            continue
        if n == 'text':
            if model['fmt'] == 4:
                v = ''.join([chr(ord(c)) for c in model['text']])
            else:
                v = model['text']
        if n == 'fmt':
            v = model['fmt']
        assign(sms, n, v)
    return sms


def run(plan, ctx):
    objs = []
    for o in plan.get('objs') or []:
        n, _ = value(ctx, 'number', o.get('number'))
        raw, t = value(ctx, 'text', o.get('text'))
        sms = ctx.must('submit-refused', ctx.lib.SmsSubmit, n, raw)
        objs.append((sms, dict(number=n, raw_number=n, text=t, raw_text=raw, csca=None, klass=None, validity=None, fmt=None, srr=False,
                               raw_srr=False, ref=None, rand_id=None, pid=0, raw_pid=0)))
    if not objs:
        raise PlanInvalid('objs')
    for op in plan.get('ops') or []:
        k = op.get('op')
        if k == 'other':
            for _ in range(min(op.get('n') or 0, 5)):
                ctx.must('submit-refused', ctx.lib.SmsSubmit('+34600000000', u'x' * 300).to_pdu)
            continue
        sms, model = objs[(op.get('o') or 0) % len(objs)]
        name = op.get('name')
        if k == 'set':
            raw, v = value(ctx, name, op.get('v'))
            st, e = ctx.call(assign, sms, name, raw)
            if st != 'ok' and not (name == 'validity' and v and v[0] == 'bad'):
                ctx.fail('refused', '%s = %r: %s' % (name, raw, core.exc_name(e)))
            if st == 'ok':
                model[name] = v
                model['raw_' + name] = raw
            ctx.token('set ' + name)
            ctx.stat('edits')
        elif k == 'bad':
            v = op.get('v')
            if isinstance(v, unicode):
                v = str(v)
            if [name, v] not in BAD:
                raise PlanInvalid('bad')
            before = look(ctx, sms, SET)
            st, e = ctx.call(assign, sms, name, v)
            if st == 'ok':
                ctx.fail('not-refused', '%s = %r' % (name, v))
            ctx.fault('refused_setting')
            ctx.token('bad ' + name)
            after = look(ctx, sms, SET)
            if after != before:
                ctx.fail('changed-by-refusal', '%s = %r turned %r into %r' % (name, v, before, after))
        elif k == 'interrupt':
            settle(ctx, sms, model)
            it = core.Interrupt('stop')
            want = outcome(model)[0]
            st, v = ctx.call(sms.to_pdu, _cancel=(max(1, op.get('at') or 1), it))
            hit = st == 'exc' and v is it
            if core.tracer.cancelled and not hit:
                ctx.fail('interrupt-lost', 'an interruption did not reach the caller')
            if not core.tracer.cancelled and (st == 'ok') != (want == 'ok'):
                ctx.fail('outcome', 'expected %s, got %s' % (want, st))
            if hit:
                ctx.fault('interruption')
            ctx.token('int')
            ctx.log('interrupt', bool(hit))
        elif k == 'submit':
            settle(ctx, sms, model)
            want, coding = outcome(model)
            before = look(ctx, sms, ('number', 'csca', 'text', 'klass', 'validity', 'srr', 'pid'))
            st, v = ctx.call(sms.to_pdu)
            after = look(ctx, sms, ('number', 'csca', 'text', 'klass', 'validity', 'srr', 'pid'))
            if before != after:
                ctx.fail('edited', 'submitting turned %r into %r' % (before, after))
            if st == 'exc' and not isinstance(v, Exception):
                ctx.fail('fatal', core.exc_name(v))
            if want == 'refused':
                if st == 'ok':
                    ctx.fail('not-refused', 'submitted although the %s is impossible' % coding)
                ctx.fault('refused_submission')
                ctx.token('refuse ' + coding)
                continue
            if st != 'ok':
                ctx.fail('submit-failed', 'raised %s: %s' % (core.exc_name(v), core.str_exc(v)))
            ps = examine(ctx, model, v, coding)
            ps2 = examine(ctx, model, ctx.must('submit-failed', fresh(ctx, model).to_pdu), coding)
            a, b = view(ps, model), view(ps2, model)
            if a != b:
                for x, y in zip(a, b):
                    for p, q in zip(x, y):
                        if p != q:
                            ctx.fail('differs', 'edited object: %r, new object: %r' % (p, q))
                ctx.fail('differs', '%d and %d parts' % (len(a), len(b)))
            ctx.stat('submissions')
            ctx.token('%s%d' % (coding, len(ps)))
            ctx.log('submit', coding, len(ps))
            ctx.stat('nontrivial')
        else:
            raise PlanInvalid('op')


BAD = [['number', '12'], ['number', 'abc'], ['number', '+'], ['number', '123456789012345678901'], ['number', '12 34x'],
       ['csca', '+12'], ['csca', 'x' * 5], ['csca', '1234567890123456789012'], ['klass', 4], ['klass', -1], ['klass', '1'],
       ['klass', None], ['klass', 17], ['validity', 5], ['validity', 'soon'], ['validity', [1]]]
