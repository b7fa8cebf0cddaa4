# -*- coding: utf-8 -*-
# PDUs as foreign networks send them, and damage done to them on the way.
from common import *

DCS = {'7bit': [0x00, 0x00, 0x00, 0x10, 0x11, 0x12, 0x13, 0xf0, 0xf1, 0xf2, 0xf3, 0x40, 0x51, 0xc0, 0xc8, 0xd0, 0xd9, 0xdb],
       '8bit': [0x04, 0x04, 0x14, 0x15, 0x16, 0x17, 0xf4, 0xf5, 0xf6, 0xf7, 0x44, 0x56],
       'ucs2': [0x08, 0x08, 0x18, 0x19, 0x1a, 0x1b, 0x48, 0x5b, 0xe0, 0xe8, 0xe3, 0xeb]}
OTHER_IE = [0x01, 0x02, 0x03, 0x06, 0x07, 0x09, 0x0a, 0x0b, 0x0d, 0x10, 0x20, 0x22, 0x50, 0x6f, 0x70, 0x7f, 0x80, 0xa1, 0xc5, 0xff]


def gen_oa(rng):
    if rng.chance(20):
        n = rng.choice([7, rng.between(1, 11)])
        s = u''
        while len(tpdu.gsm_septets(s)) < n:
            s += rng.choice([u'A', u'b', u'Z', u'9', u' ', u'-', u'.', u'é', u'@', u'_', rng.choice(tpdu.GSM_CHARS)])
        while len(tpdu.gsm_septets(s)) > n:
            s = s[:-1]
        return u'@' + (s or u'X')
    return gen_number(rng)


def gen_elements(rng):
    els = []
    k = rng.n(10)
    if k < 4:
        cnt = rng.choice([2, 3, 255, rng.between(1, 255)])
        seq = rng.between(1, cnt)
        if rng.chance(50):
            els.append([0, [rng.n(256), cnt, seq]])
        else:
            els.append([8, [rng.n(256), rng.n(256), cnt, seq]])
    if k in (3, 4, 5):
        if rng.chance(60):
            els.append([5, [rng.choice([0x0b, 0x23, rng.n(256)]), rng.choice([0x84, rng.n(256)]), rng.n(256), rng.n(256)]])
        else:
            els.append([4, [rng.n(256), rng.n(256)]])
    for _ in range(rng.weighted([(6, 0), (2, 1), (1, 3)])):
        iei = rng.choice(OTHER_IE)
        if iei not in [e[0] for e in els]:
            els.append([iei, [rng.n(256) for _i in range(rng.choice([0, 1, 2, 3, 5, 9]))]])
    return rng.shuffle(els)


def header_len(els):
    return (1 + sum([2 + len(d) for _, d in els])) if els else 0


def room(coding, els):
    h = header_len(els)
    if coding == '7bit':
        return 160 - (h * 8 + 6) // 7
    if coding == '8bit':
        return 140 - h
    return (140 - h) // 2


def gen_spec(rng):
    if rng.chance(18):
        return dict(kind='report', mr=rng.n(256), ra=gen_number(rng), smsc=gen_number(rng) if rng.chance(80) else None,
                    scts=gen_instant(rng), q=gen_quarters(rng), dt=gen_instant(rng), q2=gen_quarters(rng),
                    status=rng.choice([0, 0, 1, 0x30, 0x41, rng.n(256), None]), sri=rng.chance(50), more=rng.chance(50),
                    void=rng.weighted([(8, ''), (1, 'dt'), (1, 'scts')]), tail=rng.weighted([(4, 0), (1, rng.n(8))]), kinds=gen_kinds(rng), lp=gen_spare(rng))
    coding = rng.weighted([(5, '7bit'), (3, '8bit'), (3, 'ucs2')])
    els = gen_elements(rng) if rng.chance(50) else []
    r = room(coding, els)
    n = rng.choice([0, 1, 7, 8, r, r - 1, r - 7, r - 8, rng.n(r + 1), rng.n(r + 1)])
    return dict(kind='deliver', oa=gen_oa(rng), smsc=gen_number(rng) if rng.chance(85) else None, coding=coding,
                dcs=rng.choice(DCS[coding]), pid=rng.choice([0, 0, 0x3f, 0x41, rng.n(256)]), t=gen_instant(rng), q=gen_quarters(rng),
                els=els, text=gen_chars2(rng, coding, max(0, n)), more=rng.chance(50), sri=rng.chance(20), reply=rng.chance(10),
                junk=rng.weighted([(9, 0), (1, rng.between(1, 4))]), kinds=gen_kinds(rng), lp=gen_spare(rng))


def gen_chars2(rng, coding, n):
    """as gen_chars; here a UCS2 text may consist of GSM characters"""
    if coding == 'ucs2' and rng.chance(20):
        return u''.join([rng.choice([u'a', u'@', u'\x1b', u'\n', u'0']) for _ in range(n)])
    s = gen_chars(rng, coding, n)
    return s


def gen_spare(rng):
    """bits of the first octet that say nothing here: loop prevention and unused ones"""
    return rng.choice([1, 2, 3]) if rng.chance(10) else 0


def twin_oa(rng, oa):
    if oa[0] != '@':
        return twin_number(rng, oa)
    name = oa[1:]
    k = rng.n(4)
    if k < 2:
        return oa[:-1] if name[-1] == u'@' and len(name) > 1 else oa + u'@' if len(tpdu.gsm_septets(name)) < 11 else oa[:-1]
    if k == 2 and name[0].isalpha() and tpdu.is_gsm(name.swapcase()):
        return u'@' + name.swapcase()
    return u'@' + name[:-1] + (u'x' if name[-1] != u'x' else u'y')


def twin_elements(rng, els):
    """the same header but for one octet, one element, or the kind of reference"""
    els = [[e[0], list(e[1])] for e in els]
    k = rng.n(4)
    e = rng.choice(els)
    if k == 0 and len(els) > 1:
        els.remove(e)
    elif k == 1 and e[0] == 0:
        e[:] = [8, [0] + e[1]]
    elif k == 1 and e[0] == 8:
        e[:] = [0, e[1][1:]]
    elif k == 2 and len(els) > 1:
        els.reverse()
    elif e[0] in (0, 8):
        if rng.chance(50):
            e[1][0] ^= 1 << rng.n(8)
        elif e[1][-1] > 1:
            e[1][-1] -= 1
        else:
            e[1][-2] = e[1][-2] % 255 + 1
    elif e[1]:
        e[1][rng.n(len(e[1]))] ^= 1 << rng.n(8)
    return els


def twin(rng, spec):
    """a PDU like another one in all but one respect"""
    s = dict(spec)
    f = rng.choice(['number', 'number', 'smsc', 'q', 'q', 't', 'flags', 'kinds'] +
                   (['els', 'els', 'coding', 'dcs', 'pid', 'text', 'text'] if s['kind'] == 'deliver' else ['mr', 'status', 'dt', 'q2', 'void']))
    if f == 'number':
        if s['kind'] == 'deliver':
            s['oa'] = twin_oa(rng, s['oa'])
        else:
            s['ra'] = twin_number(rng, s['ra'])
    elif f == 'smsc':
        s['smsc'] = twin_number(rng, s['smsc']) if s['smsc'] and rng.chance(70) else None if s['smsc'] else gen_number(rng)
    elif f in ('q', 'q2'):
        # the same time on the clock, at another offset from UTC
        q = rng.choice([0, -s[f], s[f] + 4, s[f] - 1])
        tf = {'q': 't' if s['kind'] == 'deliver' else 'scts', 'q2': 'dt'}[f]
        t = s[tf] + 900 * (s[f] - q)
        if -79 <= q <= 79 and 946771200 <= t <= 3155673600:
            s[f], s[tf] = q, t
    elif f in ('t', 'dt'):
        tf = 't' if s['kind'] == 'deliver' else 'scts' if f == 't' else 'dt'
        t = s[tf] + rng.choice([1, -1, 60, 3600, -86400])
        if 946771200 <= t <= 3155673600:
            s[tf] = t
    elif f == 'kinds':
        s['kinds'] = gen_kinds(rng)
    elif f == 'flags':
        n = rng.choice(['more', 'sri', 'lp'])
        s[n] = not s.get(n) if n != 'lp' else gen_spare(rng)
    elif f == 'els':
        s['els'] = twin_elements(rng, s['els']) if s['els'] and rng.chance(80) else []
    elif f == 'coding':
        s['coding'] = rng.choice(['7bit', '8bit', 'ucs2'])
        s['dcs'] = DCS[s['coding']][0]
        s['text'] = u'a' * 5
    elif f == 'dcs':
        s['dcs'] = rng.choice(DCS[s['coding']])
    elif f == 'pid':
        s['pid'] = (s['pid'] + 1) % 256
    elif f == 'void':
        s['void'] = rng.choice(['', 'dt', 'scts'])
    elif f == 'mr':
        s['mr'] ^= 1 << rng.n(8)
    elif f == 'status':
        s['status'] = rng.choice([0, 1, 0x30, 0x20, None])
    elif f == 'text' and s['text']:
        s['text'] = s['text'][:-1] + rng.choice([u'', u'@', u'a'])
    if s['kind'] == 'deliver':
        while s['text'] and (len(tpdu.gsm_septets(s['text'])) if s['coding'] == '7bit' else len(s['text'])) > room(s['coding'], s['els']):
            s['text'] = s['text'][:-1]
    return s


def status_end(spec, h):
    """the digit after a report's status; the optional fields follow"""
    tail = tpdu.REPORT_TAILS[natural(spec.get('tail')) % len(tpdu.REPORT_TAILS)]
    return len(h) - 2 * len(tail) if spec.get('status') is not None else len(h) + 1


def build(spec):
    """-> hex PDU; PlanInvalid for nonsense"""
    k = spec.get('kind')
    for f in ('t', 'scts', 'dt'):
        if f in spec and not (isinstance(spec[f], (int, long)) and 946771200 <= spec[f] <= 3155673600):
            raise PlanInvalid(f)
    for f in ('q', 'q2'):
        if not -79 <= (spec.get(f) or 0) <= 79:
            raise PlanInvalid(f)
    valid_number(spec.get('smsc'), True)
    for f in ('pid', 'mr', 'status'):
        if spec.get(f) is not None and not 0 <= spec[f] <= 255:
            raise PlanInvalid(f)
    if k == 'report':
        valid_number(spec.get('ra'))
        return tpdu.report(spec.get('mr') or 0, spec['ra'], spec.get('smsc'), None if spec.get('void') == 'scts' else spec['scts'],
                           spec.get('q') or 0, None if spec.get('void') == 'dt' else spec['dt'],
                           spec.get('q2') or 0, spec.get('status'), sri=bool(spec.get('sri')), more=bool(spec.get('more')),
                           tail=natural(spec.get('tail')), kinds=kinds_of(spec), lp=natural(spec.get('lp')))
    if k != 'deliver':
        raise PlanInvalid('kind')
    oa = spec.get('oa')
    if not isinstance(oa, basestring) or not oa:
        raise PlanInvalid('oa')
    if oa[0] == '@':
        if len(oa) < 2 or not tpdu.is_gsm(oa[1:]) or len(tpdu.gsm_septets(oa[1:])) > 11:
            raise PlanInvalid('oa')
    else:
        valid_number(oa)
    coding = spec.get('coding')
    text = spec.get('text')
    if not isinstance(text, basestring) or coding not in FMT or spec.get('dcs') not in DCS[coding]:
        raise PlanInvalid('text')
    if coding == '7bit' and not tpdu.is_gsm(text) or coding == '8bit' and [c for c in text if ord(c) > 255] or \
            [c for c in text if 0xd800 <= ord(c) < 0xe000]:
        raise PlanInvalid('text')
    els = spec.get('els') or []
    for e in els:
        if len(e) != 2 or not isinstance(e[0], int) or not 0 <= e[0] <= 255 or [x for x in e[1] if not isinstance(x, int) or not 0 <= x <= 255]:
            raise PlanInvalid('els')
        if e[0] in (0, 4, 5, 8) and len(e[1]) != {0: 3, 4: 2, 5: 4, 8: 4}[e[0]] or e[0] in (0x24, 0x25):
            raise PlanInvalid('els')
        if e[0] in (0, 8) and not 1 <= e[1][-1] <= e[1][-2]:
            raise PlanInvalid('els')
    if len(set([e[0] for e in els])) != len(els) or len([e for e in els if e[0] in (0, 8)]) > 1 or \
            len([e for e in els if e[0] in (4, 5)]) > 1:
        raise PlanInvalid('els')
    n = len(tpdu.gsm_septets(text)) if coding == '7bit' else len(text)
    if n > room(coding, els):
        raise PlanInvalid('too long')
    udl, ud, udhi = tpdu.user_data(coding, text, els)
    h = tpdu.deliver(oa, spec.get('smsc'), spec['dcs'], spec['t'], spec.get('q') or 0, udl, ud, udhi=udhi, pid=spec.get('pid') or 0,
                     more=bool(spec.get('more')), sri=bool(spec.get('sri')), reply=bool(spec.get('reply')), kinds=kinds_of(spec), lp=natural(spec.get('lp')))
    return h + '2A' * min(spec.get('junk') or 0, 8)


def concat_of(els):
    for iei, d in els or []:
        if iei == 0:
            return (d[0], d[1], d[2])
        if iei == 8:
            return (d[0] << 8 | d[1], d[2], d[3])
    return None


def ports_of(els):
    for iei, d in els or []:
        if iei == 4:
            return (d[0], d[1])
        if iei == 5:
            return (d[0] << 8 | d[1], d[2] << 8 | d[3])
    return None


def check_spec(ctx, sms, spec, pdu):
    """everything a receiver can see of an intact PDU"""
    if spec['kind'] == 'report':
        return check_report(ctx, sms, spec)
    oa = spec['oa']
    oa = oa[1:] if oa[0] == '@' else oa
    els = spec.get('els') or []
    check_deliver(ctx, sms, dict(number=oa, csca=spec.get('smsc'), dcs=spec['dcs'], pid=spec.get('pid') or 0,
                                 date=utc(spec['t']), coding=spec['coding'], text=spec['text'], concat=concat_of(els)))
    udh = field(ctx, sms, 'udh')
    if not els:
        if udh is not None:
            ctx.fail('wrong-header', 'a message without header has %r' % (udh,))
        return
    if udh is None:
        ctx.fail('wrong-header', 'header lost')
    p = field(ctx, udh, 'ports')
    got = p and (p.dest_port, p.orig_port)
    if got != ports_of(els):
        ctx.fail('wrong-ports', 'ports %r, network carried %r' % (got, ports_of(els)))
    if p and bool(p.eight_bits) != (4 in [e[0] for e in els]):
        ctx.fail('wrong-ports', 'ports in eight bits: %r' % (p.eight_bits,))
    try:
        hd = dict([(k, [int(x) for x in v]) for k, v in udh.headers.items()])
    except Exception:
        ctx.fail('malformed', 'headers')
    want = dict([(e[0], list(e[1])) for e in els])
    if hd != want:
        ctx.fail('wrong-header', 'header elements %r, network carried %r' % (hd, want))
    c = udh.concat
    if c is not None and c.eight_bits != (0 in want):
        ctx.fail('wrong-concat', 'eight_bits is %r' % (c.eight_bits,))


def check_report(ctx, sms, spec):
    d = data_of(ctx, sms)
    sr = field(ctx, sms, 'sr')
    loc = lambda t, q: datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + 900 * (q or 0))
    want = dict(recipient=spec['ra'], scts=loc(spec['scts'], spec.get('q')), dt=loc(spec['dt'], spec.get('q2')), status=spec.get('status'))
    if spec.get('void') in ('scts', 'dt'):
        want[spec['void']] = None
    if sr != want or d.get('sr') != want:
        ctx.fail('wrong-report', 'report %r, network wrote %r' % (sr, want))
    c = getattr(field(ctx, sms, 'udh'), 'concat', None)
    if c is None or c.ref != (spec.get('mr') or 0) or d.get('ref') != (spec.get('mr') or 0):
        ctx.fail('wrong-reference', 'report reference')
    if field(ctx, sms, 'csca') != spec.get('smsc') or field(ctx, sms, 'type') != 3 or d.get('type') != 3 or d.get('csca') != spec.get('smsc'):
        ctx.fail('wrong-report', 'centre %r type %r' % (sms.csca, sms.type))
    if (field(ctx, sms, 'number') == 'SR-OK') != (spec.get('status') == 0) or not str(sms.number).startswith('SR-'):
        ctx.fail('false-delivery', 'status %r shown as %r' % (spec.get('status'), sms.number))
    if not unicode(field(ctx, sms, 'text')).startswith(spec['ra'] + '|') or field(ctx, sms, 'date') != want['scts']:
        ctx.fail('wrong-report', 'text %r date %r' % (sms.text, sms.date))
    if field(ctx, sms, 'pid') is not None or field(ctx, sms, 'dcs') is not None or d.get('pid') is not None or d.get('dcs') is not None:
        ctx.fail('wrong-report', 'pid %r dcs %r come from another message' % (sms.pid, sms.dcs))


def gen_damage(rng):
    k = rng.n(9)
    if k == 8:
        return dict(kind='char', at=rng.n(10000), v=rng.choice([u'G', u'g', u' ', u'\n', u'-', u'+', u'x', u'\x00', u'\xe9', u'\uff11', u'"']), ins=rng.chance(20))
    if k == 0:
        return dict(kind='cut', at=rng.n(10000))
    if k == 1:
        return dict(kind='flip', bits=[rng.n(100000) for _ in range(rng.weighted([(3, 1), (2, 2), (1, 8)]))])
    if k == 2:
        return dict(kind='head', bits=[rng.n(30 * 8) for _ in range(rng.between(1, 3))])
    if k == 3:
        return dict(kind='splice', at=rng.n(10000), to=rng.n(10000))
    if k == 4:
        return dict(kind='set', at=rng.n(10000), v=rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.n(256)]))
    if k == 5:
        return dict(kind='noise', n=rng.loguniform(200), v=rng.n(100000))
    if k == 6:
        return dict(kind='ins', at=rng.n(10000), v=rng.n(256))
    return dict(kind='text', v=rng.choice([u'', u'0', u'zz', u'GG00', u' ', u'07', u'0x', u'0-', u'\u0661\u0662', u'00' * 3, u'FF' * 200, u'-1' * 40, u'+1' * 40]))


def damage(dm, h, other):
    """-> hex string (maybe not even that)"""
    k = dm.get('kind')
    if k == 'cut':
        return h[:(dm.get('at') or 0) % (len(h) + 1)]
    if k in ('flip', 'head'):
        o = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
        for b in dm.get('bits') or []:
            o[(b // 8) % len(o)] ^= 1 << (b % 8)
        return tpdu.hexs(o)
    if k == 'splice':
        a, b = (dm.get('at') or 0) % (len(h) // 2 + 1), (dm.get('to') or 0) % (len(other) // 2 + 1)
        return h[:2 * a] + other[2 * b:]
    if k in ('set', 'ins'):
        a = (dm.get('at') or 0) % (len(h) // 2)
        return h[:2 * a] + '%02X' % ((dm.get('v') or 0) & 255) + h[2 * a + (2 if k == 'set' else 0):]
    if k == 'char':
        # a character that is no digit
        v = dm.get('v')
        if not isinstance(v, basestring) or len(v) != 1:
            raise PlanInvalid('v')
        a = (dm.get('at') or 0) % len(h)
        return h[:a] + v + h[a + (0 if dm.get('ins') else 1):]
    if k == 'noise':
        r = core.Rng('noise', dm.get('v'))
        return tpdu.hexs([r.n(256) for _ in range(min(dm.get('n') or 0, 400))])
    if k == 'text':
        v = dm.get('v')
        if not isinstance(v, basestring):
            raise PlanInvalid('v')
        return v
    raise PlanInvalid('damage')


def throw_at(ctx, fn, *a):
    """a damaged PDU: promptly a result or an ordinary exception; -> ('ok'|'exc', value)"""
    st, v = ctx.call(fn, *a, **dict(_limit=60000))
    if st == 'exc' and not isinstance(v, Exception):
        ctx.fail('fatal', 'damaged data ended in %s %s' % (core.exc_name(v), core.str_exc(v)))
    return st, v
