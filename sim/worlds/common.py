# -*- coding: utf-8 -*-
# Generators and checks shared by the short message worlds.
import datetime
import core
from core import PlanInvalid, Violation, set_zone, Clock
import tpdu
from tpdu import Reject

ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Asia/Kathmandu', 'Pacific/Auckland',
         'America/St_Johns', 'Australia/Lord_Howe', 'Pacific/Apia', 'America/Caracas', 'Africa/Casablanca',
         'Pacific/Kiritimati', 'Etc/GMT+12', 'Asia/Pyongyang']

ODD = [u'\x00', u'\x01', u'\t', u'\x7f', u'\x80', u'\xa0', u'\xe7', u'\xff', u'\u0100', u'\u03b1', u'\u20ac', u'\u2028',
       u'\u3042', u'\u4e2d', u'\ud7ff', u'\ue000', u'\ufeff', u'\ufffd', u'\ufffe', u'\uffff', u'\ufb01', u'\u0600']
WORDS = [u'hello', u'see you at', u'12:30', u'OK', u'[x]', u'{1}', u'€', u'100%', u'ñandù', u'?', u'\n', u'@', u'a|b', u'~^']
EXTC = sorted(tpdu.EXT.values())


def utc(t):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)


def gen_digits(rng, lo=3, hi=20):
    n = rng.choice([lo, lo + 1, 5, 8, 9, 10, 11, 11, 12, 12, 13, 15, hi - 1, hi])
    n = max(lo, min(hi, n))
    return ''.join([str(rng.n(10)) for _ in range(n)])


def gen_number(rng, plus=60):
    return ('+' if rng.chance(plus) else '') + gen_digits(rng)


def twin_number(rng, n):
    """a number much like n"""
    k = rng.n(5)
    if k < 2:
        return n[1:] if n[0] == '+' else '+' + n
    if k == 2 and len(n.lstrip('+')) > 3:
        return n[:-1]
    if k == 3 and len(n.lstrip('+')) < 20:
        return n + '0'
    return n[:-1] + str((int(n[-1]) + 1) % 10)


def gen_instant(rng):
    """UTC seconds of a service centre time stamp: 2000-2068 (the two digit years everyone reads alike)"""
    k = rng.n(6)
    if k == 0:
        y = rng.between(2000, 2067)
        return tpdu.seconds(y, 12, 31, 23, 59, 59) + rng.between(-2, 2)
    if k == 1:
        y = rng.choice([2000, 2004, 2008, 2012, 2024, 2028, 2096 - 48])
        return tpdu.seconds(y, 2, 28, rng.between(0, 23), rng.n(60), rng.n(60)) + 86400 * rng.n(3)
    if k == 2:      # around European and American clock changes
        y = rng.between(2005, 2030)
        return tpdu.seconds(y, rng.choice([3, 4, 10, 11]), rng.between(1, 30), rng.n(24), rng.n(60), rng.n(60))
    return tpdu.seconds(2000, 2, 1) + rng.n(2000000) * 1000 + rng.n(1000)


def gen_quarters(rng):
    return rng.weighted([(3, 0), (4, rng.between(-4, 8)), (4, rng.between(-48, 56)), (2, rng.choice([-48, -38, -14, -1, 1, 14, 22, 23, 35, 39, 40, 49, 51, 55, 56])),
                         (1, rng.between(-79, 79))])


def max_len(coding, parts):
    if parts == 1:
        return {'7bit': 160, '8bit': 140, 'ucs2': 70}[coding]
    return {'7bit': 153, '8bit': 134, 'ucs2': 67}[coding] * parts


def gen_chars(rng, coding, n):
    """text of n characters (7bit: n septets at most)"""
    if n <= 0:
        return u''
    if coding == '8bit':
        k = rng.n(4)
        if k == 0:
            return u''.join([unichr(rng.n(256)) for _ in range(min(n, 300))]) + u'\xff' * max(0, n - 300)
        if k == 1:
            return unichr(rng.choice([0, 0x1b, 0x20, 0x40, 0x7f, 0x80, 0xff])) * n
        pat = u''.join([unichr(rng.n(256)) for _ in range(rng.between(2, 40))])
        return (pat * (n // len(pat) + 1))[:n]
    if coding == 'ucs2':
        pool = ODD + [unichr(rng.between(0x100, 0xd7ff)) for _ in range(6)] + [u'a', u'b', u' ']
        if rng.chance(15):
            return rng.choice(ODD[8:]) * n
        pat = u''.join([rng.choice(pool) for _ in range(min(n, rng.between(3, 150)))])
        s = (pat * (n // len(pat) + 1))[:n]
        if tpdu.is_gsm(s):
            s = s[:-1] + u'\u4e2d'
        return s
    k = rng.n(8)
    if k == 0:
        s = rng.choice(EXTC) * (n // 2)
    elif k == 1:
        c = rng.choice(tpdu.GSM_CHARS)
        s = c * (n // len(tpdu.ENC[c]))
    elif k in (2, 3):
        out, used = [], 0
        while True:
            w = rng.choice(WORDS) + u' '
            out.append(w)
            used += len(w)
            if used >= n or len(out) > 400:
                break
        s = u''.join(out)
    elif k == 4:     # escapes where parts end
        c = rng.choice([u'a', u'@', u'0'])
        s = list(c * n)
        for b in range(152, n, 153):
            j = b + rng.between(-3, 3)
            if 0 <= j < n:
                s[j] = rng.choice(EXTC)
        s = u''.join(s)
    else:
        pat = u''.join([rng.choice(tpdu.GSM_CHARS) for _ in range(min(n, rng.between(3, 200)))])
        s = (pat * (n // len(pat) + 1))[:n]
    return cut_septets(s, n)


def cut_septets(s, n):
    used = 0
    for i, c in enumerate(s):
        used += len(tpdu.ENC[c])
        if used > n:
            return s[:i]
    return s


def gen_text(rng, coding, maxparts=4):
    """lengths sit near the limits of single messages and parts more often than elsewhere"""
    k = rng.n(10)
    if k < 2:
        n = rng.between(0, 12)
    elif k < 5:
        n = max_len(coding, 1) + rng.between(-3, 3)
    elif k < 8:
        n = max_len(coding, rng.between(2, max(2, maxparts))) + rng.between(-4, 4)
    else:
        n = rng.n(max_len(coding, max(2, maxparts)) + 1)
    n = max(0, min(n, max_len(coding, 255) - 2000))
    return gen_chars(rng, coding, n)


def twin_text(rng, coding, text):
    """a text like another one but for a character; no longer than it"""
    if not text:
        return text
    i = rng.choice([0, len(text) - 1, len(text) // 2, rng.n(len(text))])
    k = rng.n(6)
    if k == 0:
        return text[:-1]
    if k == 1 and coding != 'ucs2':
        return text[:i] + text[i].swapcase() + text[i + 1:] if coding == '7bit' and tpdu.is_gsm(text[i].swapcase()) else text[:i] + text[i + 1:]
    if k == 2:
        return text[1:] + text[0]
    if k == 3:
        return text[::-1]
    c = rng.choice({'7bit': [u'@', u'a', u'0', u' ', u'?'], '8bit': [u'\x00', u'\xff', u'a'], 'ucs2': [u'\u3042', u'a', u'\u0100']}[coding])
    return text[:i] + c + text[i + 1:]


def twin_message(rng, m):
    """a message to be submitted like another one in all but a thing or two"""
    m = dict(m)
    for _ in range(rng.weighted([(3, 1), (1, 2)])):
        f = rng.choice(['text', 'text', 'number', 'csca', 'klass', 'srr', 'ref', 'fmt', 'coding', 'vp'])
        if f == 'text':
            t = twin_text(rng, m['coding'], m['text'])
            if m['coding'] != 'ucs2' or not tpdu.is_gsm(t):
                m['text'] = t
        elif f == 'number':
            m['number'] = twin_number(rng, m['number'])
        elif f == 'csca':
            m['csca'] = None if m.get('csca') and rng.chance(30) else twin_number(rng, m['csca']) if m.get('csca') else gen_number(rng)
        elif f == 'klass':
            m['klass'] = rng.choice([None, 0, 1, 2, 3])
        elif f == 'srr':
            m['srr'] = not m.get('srr')
        elif f == 'ref':
            m['ref'] = rng.choice([None, rng.n(256)])
        elif f == 'vp' and 'vp' in m:
            m['vp'] = rng.choice([300, 3600, 86400])
        elif f == 'fmt' and 'fmt' in m:
            m['fmt'] = not m['fmt']
        elif f == 'coding' and m['coding'] == '7bit':
            # the same octets as another kind of text
            m['coding'], m['text'] = '8bit', u''.join([c for c in m['text'] if ord(c) < 256])[:134 * 250]
    return m


def valid_text(coding, text):
    if not isinstance(text, basestring):
        raise PlanInvalid('text')
    text = unicode(text)
    if coding == '8bit':
        for c in text:
            if ord(c) > 255:
                raise PlanInvalid('8bit')
    elif coding == '7bit':
        if not tpdu.is_gsm(text):
            raise PlanInvalid('gsm')
    elif coding == 'ucs2':
        for c in text:
            if 0xd800 <= ord(c) < 0xe000:
                raise PlanInvalid('surrogate')
        if tpdu.is_gsm(text):
            raise PlanInvalid('is gsm')
    else:
        raise PlanInvalid('coding')
    return text


def parts_needed(coding, text):
    """upper bound of the number of parts (escapes cost at most one septet a part)"""
    n = len(tpdu.gsm_septets(text)) if coding == '7bit' else len(text)
    if n <= max_len(coding, 1):
        return 1
    per = {'7bit': 152, '8bit': 134, 'ucs2': 67}[coding]
    return (n + per - 1) // per


NUM_OK = __import__('re').compile(r'^\+?[0-9]{3,20}$')


def valid_number(n, none_ok=False):
    if n is None and none_ok:
        return None
    if not isinstance(n, basestring) or not NUM_OK.match(n) or n.endswith('\n'):
        raise PlanInvalid('number')
    return str(n)


def to_lib_text(coding, text, plain):
    """the object a user would pass: octets for 8-bit messages, str for plain ASCII when asked"""
    if coding == '8bit':
        return ''.join([chr(ord(c)) for c in text])
    if plain and coding == '7bit':
        try:
            return text.encode('ascii')
        except UnicodeError:
            return text
    return text


def new_submit(ctx, m):
    """SmsSubmit from {'number','text','coding','csca','klass','srr','ref','rand_id','fmt','plain'}"""
    coding = m.get('coding')
    text = valid_text(coding, m.get('text'))
    number = valid_number(m.get('number'))
    csca = valid_number(m.get('csca'), True)
    if parts_needed(coding, text) > 255:
        raise PlanInvalid('too long')
    sms = ctx.must('submit-refused', ctx.lib.SmsSubmit, number, to_lib_text(coding, text, m.get('plain')))
    if csca is not None:
        sms.csca = csca
    if m.get('klass') is not None:
        if m['klass'] not in (0, 1, 2, 3):
            raise PlanInvalid('klass')
        sms.klass = m['klass']
    if m.get('srr'):
        sms.request_status = True
    for k in ('ref', 'rand_id'):
        v = m.get(k)
        if v is not None:
            if not isinstance(v, (int, long)) or not 0 <= v <= 255:
                raise PlanInvalid(k)
            setattr(sms, k, int(v))
    if natural(m.get('pid')):
        sms.pid = m['pid']
    if coding == '8bit':
        sms.fmt = 0x04
    elif m.get('fmt'):
        sms.fmt = {'7bit': 0x00, 'ucs2': 0x08}[coding]
    return sms, text


def natural(v):
    if not isinstance(v or 0, (int, long)) or not 0 <= (v or 0) < 256:
        raise PlanInvalid('number')
    return v or 0


def gen_skip(rng):
    """how many references the process used long ago"""
    return rng.weighted([(3, 0), (2, rng.between(248, 254)), (1, rng.n(255))])


def skip_references(ctx, lib, plan):
    """messages of one part, delivered long ago"""
    n = plan.get('skip') or 0
    if not isinstance(n, (int, long)) or not 0 <= n <= 600:
        raise PlanInvalid('skip')
    if not n:
        return
    ctx.stat('long_ago', n)
    st, v = ctx.call(lambda: [lib.SmsSubmit('+34600000000', 'x').to_pdu() for _ in range(n)], _limit=10000000)
    if st != 'ok':
        ctx.fail('submit-failed', 'raised %s: %s' % (core.exc_name(v), core.str_exc(v)))


def pdus_of(ctx, kind, sms):
    """[(hex, length, cnt, seq)] of to_pdu(), read defensively"""
    lst = ctx.must(kind, sms.to_pdu)
    return read_pdus(ctx, lst)


def read_pdus(ctx, lst):
    out = []
    try:
        for p in lst:
            out.append((str(p.pdu), int(p.length), int(p.cnt), int(p.seq)))
    except Exception, e:
        ctx.fail('malformed', 'to_pdu() gave %r' % (lst,))
    if not out:
        ctx.fail('malformed', 'to_pdu() gave no PDU')
    return out


def accept(ctx, pdu, what='PDU'):
    """the phone and the service centre take the PDU apart"""
    try:
        return tpdu.parse_submit(pdu[0], pdu[1])
    except Reject, e:
        ctx.fail('rejected', '%s is refused by the service centre: %s: %s' % (what, e, pdu[0][:400]))


def check_parts(ctx, m, text, pdus):
    """all PDUs of one message together; -> list of parsed parts in sequence order"""
    ps = []
    n = len(pdus)
    for i, p in enumerate(pdus):
        r = accept(ctx, p, 'part %d of %d' % (i + 1, n))
        if p[2] != n or p[3] != i + 1:
            ctx.fail('wrong-count', 'Pdu says part %d of %d, is %d of %d' % (p[3], p[2], i + 1, n))
        c = r['concat']
        if n == 1:
            if c is not None and c[1] != 1:
                ctx.fail('wrong-count', 'a single PDU says it is part %d of %d' % (c[2], c[1]))
        else:
            if c is None:
                ctx.fail('wrong-count', 'part %d of %d does not say so' % (i + 1, n))
            if c[1] != n or c[2] != i + 1:
                ctx.fail('wrong-count', 'header says part %d of %d, is %d of %d' % (c[2], c[1], i + 1, n))
            if ps and c[0] != ps[0]['concat'][0]:
                ctx.fail('reference', 'parts of one message with references %d and %d' % (ps[0]['concat'][0], c[0]))
            if m.get('rand_id') is not None and c[0] != m['rand_id']:
                ctx.fail('reference', 'concatenation reference %d, user chose %d' % (c[0], m['rand_id']))
        if r['da'] != m['number']:
            ctx.fail('misrouted', 'destination %r, user gave %r' % (r['da'], m['number']))
        if r['smsc'] != m.get('csca'):
            ctx.fail('misrouted', 'service centre %r, user gave %r' % (r['smsc'], m.get('csca')))
        if r['coding'] != m['coding']:
            ctx.fail('wrong-coding', '%r for a text of %r' % (r['coding'], m['coding']))
        if r['class'] != m.get('klass'):
            ctx.fail('wrong-class', 'class %r, user gave %r' % (r['class'], m.get('klass')))
        if r['srr'] != bool(m.get('srr')):
            ctx.fail('report-flag', 'report asked for: %r, user: %r' % (r['srr'], bool(m.get('srr'))))
        if m.get('ref') is not None and r['mr'] != m['ref']:
            ctx.fail('reference', 'message reference %d, user chose %d' % (r['mr'], m['ref']))
        if r['pid'] != (m.get('pid') or 0):
            ctx.fail('wrong-pid', 'protocol %r, user gave %r' % (r['pid'], m.get('pid')))
        ps.append(r)
    if n > 1:
        size = len(tpdu.gsm_septets(text)) if m['coding'] == '7bit' else len(text) if m['coding'] == '8bit' else len(text.encode('utf-16-be')) // 2
        if size <= max_len(m['coding'], 1):
            ctx.fail('wrong-count', '%d parts for a text that fits one message' % n)
    got = u''.join([unicode_of(r) for r in ps])
    if got != text:
        ctx.fail('wrong-text', 'submitted %s, on the air %s' % (brief(text), brief(got)))
    return ps


def unicode_of(r):
    t = r['text']
    return t if isinstance(t, unicode) else t.decode('latin-1')


def brief(t):
    t = repr(t)
    return t if len(t) < 160 else t[:100] + '...' + t[-50:] + ' (%d)' % len(t)


def same_text(coding, got, want):
    """want: unicode (for 8-bit one character per octet)"""
    if coding == '8bit':
        if isinstance(got, unicode):
            return got == want
        return isinstance(got, str) and got == ''.join([chr(ord(c)) for c in want])
    if isinstance(got, str):
        try:
            got = got.decode('ascii')
        except UnicodeError:
            return False
    return got == want


FMT = {'7bit': 0x00, '8bit': 0x04, 'ucs2': 0x08}


def gen_kinds(rng):
    """kinds of number, of the centre and of the other party"""
    return [rng.weighted([(6, 0), (1, rng.n(40))]), rng.weighted([(6, 0), (1, rng.n(40))])]


def kinds_of(spec):
    k = spec.get('kinds') or [0, 0]
    if not isinstance(k, (list, tuple)) or len(k) != 2:
        raise PlanInvalid('kinds')
    return [natural(k[0]), natural(k[1])]


def deliver_pdu(r, oa, smsc, t, quarters, more=False, kinds=(0, 0)):
    """what the network sends to the receiver for an accepted SUBMIT"""
    return tpdu.deliver(oa, smsc, r['dcs'], t, quarters, r['udl'], r['ud'], udhi=r['udhi'], pid=r['pid'], more=more, kinds=kinds)


def field(ctx, obj, *names):
    """attribute of a library result; a missing one is a violation, not a harness error"""
    for n in names:
        try:
            obj = getattr(obj, n)
        except Exception, e:
            ctx.fail('malformed', 'reading %s: %s' % ('.'.join(names), core.exc_name(e)))
    return obj


def data_of(ctx, sms):
    st, d = ctx.call(lambda: sms.data)
    if st != 'ok' or not isinstance(d, dict):
        ctx.fail('malformed', 'data: %r' % (d,))
    return d


def check_deliver(ctx, sms, exp):
    """exp: dict of expected values: number csca text coding dcs pid date concat ports(optional)"""
    d = data_of(ctx, sms)
    for k in ('number', 'csca', 'dcs', 'pid', 'date'):
        if k in exp:
            a, b = field(ctx, sms, k), d.get(k)
            if a != exp[k] or type(a) is bool:
                ctx.fail('wrong-' + k, '%s is %r, network wrote %r' % (k, a, exp[k]))
            if b != exp[k]:
                ctx.fail('wrong-' + k, 'data[%r] is %r, network wrote %r' % (k, b, exp[k]))
    if exp.get('date') is not None and getattr(field(ctx, sms, 'date'), 'tzinfo', None) is not None:
        ctx.fail('wrong-date', 'date has a time zone')
    if field(ctx, sms, 'fmt') != FMT[exp['coding']] or d.get('fmt') != FMT[exp['coding']]:
        ctx.fail('wrong-coding', 'fmt %r for %s' % (sms.fmt, exp['coding']))
    if field(ctx, sms, 'type') is not None or d.get('type') is not None or d.get('sr') is not None \
            or field(ctx, sms, 'sr') is not None:
        ctx.fail('wrong-type', 'a text message taken for a status report: %r %r' % (sms.type, sms.sr))
    if exp.get('text') is not None:
        for v in (field(ctx, sms, 'text'), d.get('text')):
            if not same_text(exp['coding'], v, exp['text']):
                ctx.fail('wrong-text', 'decoded %s, network carried %s' % (brief(v), brief(exp['text'])))
    if 'concat' in exp:
        c = exp['concat']
        udh = field(ctx, sms, 'udh')
        got = getattr(udh, 'concat', None) if udh is not None else None
        if c is None:
            if got is not None or 'ref' in d or 'cnt' in d or 'seq' in d:
                ctx.fail('wrong-concat', 'a message that is not part of another says %r' % (got,))
        else:
            g = got and (getattr(got, 'ref', None), getattr(got, 'cnt', None), getattr(got, 'seq', None))
            if g != tuple(c[:3]):
                ctx.fail('wrong-concat', 'reference, parts, number %r, network carried %r' % (g, tuple(c[:3])))
            if (d.get('ref'), d.get('cnt'), d.get('seq')) != tuple(c[:3]):
                ctx.fail('wrong-concat', 'data says %r, network carried %r' % ((d.get('ref'), d.get('cnt'), d.get('seq')), c[:3]))


class Inbox(object):
    """An application that puts parts together by sender, reference and part count"""

    def __init__(self):
        self.parts = {}
        self.done = []

    def take(self, ctx, sms):
        udh = field(ctx, sms, 'udh')
        c = getattr(udh, 'concat', None) if udh is not None else None
        text = field(ctx, sms, 'text')
        if c is None or not c.cnt:
            self.done.append(((field(ctx, sms, 'number'), None, 1), text))
            return self.done[-1]
        key = (field(ctx, sms, 'number'), c.ref, c.cnt)
        box = self.parts.setdefault(key, {})
        box.setdefault(c.seq, []).append(text)
        if len(box) == c.cnt and sorted(box) == range(1, c.cnt + 1):
            del self.parts[key]
            self.done.append((key, join([box[i][0] for i in range(1, c.cnt + 1)])))
            return self.done[-1]
        return None


def join(texts):
    if texts and isinstance(texts[0], str):
        return ''.join(texts)
    return u''.join(texts)
