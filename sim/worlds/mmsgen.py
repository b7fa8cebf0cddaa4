# -*- coding: utf-8 -*-
# Generators and checks shared by the MMS worlds.  In plans octets are text with
# characters up to 255.
import os, array, re
import core
from core import PlanInvalid
import wsp
from wsp import Bad
from common import natural, ZONES, field, set_zone, Clock, datetime

DEFAULTS = {'Message-Type': 'm-send-req', 'Transaction-Id': '1234', 'MMS-Version': '1.0',
            'Content-Type': ('application/vnd.wap.multipart.mixed', {})}
MIXED = 'application/vnd.wap.multipart.mixed'
RELATED = 'application/vnd.wap.multipart.related'
TYPES = ['image/jpeg', 'image/gif', 'image/png', 'text/plain', 'application/smil', 'audio/amr', 'audio/midi', 'video/3gpp',
         'application/octet-stream', 'text/html', 'application/vnd.wap.mms-message', '*/*', 'multipart/mixed',
         'application/vnd.wap.multipart.alternative', 'x/y', 'text/x-vCard', 'application/xml']


def S(v):
    """text of a plan as octets"""
    if isinstance(v, unicode):
        try:
            return v.encode('latin-1')
        except UnicodeError:
            raise PlanInvalid('octets')
    if not isinstance(v, str):
        raise PlanInvalid('text')
    return v


def deep(v):
    """every text of a spec as octets"""
    if isinstance(v, basestring):
        return S(v)
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, dict):
        return dict([(S(k), deep(x)) for k, x in v.items()])
    return v


# ---------------------------------------------------------------- texts and data

def gen_str(rng, n=None, high=True):
    """text without NUL; first character printable unless `high`"""
    if n is None:
        n = rng.choice([1, 2, 5, 10, 29, 30, 31, 40, 127, 128, 130])
        if rng.chance(80):
            n = min(n, 20)
    k = rng.n(5)
    if k == 0:
        s = ''.join([chr(rng.between(1, 255)) for _ in range(n)])
    elif k == 1:
        s = ''.join([rng.choice('\xc3\xb1\xe2\x82\xac\xff\x80 a') for _ in range(n)])
    else:
        s = ''.join([chr(rng.between(32, 126)) for _ in range(n)])
    if s and (ord(s[0]) < 32 or ord(s[0]) == 127 or not high and ord(s[0]) > 127):
        s = rng.choice('aZ9+< /@') + s[1:]
    return s.decode('latin-1')


def gen_addr(rng):
    k = rng.n(4)
    if k == 0:
        return u'user%d@example.org' % rng.n(1000)
    n = u'%s%d' % (rng.choice([u'+34', u'', u'+', u'00']), rng.n(10 ** 9))
    return n + rng.choice([u'/TYPE=PLMN', u'/TYPE=PLMN', u''])


def gen_token(rng):
    return u''.join([unichr(rng.choice([c for c in range(33, 127) if chr(c) not in wsp.SEPARATORS])) for _ in range(rng.between(1, 12))])


def gen_data(rng, big=False):
    n = rng.choice([0, 1, 2, 16, 100, 127, 128, 129, 255, 256] + ([1000, 16383, 16384, 20000] if big else [600]))
    if rng.chance(50):
        n = min(n, 30)
    k = rng.n(6)
    if k == 0:
        return u'\x00' * n
    if k == 1:
        return rng.choice([u'\r\n', u'\x1a', u'\xff', u'\x80', u'a\r\n', u'\n']) * (n // 2)
    if k == 2:
        return (u'the quick brown fox ' * (n // 20 + 1))[:n]
    pat = rng.bytes(min(n, 64) or 1).decode('latin-1')
    return (pat * (n // len(pat) + 1))[:n]


def valid_str(v, what='text', empty=True):
    """octet text the composer can carry as Text-string"""
    v = S(v)
    if '\x00' in v or v and (ord(v[0]) < 32 or ord(v[0]) == 127) or not v and not empty:
        raise PlanInvalid(what)
    return v


# ---------------------------------------------------------------- content types

def gen_params(rng, foreign):
    ps = []
    for _ in range(rng.weighted([(5, 1), (3, 2), (1, 4)])):
        k = rng.n(9)
        if k < 3:
            p = [rng.choice([u'Name', u'Filename', u'Start', u'Start-info']), 'typed', gen_str(rng)]
        elif k == 3:
            p = [u'Type', 'typed', rng.choice([u'application/smil', u'text/plain', u'a', 0x33, 3, 0])]
        elif k == 4:
            p = rng.choice([[u'Level', 'typed', rng.choice([u'1.0', u'7.14', u'1.2', u'3.9'])], [u'Padding', 'typed', rng.choice([0, 1, 127])]])
        elif k == 5 and foreign:
            p = [u'Charset', 'typed', rng.choice([0x6a, 3, 4])]
        elif k == 6:
            p = [gen_token(rng), rng.choice(['int', 'int', 'long']), rng.choice([0, 1, 127, 128, 255, 256, 65536, 2 ** 31 - 1])]
        elif k == 7:
            p = [gen_token(rng), 'token', gen_token(rng) if rng.chance(85) else u'']
        else:
            p = [gen_token(rng), 'quoted', rng.choice([u' ', u'(', u'"', u'\xe9', u'\t', u'/']) + gen_str(rng)]
        if p[0] not in [x[0] for x in ps] and (p[1] == 'typed' or p[0] not in wsp.PARAMS and p[0] not in ('Q', 'Differences')):
            ps.append(p)
    return ps


def gen_ct(rng, foreign=True, top=False):
    v = rng.choice([MIXED, RELATED, RELATED]) if top else rng.choice(TYPES if rng.chance(70) else wsp.CT)
    k = rng.n(10)
    if k < 4:
        form = 'short' if v in wsp.CT_NUM else 'text'
    elif k < 5:
        form = 'text'
    else:
        form = rng.choice(['general', 'general', 'general', 'gtext'])
    c = dict(v=v, form=form, ps=gen_params(rng, foreign) if form in ('general', 'gtext') else [])
    if rng.chance(15):
        c['q'] = True
    return c


def valid_ct(c):
    v = S(c.get('v'))
    if not v or [x for x in v if not 32 < ord(x) < 127] or '/' not in v:
        raise PlanInvalid('type')
    if c.get('form') not in ('short', 'text', 'general', 'gtext') or c['form'] == 'short' and v not in wsp.CT_NUM:
        raise PlanInvalid('form')
    seen = []
    for p in c.get('ps') or []:
        if len(p) != 3:
            raise PlanInvalid('param')
        name, kind, x = S(p[0]), p[1], p[2]
        if name in seen:
            raise PlanInvalid('param twice')
        seen.append(name)
        if kind == 'typed':
            if name not in wsp.PARAMS:
                raise PlanInvalid('param')
            t = wsp.PARAMS[name][1]
            if t == 'text':
                valid_str(x)
            elif t == 'version':
                if not re.match(r'^[1-7]\.([0-9]|1[0-4])$', S(x)):
                    raise PlanInvalid('version')
            elif t == 'short':
                if not isinstance(x, (int, long)) or not 0 <= x < 128:
                    raise PlanInvalid('short')
            elif t == 'charset':
                if x not in wsp.CHARSETS:
                    raise PlanInvalid('charset')
            elif isinstance(x, basestring):
                x = S(x)
                if not x or '\x00' in x or not 32 <= ord(x[0]) < 127:
                    raise PlanInvalid('type')
            elif not isinstance(x, (int, long)) or not 0 <= x < 128:
                raise PlanInvalid('type')
        else:
            if name in wsp.PARAMS or name in ('Q', 'Differences') or not wsp.is_token(name):
                raise PlanInvalid('param name')
            if kind in ('int', 'long'):
                if not isinstance(x, (int, long)) or not 0 <= x < 2 ** 31:
                    raise PlanInvalid('int')
            elif kind == 'token':
                if S(x) and not wsp.is_token(S(x)):
                    raise PlanInvalid('token')
            elif kind == 'quoted':
                if '\x00' in S(x):
                    raise PlanInvalid('quoted')
            else:
                raise PlanInvalid('kind')
    return c


# ---------------------------------------------------------------- messages of other senders

def gen_field(rng, name):
    if name not in wsp.FIELDS:
        return gen_str(rng) if rng.chance(90) else u''
    kind = wsp.FIELDS[name][1]
    if kind == 'enc':
        return gen_enc(rng, gen_addr(rng) if name in ('To', 'Cc', 'Bcc') and rng.chance(70) else gen_str(rng) if rng.chance(93) else u'')
    if kind == 'text':
        if name == 'Content-Location':
            return u'http://mmsc/' + gen_token(rng)
        return rng.choice([gen_str(rng), gen_token(rng), u'T%d' % rng.n(10 ** 6)])
    if kind == 'date':
        return gen_instant32(rng)
    if kind == 'long':
        return rng.choice([0, 1, 127, 128, 255, 256, 65535, 65536, 300000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
    if kind == 'version':
        return rng.choice([u'1.0', u'1.1', u'1.2', u'1.3', u'1.4', u'2.0', u'7.14', u'1'])
    if kind == 'from':
        if rng.chance(25):
            return None
        v = gen_enc(rng, gen_addr(rng) if rng.chance(70) else gen_str(rng))
        v['ql'] = rng.chance(10)
        return v
    if kind in ('expiry', 'dtime'):
        if rng.chance(40):
            return dict(abs=True, v=gen_instant32(rng), q=rng.chance(10))
        return dict(abs=False, v=rng.choice([0, 1, 100, 127, 128, 255, 256, 3600, 86400, 604800, 2 ** 31 - 1, 2 ** 31]), long=rng.chance(50),
                    q=rng.chance(10))
    if kind == 'mclass':
        return rng.choice([0x80, 0x81, 0x82, 0x83, gen_token(rng)])
    if kind == 'mtype':
        return rng.choice([0x80, 0x82, 0x84, 0x86, 0x81, 0x83, 0x85, 0x87, 0x88, 0x89, 0x9b])
    return rng.choice(sorted(wsp.TOKENS[kind]))


def gen_enc(rng, t):
    cs = rng.choice([None, None, 0x6a, 0x6a, 4, 3])
    return dict(t=t, cs=cs, cslong=rng.chance(10), q=rng.chance(10), quote=False)


def gen_instant32(rng):
    return rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.n(2 ** 31 - 1), 946684800 + rng.n(10 ** 9), 1104537600 + rng.n(86400 * 400),
                       1300000000 + rng.n(10 ** 8)])


def gen_foreign(rng, big=False, kind=None):
    """a spec for wsp.message()"""
    pool = [n for n in sorted(wsp.FIELDS) if n not in ('Content-Type', 'Message-Type', 'Transaction-Id', 'MMS-Version')]
    if kind is None:
        kind = rng.weighted([(4, 'retrieve'), (2, 'send'), (3, 'notify'), (1, 'resp'), (1, 'other')])
    mt = {'retrieve': 0x84, 'send': 0x80, 'notify': 0x82, 'resp': 0x83, 'other': rng.choice([0x81, 0x85, 0x86, 0x87, 0x88, 0x9b])}[kind]
    names = {'retrieve': ['Message-ID', 'Date', 'From', 'To', 'Subject'], 'send': ['To', 'From', 'Subject'],
             'notify': ['From', 'Message-Class', 'Message-Size', 'Expiry', 'Content-Location', 'Subject'], 'resp': ['Status', 'Report-Allowed'],
             'other': ['Message-ID', 'To', 'Date', 'Status']}[kind]
    names = [n for n in names if rng.chance(85)]
    for _ in range(rng.weighted([(4, 0), (3, 1), (2, 3), (1, 8)])):
        names.append(rng.choice(pool))
    for _ in range(rng.weighted([(5, 0), (2, 1), (1, 3)])):
        names.append(u'X-' + gen_token(rng))
    seen, hdrs = [], []
    for n in names:
        if n not in seen and n.lower() not in [x.lower() for x in seen]:
            seen.append(n)
            hdrs.append([n, gen_field(rng, n)])
    rng.shuffle(hdrs)
    first = [['Message-Type', mt], ['Transaction-Id', gen_field(rng, 'Transaction-Id')], ['MMS-Version', gen_field(rng, 'MMS-Version')]]
    if rng.chance(15):
        first = [h for h in first if rng.chance(70)]
    hdrs = first + hdrs
    if rng.chance(10):
        rng.shuffle(hdrs)
    m = dict(hdrs=hdrs, ct=None, parts=[], many=gen_many(rng))
    if kind in ('retrieve', 'send') or rng.chance(5):
        m['ct'] = gen_ct(rng, True, True)
        for _ in range(rng.weighted([(1, 0), (3, 1), (3, 2), (2, 4)])):
            hs, hn = [], []
            for _i in range(rng.weighted([(3, 0), (3, 1), (2, 2), (1, 4)])):
                n = rng.choice(sorted(wsp.WSP_TEXT) + ['Content-ID', 'X-' + gen_token(rng)])
                if n not in hn:
                    hn.append(n)
                    hs.append([n, u'<%s>' % gen_token(rng) if n == 'Content-ID' else gen_str(rng)])
            m['parts'].append(dict(ct=gen_ct(rng), hdrs=hs, data=gen_data(rng, big), pad=rng.weighted([(12, 0), (1, 1)]), plain=False))
    return m


def twin_str(rng, s):
    """text like s but for a character"""
    if not s or rng.chance(20):
        return s + rng.choice([u' ', u'a', u'0', u'/'])
    i = rng.choice([0, len(s) - 1, rng.n(len(s))])
    k = rng.n(4)
    if k == 0 and len(s) > 1:
        return s[:-1]
    if k == 1 and ord(s[i]) < 128 and s[i] != s[i].swapcase():
        return s[:i] + s[i].swapcase() + s[i + 1:]
    return s[:i] + (u'b' if s[i] != u'b' else u'c') + s[i + 1:]


def twin_params(rng, c):
    c['ps'] = [list(p) for p in c.get('ps') or []]
    if c.get('form') not in ('general', 'gtext') or not c['ps']:
        c['form'] = 'general'
        c['ps'] = gen_params(rng, False)
        return
    p = rng.choice(c['ps'])
    k = rng.n(5)
    if k == 0 and len(c['ps']) > 1:
        c['ps'].remove(p)
    elif k == 1 and len(c['ps']) > 1:
        c['ps'].reverse()
    elif p[1] in ('int', 'long'):
        p[2] ^= 1
    elif p[1] == 'token':
        p[2] = p[2][:-1] + (u'b' if p[2][-1:] != u'b' else u'c')
    elif p[1] == 'quoted':
        p[2] += u'x'
    elif p[0] in ('Name', 'Filename', 'Start', 'Start-info'):
        p[2] = twin_str(rng, p[2])


def twin_data(rng, d):
    """as long as d, if that can be"""
    if not d:
        return rng.choice([u'', u'\x00'])
    i = rng.choice([0, len(d) - 1, rng.n(len(d))])
    k = rng.n(6)
    if k == 0:
        return d[:-1]
    if k == 1:
        return d + d[-1]
    return d[:i] + unichr((ord(d[i]) + 1) % 256) + d[i + 1:]


def copied(v):
    if isinstance(v, list):
        return [copied(x) for x in v]
    if isinstance(v, dict):
        return dict([(k, copied(x)) for k, x in v.items()])
    return v


def twin_parts(rng, m):
    """changes one thing about the parts of a message"""
    ps = m.get('parts') or []
    if not ps:
        m['parts'] = [dict(ct=gen_ct(rng, False), hdrs=[], data=gen_data(rng), pad=0, plain=False)] if m.get('ct') is not None or 'pages' in m else []
        return
    p = rng.choice(ps)
    if p.get('file') is not None:
        p['file']['data'] = twin_data(rng, p['file']['data'])
        return
    k = rng.n(8)
    if k == 0 and len(ps) > 1:
        ps.remove(p)
    elif k == 1 and len(ps) > 1:
        ps.reverse()
    elif k == 2:
        twin_params(rng, p['ct'])
    elif k == 3:
        p['ct'] = gen_ct(rng, False)
    elif k == 4 and p.get('hdrs'):
        h = rng.choice(p['hdrs'])
        h[1] = twin_str(rng, h[1]) if h[0] != 'Content-ID' else u'<b%s' % h[1][1:]
    elif k == 5 and p.get('hdrs'):
        p['hdrs'] = p['hdrs'][1:]
    else:
        p['data'] = twin_data(rng, p['data'])


def twin_foreign(rng, m):
    """a message like another one in all but a thing or two"""
    m = copied(m)
    for _ in range(rng.weighted([(3, 1), (1, 2)])):
        k = rng.n(10)
        if k < 4 and (m.get('parts') or m.get('ct') is not None):
            twin_parts(rng, m)
        elif k < 5 and m.get('ct') is not None:
            twin_params(rng, m['ct'])
        elif k < 6 and len(m['hdrs']) > 1:
            if rng.chance(50):
                rng.shuffle(m['hdrs'])
            else:
                m['hdrs'].remove(rng.choice(m['hdrs']))
        elif m['hdrs']:
            h = rng.choice(m['hdrs'])
            kind = wsp.FIELDS[h[0]][1] if h[0] in wsp.FIELDS else 'text'
            v = h[1]
            if kind in ('enc', 'from') and v is not None:
                if rng.chance(70):
                    v['t'] = twin_str(rng, v['t'])
                else:
                    v['cs'] = rng.choice([None, 0x6a, 4, 3])
            elif kind == 'text' and h[0] != 'Content-Location':
                h[1] = twin_str(rng, v)
            elif kind in ('date', 'long'):
                h[1] = v ^ 1 << rng.n(32)
            elif kind in ('expiry', 'dtime'):
                if rng.chance(50) and v['v'] < 2 ** 32:
                    v['abs'] = not v['abs']
                else:
                    v['v'] ^= 1 << rng.n(31)
            else:
                h[1] = gen_field(rng, h[0])
    return m


def twin_composed(rng, m):
    m = copied(m)
    for _ in range(rng.weighted([(3, 1), (1, 2)])):
        k = rng.n(10)
        if k < 4:
            twin_parts(rng, m)
        elif k < 6 and m.get('pages'):
            p = rng.choice(m['pages'])
            x = rng.choice([p[n] for n in ('image', 'audio', 'text') if p.get(n)] or [None])
            if x is None or rng.chance(30):
                p['dur'] = rng.choice([1, 4500, 4501])
            elif 'name' in x or rng.chance(50):
                x['data'] = twin_data(rng, x['data']).replace(u'\x00', u'0')
            else:
                x['t'] = [0, rng.choice([0, 1, 1500])]
        elif m.get('hdrs'):
            h = rng.choice(m['hdrs'])
            if h[0] in ('To', 'Cc', 'Bcc', 'From', 'Subject', 'Response-Text', 'Message-ID', 'Transaction-Id') and h[1] is not None:
                h[1] = twin_str(rng, h[1])
            elif h[1] is not None and h[0] in ENCODABLE:
                h[1] = gen_header(rng, h[0])
            elif rng.chance(50):
                rng.shuffle(m['hdrs'])
            else:
                m['hdrs'].remove(h)
    return m


def valid_foreign(m):
    """-> spec with octet texts; PlanInvalid for what the standard does not allow"""
    m = deep(m)
    n = natural(m.pop('many', 0))
    if n and m.get('ct') is not None:
        m['parts'] = list(m.get('parts') or []) + [dict(ct=dict(v='text/plain', form='short', ps=[]), hdrs=[], data='%d' % i, pad=0, plain=False)
                                                   for i in range(n)]
    seen = []
    for h in m.get('hdrs') or []:
        if len(h) != 2:
            raise PlanInvalid('header')
        n, v = h
        if n in seen or n == 'Content-Type':
            raise PlanInvalid('header twice')
        seen.append(n)
        if n not in wsp.FIELDS:
            if not wsp.is_token(n) or n in DEFAULTS:
                raise PlanInvalid('name')
            valid_str(v)
            continue
        kind = wsp.FIELDS[n][1]
        if kind in ('enc', 'from'):
            if v is None and kind == 'from':
                continue
            if not isinstance(v, dict):
                raise PlanInvalid('enc')
            valid_str(v.get('t'))
            if v.get('cs') is not None and v['cs'] not in wsp.CHARSETS:
                raise PlanInvalid('cs')
            v['quote'] = False
        elif kind == 'text':
            valid_str(v)
        elif kind in ('date', 'long'):
            if not isinstance(v, (int, long)) or not 0 <= v < 2 ** 36:
                raise PlanInvalid('number')
        elif kind == 'version':
            if not re.match(r'^[1-7](\.([0-9]|1[0-4]))?$', v):
                raise PlanInvalid('version')
        elif kind in ('expiry', 'dtime'):
            if not isinstance(v, dict) or not isinstance(v.get('v'), (int, long)) or not 0 <= v['v'] < 2 ** 36:
                raise PlanInvalid('expiry')
            v.setdefault('abs', False)
        elif kind == 'mclass' and isinstance(v, str):
            if not wsp.is_token(v):
                raise PlanInvalid('class')
        elif kind == 'mtype':
            if not isinstance(v, (int, long)) or not 0x80 <= v <= 0xff:
                raise PlanInvalid('type')
        elif v not in wsp.TOKENS[kind] or isinstance(v, bool):
            raise PlanInvalid('token')
    if m.get('ct') is not None:
        valid_ct(m['ct'])
        if not m['ct']['v'].startswith('application/vnd.wap.multipart'):
            raise PlanInvalid('multipart')
    elif m.get('parts'):
        raise PlanInvalid('parts without type')
    for p in m.get('parts') or []:
        valid_ct(p.get('ct') or {})
        seen = []
        for h in p.get('hdrs') or []:
            if len(h) != 2 or h[0] in seen or not wsp.is_token(h[0]) or h[0] in ('Content-Type', 'Accept', 'Pragma'):
                raise PlanInvalid('part header')
            seen.append(h[0])
            valid_str(h[1])
        if not isinstance(p.get('data'), str) or not 0 <= (p.get('pad') or 0) <= 2:
            raise PlanInvalid('data')
    m.setdefault('parts', [])
    return m


def want_of(m, nh=None, np=None):
    """what an application should see of the first nh headers and np parts"""
    hdrs = m['hdrs'] if nh is None else m['hdrs'][:nh]
    h = dict([(n, wsp.value_of(n, v)) for n, v in hdrs])
    if m.get('ct') is not None and (nh is None or nh > len(m['hdrs'])):
        h['Content-Type'] = (m['ct']['v'], wsp.params_of(m['ct']))
    parts = []
    for p in m['parts'] if np is None else m['parts'][:np]:
        ct = (p['ct']['v'], wsp.params_of(p['ct']))
        ph = dict([(n, v) for n, v in p.get('hdrs') or []])
        ph['Content-Type'] = ct
        parts.append((ct[0], ct[1], ph, p['data']))
    return h, parts


# ---------------------------------------------------------------- reading the library's messages

def same(a, b):
    """equal and of the same nature; octets are never text with characters above 127"""
    if isinstance(b, str):
        if isinstance(a, unicode):
            try:
                a = a.encode('ascii')
            except UnicodeError:
                return False
        return isinstance(a, str) and a == b
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and False not in [same(x, y) for x, y in zip(a, b)]
    if isinstance(b, dict):
        return isinstance(a, dict) and sorted(a.keys()) == sorted(b.keys()) and False not in [same(a[k], b[k]) for k in b]
    return a == b


def short(v):
    r = repr(v)
    return r if len(r) < 300 else r[:200] + '...' + r[-60:]


def look(ctx, mms):
    """(headers, parts) of a message as an application sees them"""
    hd = field(ctx, mms, 'headers')
    st, parts = ctx.call(lambda: list(mms.data_parts))
    if st != 'ok':
        ctx.fail('malformed', 'data_parts: %s' % core.exc_name(parts))
    out = []
    for p in parts:
        st, d = ctx.call(lambda: p.data)
        if st != 'ok':
            ctx.fail('malformed', 'data of a part: %s %s' % (core.exc_name(d), core.str_exc(d)))
        ct = field(ctx, p, 'content_type')
        h = field(ctx, p, 'headers')
        try:
            ps = h['Content-Type'][1]
        except Exception:
            ctx.fail('malformed', 'part headers %r' % (h,))
        out.append((ct, dict(ps), dict(h), d))
    return dict(hd), out


def compare(ctx, got, want, defaults=True, whole=True):
    """got, want: (headers, parts)"""
    gh, gp = got
    wh, wp = want
    for n in wh:
        if n not in gh:
            ctx.fail('header-lost', '%s: %s is missing' % (n, short(wh[n])))
        if not same(gh[n], wh[n]):
            ctx.fail('wrong-header', '%s is %s, was %s' % (n, short(gh[n]), short(wh[n])))
    for n in gh:
        if n not in wh and not (defaults and n in DEFAULTS and same(gh[n], DEFAULTS[n])):
            ctx.fail('extra-header', '%s: %s was never there' % (n, short(gh[n])))
    if len(gp) != len(wp):
        ctx.fail('wrong-parts', '%d parts %s, were %d %s' % (len(gp), short([p[0] for p in gp]), len(wp), short([p[0] for p in wp])))
    for i, (g, w) in enumerate(zip(gp, wp)):
        for what, a, b in (('type', g[0], w[0]), ('parameters', g[1], w[1]), ('headers', g[2], w[2]), ('data', g[3], w[3])):
            if not same(a, b):
                ctx.fail('wrong-part', '%s of part %d is %s, was %s' % (what, i, short(a), short(b)))


def to_array(octets):
    a = array.array('B')
    a.fromlist(list(octets))
    return a


def octets_of(ctx, data):
    """what encode() returned, as a list of octets"""
    try:
        out = [int(x) for x in data]
    except Exception:
        ctx.fail('malformed', 'encode() gave %s' % short(data))
    if [x for x in out if not 0 <= x <= 255]:
        ctx.fail('malformed', 'encode() gave something else than octets')
    return out


# ---------------------------------------------------------------- composed messages

EXT = {'jpg': 'image/jpeg', 'jpeg': 'image/jpeg', 'gif': 'image/gif', 'png': 'image/png', 'txt': 'text/plain', 'html': 'text/html',
       'wav': 'audio/x-wav', 'mp3': 'audio/mpeg', 'xyz': 'application/octet-stream', '': 'application/octet-stream', 'tiff': 'image/tiff'}
ENCODABLE = ['To', 'Cc', 'Bcc', 'From', 'Subject', 'Response-Text', 'Message-ID', 'Message-Size', 'Status', 'Message-Type', 'Transaction-Id',
             'MMS-Version', 'X-Mms-Message-Type', 'X-Mms-Transaction-Id', 'X-Mms-Version']


def gen_file(rng):
    base = rng.choice(['image', 'a b', 'photo%d' % rng.n(100), 'x' * 30, '.hidden', 'a.b', 'IMG', 'ca(1)'])
    ext = rng.choice(sorted(EXT))
    return dict(name=base + (('.' + ext) if ext else ''), data=gen_data(rng) if rng.chance(90) else (rng.bytes(50).decode('latin-1') * 200)[:rng.choice([512, 1024, 4096, 8192]) + rng.between(-1, 1)])


def gen_header(rng, n):
    if n in ('Message-Type', 'X-Mms-Message-Type'):
        return rng.choice(sorted(wsp.TOKENS['mtype'].values()) + ['m-send-req', 'm-send-req'])
    if n in ('MMS-Version', 'X-Mms-Version'):
        return rng.choice([u'1.0', u'1.1', u'1.2', u'1.4', u'7.14', u'2.0', u'1.2.3', u'x', u'8.0', u'1.15', u'3'])
    if n == 'Message-Size':
        return rng.choice([0, 1, 127, 128, 255, 256, 65536, 2 ** 31 - 1])
    if n == 'Status':
        return rng.choice(sorted(wsp.TOKENS['status'].values()))
    if n in ('To', 'Cc', 'Bcc', 'From') and rng.chance(60):
        return gen_addr(rng)
    if n == 'From' and rng.chance(30):
        return u''
    return gen_str(rng) if rng.chance(93) else u''


def gen_composed(rng, big=False, files=True):
    hdrs = []
    for n in ENCODABLE:
        if rng.chance({'To': 75, 'Subject': 60, 'From': 50, 'Message-Type': 30, 'Transaction-Id': 60}.get(n, 12)):
            hdrs.append([n, gen_header(rng, n)])
    for _ in range(rng.weighted([(4, 0), (2, 1), (2, 3)])):
        n = u'X-' + gen_token(rng)
        if n.lower() not in [h[0].lower() for h in hdrs]:
            hdrs.append([n, gen_str(rng) if rng.chance(90) else u''])
    rng.shuffle(hdrs)
    if rng.chance(15):
        hdrs.append([rng.choice(['Transaction-Id', 'MMS-Version', 'Message-Type']), None])     # the user removes it
    return dict(hdrs=hdrs, pages=[gen_page(rng, files) for _ in range(rng.weighted([(3, 0), (3, 1), (2, 2), (1, 4)]))],
                parts=[gen_part(rng, big) for _ in range(rng.weighted([(3, 0), (3, 1), (2, 2), (1, 5)]))], many=gen_many(rng),
                ct=gen_ct(rng, False, True) if rng.chance(40) else None, order=rng.chance(50), salt=rng.n(1000))


def gen_many(rng):
    """small parts besides, so many that their number takes two octets"""
    return rng.between(110, 140) if rng.chance(2) else 0


def gen_page(rng, files=True):
    p = dict(dur=rng.choice([None, 1, 4500, 10000]))
    k = rng.n(8)
    t = lambda: [0, 0] if rng.chance(60) else [rng.choice([0, 100, 1500]), rng.choice([0, 1500, 3500, 9000])]
    if files and k & 1:
        p['image'] = dict(gen_file(rng), t=t())
    if files and k & 2:
        p['audio'] = dict(gen_file(rng), t=t())
    if k & 4 or rng.chance(30) or not files:
        p['text'] = dict(data=rng.choice([u'This is a slide', u'', u'<&">\'', u'1', gen_str(rng)]), t=t())
    return p


def gen_part(rng, big=False):
    c = gen_ct(rng, False)
    if rng.chance(10):
        return dict(file=gen_file(rng), made=rng.chance(40), before=gen_before(rng))
    hs = []
    for _ in range(rng.weighted([(4, 0), (2, 1), (1, 3)])):
        n = rng.choice(sorted(wsp.WSP_TEXT) + ['Content-ID', 'X-' + gen_token(rng)])
        if n not in [h[0] for h in hs]:
            hs.append([n, gen_str(rng)])
    return dict(ct=c, hdrs=hs, data=gen_data(rng, big), arr=rng.chance(30), bare=rng.chance(3), before=gen_before(rng))


def gen_before(rng):
    """what the part held before"""
    return [dict(k=rng.choice(['data', 'text', 'file', 'look', 'head', 'type']), v=gen_data(rng)[:6]) for _ in range(rng.weighted([(8, 0), (2, 1), (1, 3)]))]


def valid_composed(m):
    m = deep(m)
    n = natural(m.pop('many', 0))
    if n:
        m['parts'] = list(m.get('parts') or []) + [dict(ct=dict(v='text/plain', form='short', ps=[]), hdrs=[], data='%d' % i) for i in range(n)]
    seen = []
    for h in m.get('hdrs') or []:
        if len(h) != 2:
            raise PlanInvalid('header')
        n, v = h
        if v is None:
            if n not in ('Transaction-Id', 'MMS-Version', 'Message-Type'):
                raise PlanInvalid('removed header')
            continue
        valid_header(n, v)
        seen.append(n)
    for p in m.get('pages') or []:
        valid_page(p)
    for p in m.get('parts') or []:
        valid_part(p)
    if m.get('ct') is not None:
        valid_ct(m['ct'])
        if m['ct']['v'] not in (MIXED, RELATED):
            raise PlanInvalid('type')
    return m


def valid_header(n, v):
    if n not in ENCODABLE and (n in wsp.FIELDS or not wsp.is_token(n) or not n.startswith('X-')):
        raise PlanInvalid('header name')
    if n in ('Message-Type', 'X-Mms-Message-Type'):
        if v not in wsp.TOKENS['mtype'].values():
            raise PlanInvalid('message type')
    elif n == 'Message-Size':
        if not isinstance(v, (int, long)) or not 0 <= v < 2 ** 31:
            raise PlanInvalid('size')
    elif n == 'Status':
        if v not in wsp.TOKENS['status'].values():
            raise PlanInvalid('status')
    elif n in ('MMS-Version', 'X-Mms-Version'):
        valid_str(v, 'version', False)
        if v != 'x' and not re.match(r'^(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))*$', v):
            raise PlanInvalid('version')
    else:
        valid_str(v)


def valid_name(n):
    if not isinstance(n, str) or not re.match(r'^[A-Za-z0-9_. ()-]{1,60}$', n) or n in ('.', '..'):
        raise PlanInvalid('file name')


def valid_page(p):
    if p.get('dur') is not None and (not isinstance(p['dur'], int) or p['dur'] < 1):
        raise PlanInvalid('duration')
    for k in ('image', 'audio', 'text'):
        x = p.get(k)
        if x is None:
            continue
        if k != 'text':
            valid_name(x.get('name'))
        elif '\x00' in (x.get('data') or ''):
            raise PlanInvalid('NUL')
        if not isinstance(x.get('data'), str):
            raise PlanInvalid('data')
        t = x.get('t') or [0, 0]
        if len(t) != 2 or not (0 <= t[0] and 0 <= t[1]):
            raise PlanInvalid('time')


def valid_part(p):
    for b in p.get('before') or []:
        if not isinstance(b.get('v'), str) or b.get('k') not in ('data', 'text', 'file', 'look', 'head', 'type'):
            raise PlanInvalid('before')
    if p.get('file') is not None:
        valid_name(p['file'].get('name'))
        if not isinstance(p['file'].get('data'), str):
            raise PlanInvalid('data')
        return
    valid_ct(p.get('ct') or {})
    seen = []
    for h in p.get('hdrs') or []:
        if len(h) != 2 or h[0] in seen or not wsp.is_token(h[0]) or h[0] in ('Content-Type', 'Accept', 'Pragma') or \
                h[0] not in wsp.WSP_TEXT and h[0] != 'Content-ID' and not h[0].startswith('X-'):
            raise PlanInvalid('part header')
        seen.append(h[0])
        valid_str(h[1])
    if not isinstance(p.get('data'), str):
        raise PlanInvalid('data')


def type_of_name(name):
    ext = name.rsplit('.', 1)[1] if '.' in name.lstrip('.') else ''
    if ext.lower() not in EXT and ext not in ('b', 'hidden'):
        raise PlanInvalid('file name')
    return EXT.get(ext.lower(), EXT[''])


class Disk(object):
    """files the composed parts come from, one directory for each run"""

    def __init__(self, ctx):
        Disk.made += 1
        self.dir = os.path.join(core.SCRATCH, 'd%d' % (Disk.made % 100000))
        self.n = 0
        ctx.cleanup.append(self.clean)

    made = 0

    def put(self, name, data):
        """a new directory for each file, so that equal names do not meet"""
        self.n += 1
        d = os.path.join(self.dir, '%d' % self.n)
        os.makedirs(d)
        path = os.path.join(d, name)
        f = open(path, 'wb')
        f.write(data)
        f.close()
        return path

    def clean(self):
        import shutil
        shutil.rmtree(self.dir, True)


def lib_ct(c):
    """content type as the composer takes it: parameters without coding choices"""
    ps = {}
    for name, kind, v in c.get('ps') or []:
        ps[name] = v
    return c['v'], ps


def build_page(ctx, disk, p, lib=None):
    lib = lib or ctx.lib
    pg = lib.MMSMessagePage()
    if p.get('dur') is not None:
        ctx.must('compose', pg.set_duration, p['dur'])
    model = []
    for k in ('image', 'audio', 'text'):
        x = p.get(k)
        if x is None:
            continue
        t = x.get('t') or [0, 0]
        if t[1] and t[1] < t[0]:
            t = [t[1], t[0]]
        if k == 'text':
            ctx.must('compose', pg.add_text, x['data'], t[0], t[1])
            model.append(Shown(('text/plain', {}, {}, x['data'])))
        else:
            path = disk.put(x['name'], x['data'])
            ctx.must('compose', getattr(pg, 'add_' + k), path, t[0], t[1])
            model.append(Shown(file_model(x)))
        model[-1].t = tuple(t)
    return pg, model


def file_model(x):
    t = type_of_name(x['name'])
    return (t, {}, {'Content-Location': x['name']}, x['data'])


def build_part(ctx, disk, p, lib=None):
    lib = lib or ctx.lib
    dp = lib.DataPart()
    for b in [] if p.get('made') or p.get('bare') else p.get('before') or []:
        v = b['v']
        if b['k'] == 'data':
            ctx.must('compose', dp.set_data, v, 'text/x-old', {'Name': 'old'})
        elif b['k'] == 'text':
            ctx.must('compose', dp.set_text, v)
        elif b['k'] == 'file' and disk is not None:
            ctx.must('compose', dp.from_file, disk.put('old.txt', v))
        elif b['k'] == 'head':
            dp.headers['X-Old'] = v
        elif b['k'] == 'type':
            ctx.must('compose', setattr, dp, 'content_type', 'text/x-older')
        else:
            ctx.must('compose', lambda: (len(dp), dp.data, dp.content_type, str(dp.headers)))
    if p.get('file') is not None:
        path = disk.put(p['file']['name'], p['file']['data'])
        if p.get('made'):
            dp = ctx.must('compose', lib.DataPart, path)
        else:
            ctx.must('compose', dp.from_file, path)
        return dp, file_model(p['file'])
    if p.get('bare'):
        for n, x in p.get('hdrs') or []:
            dp.headers[n] = x
        return dp, ('application/octet-stream', {}, dict(p.get('hdrs') or []), '')
    v, ps = lib_ct(p['ct'])
    data = to_array(wsp.octs(p['data'])) if p.get('arr') else p['data']
    ctx.must('compose', dp.set_data, data, v, ps if ps or p.get('arr') else None)
    for n, x in p.get('hdrs') or []:
        dp.headers[n] = x
    return dp, (v, ps, dict(p.get('hdrs') or []), p['data'])


class Model(object):
    """what the composed message should be for anyone who reads it"""

    def __init__(self):
        self.hdrs = dict(DEFAULTS)
        del self.hdrs['Content-Type']
        self.ct = (MIXED, {})
        self.pages = []
        self.parts = []
        self.durs = []

    def wire_headers(self):
        h = dict(self.hdrs)
        for x, n in (('X-Mms-Message-Type', 'Message-Type'), ('X-Mms-Transaction-Id', 'Transaction-Id'), ('X-Mms-Version', 'MMS-Version')):
            if x in h:
                h[n] = h.pop(x)
        h.setdefault('MMS-Version', '1.0')
        h.setdefault('Message-Type', 'm-retrieve-conf')
        if h['Message-Type'] == 'm-send-req' and not [n for n in ('To', 'Cc', 'Bcc') if n in h]:
            h['Message-Type'] = 'm-retrieve-conf'
        if h.get('From') == '':
            h['From'] = '<not inserted>'
        v = h['MMS-Version']
        return h


def norm_version(v):
    """the major number alone is the same as written by another encoder"""
    return v


def build(ctx, disk, m, lib=None):
    """-> (MMSMessage, Model)"""
    lib = lib or ctx.lib
    mms = lib.MMSMessage()
    mod = Model()
    if m.get('order'):
        mms.headers = Shuffled(m.get('salt') or 0, mms.headers)
    for n, v in m.get('hdrs') or []:
        if v is None:
            mms.headers.pop(n, None)
            mod.hdrs.pop(n, None)
        else:
            mms.headers[n] = v
            mod.hdrs[n] = v
    for p in m.get('pages') or []:
        pg, pm = build_page(ctx, disk, p, lib)
        ctx.must('compose', mms.add_page, pg)
        mod.pages.append(pm)
        mod.durs.append(p.get('dur') or 4000)
        mod.ct = (RELATED, {})
    for p in m.get('parts') or []:
        dp, pm = build_part(ctx, disk, p, lib)
        ctx.must('compose', mms.add_data_part, dp)
        mod.parts.append(pm)
    if m.get('ct') is not None:
        v, ps = lib_ct(m['ct'])
        mms.headers['Content-Type'] = (v, ps)
        mod.ct = (v, dict(ps))
    return mms, mod


class Shuffled(dict):
    """a dictionary in an order of the simulator's choice"""

    def __init__(self, salt, *a):
        dict.__init__(self, *a)
        self._salt = salt

    def _keys(self):
        import hashlib
        return sorted(dict.keys(self), key=lambda k: hashlib.md5('%d%s' % (self._salt, k)).hexdigest())

    def __iter__(self):
        return iter(self._keys())

    def keys(self):
        return self._keys()

    iterkeys = __iter__

    def items(self):
        return [(k, self[k]) for k in self._keys()]

    def iteritems(self):
        return iter(self.items())

    def values(self):
        return [self[k] for k in self._keys()]

    def copy(self):
        return Shuffled(self._salt, dict(self.items()))


def shuffle_seam(lib, salt):
    """plain dictionaries the encoder makes of the headers come in another order, too"""
    import sys
    lib._activate()
    mod = sys.modules['messaging.mms.mms_pdu']

    class D(Shuffled):
        def __init__(self, *a, **k):
            Shuffled.__init__(self, salt, *a, **k)
    mod.__dict__['dict'] = D


def check_smil(ctx, mod, part):
    """the presentation names the parts of each slide"""
    t, ps, hs, d = part
    if t != 'application/smil':
        ctx.fail('no-layout', 'first part is %r' % (t,))
    pars = d.split('<par')[1:]
    if len(pars) != len(mod.pages):
        ctx.fail('wrong-layout', '%d slides in the layout, message has %d' % (len(pars), len(mod.pages)))
    for par, pm, dur in zip(pars, mod.pages, mod.durs):
        if 'duration="%d"' % dur not in par:
            ctx.fail('wrong-layout', 'duration %d is not in %s' % (dur, short(par)))
        imgs = [x for x in pm if 'Content-Location' in x[2]]
        for x in imgs:
            if 'src="%s"' % x[2]['Content-Location'] not in par:
                ctx.fail('wrong-layout', '%r is not in %s' % (x[2]['Content-Location'], short(par)))
        texts = [x for x in pm if 'Content-Location' not in x[2]]
        if len(texts) != par.count('<text') or len(imgs) != par.count('<img') + par.count('<audio'):
            ctx.fail('wrong-layout', 'slide of %d texts and %d files shown as %s' % (len(texts), len(imgs), short(par)))
        shown = [(tag, dict([(n, unescape(v)) for n, v in ATTR.findall(el)])) for tag, el in MEDIA.findall(par)]
        for x in pm:
            name = x[2].get('Content-Location')
            want = x[3] if name is None else name
            mine = [a for tag, a in shown if (tag == 'text') == (name is None) and blanks(a.get('src') or '') == blanks(want)]
            if not mine:
                ctx.fail('wrong-layout', 'slide with %s %s shown as %s' % ('text' if name is None else 'file', short(want), short(par)))
            begin, end = getattr(x, 't', (0, 0))
            if not [a for a in mine if a.get('begin', '0') == str(begin) and (not end or a.get('end') == str(min(end, dur)))]:
                ctx.fail('wrong-layout', '%s from %d to %d of %d is shown as %s' % (short(want), begin, end, dur, short(par)))
        for tag, a in shown:
            if tag != 'audio' and not re.search(r'<region [^>]*id="%s"' % re.escape(a.get('region') or '?'), d):
                ctx.fail('wrong-layout', '%s in a region %r that is not there' % (tag, a.get('region')))


MEDIA = re.compile(r'<(img|audio|text)\b([^>]*)>')
ATTR = re.compile(r'(\w+)="([^"]*)"')


def unescape(v):
    return re.sub(r'&#(x?[0-9A-Fa-f]+);', lambda m: chr(int(m.group(1)[1:], 16) if m.group(1)[:1] == 'x' else int(m.group(1))), v).replace(
        '&lt;', '<').replace('&gt;', '>').replace('&quot;', '"').replace('&amp;', '&')


def blanks(v):
    return re.sub(r'[\t\r\n ]+', ' ', v)


class Shown(tuple):
    """the model of a part on a slide, with the times it is shown"""
    t = (0, 0)


def check_wire(ctx, octets, mod, tid=True):
    """an independent decoder reads the message; -> its result"""
    try:
        r = wsp.parse(octets)
    except Bad, e:
        ctx.fail('unreadable', 'an independent decoder refuses the message: %s' % e)
    want = mod.wire_headers()
    got = dict(r['hdrs'])
    if len(got) != len(r['hdrs']):
        ctx.fail('extra-header', 'a header twice: %r' % ([n for n, _ in r['hdrs']],))
    if 'Transaction-Id' not in want:
        if not got.get('Transaction-Id'):
            ctx.fail('header-lost', 'no transaction id')
        want['Transaction-Id'] = got['Transaction-Id']
    compare(ctx, (got, []), (want, []), False)
    if r['ct'] is None or not same(r['ct'], mod.ct):
        ctx.fail('wrong-header', 'Content-Type %s, was %s' % (short(r['ct']), short(mod.ct)))
    gp = [(t, ps, dict(hs, **{'Content-Type': (t, ps)}), d) for t, ps, hs, d in r['parts']]
    for (t, ps, hs, d) in r['parts']:
        if len(dict(hs)) != len(hs):
            ctx.fail('extra-header', 'a part header twice')
    wp = want_parts(mod)
    gp = strip_smil(ctx, mod, gp, wp)
    compare(ctx, ({}, gp), ({}, wp), False)
    return r


def want_parts(mod):
    out = []
    for pm in mod.pages + [mod.parts]:
        for t, ps, hs, d in pm:
            out.append((t, ps, dict(hs, **{'Content-Type': (t, ps)}), d))
    return out


def strip_smil(ctx, mod, gp, wp):
    """the layout part comes first; a message without slides may go without"""
    if mod.pages or len(gp) == len(wp) + 1:
        if not gp:
            ctx.fail('no-layout', 'no parts')
        check_smil(ctx, mod, (gp[0][0], gp[0][1], gp[0][2], gp[0][3]))
        return gp[1:]
    return gp


def check_lib(ctx, mms, mod, tid=None):
    """the library reads the message back"""
    gh, gp = look(ctx, mms)
    want = mod.wire_headers()
    if 'Transaction-Id' not in want and gh.get('Transaction-Id'):
        want['Transaction-Id'] = tid if tid is not None else gh['Transaction-Id']
    want['Content-Type'] = mod.ct
    wp = want_parts(mod)
    gp = strip_smil(ctx, mod, gp, wp)
    compare(ctx, (gh, gp), (want, wp), False)


def cut_at(r, k):
    """what of a message (as parse() gives it) arrives in its first k octets: (headers, parts, whole)"""
    fields = list(r['hdrs']) + ([('Content-Type', r['ct'])] if r['ct'] is not None else [])
    h = {}
    for (n, v), e in zip(fields, r['hends']):
        if e <= k:
            h[n] = v
    parts = [(t, ps, dict(hs, **{'Content-Type': (t, ps)}), d)
             for (t, ps, hs, d), e in zip(r['parts'], r['pends'][1:]) if e <= k]
    return h, parts


def check_cut(ctx, mms, r, k):
    """the message holds what arrived in the first k octets, and nothing else"""
    compare(ctx, look(ctx, mms), cut_at(r, k))
    ctx.stat('prefixes_checked')
