# -*- coding: utf-8 -*-
# Independent model of the MMS encapsulation (WAP-209 / OMA MMS ENC) and the parts
# of WSP (WAP-230) it uses.  Shares nothing with the library.  Works on lists of
# octets and on text whose characters are octets.
import datetime


class Bad(Exception):
    """An independent decoder refuses the data."""


CT = ('*/*|text/*|text/html|text/plain|text/x-hdml|text/x-ttml|text/x-vCalendar|text/x-vCard|text/vnd.wap.wml|'
      'text/vnd.wap.wmlscript|text/vnd.wap.wta-event|multipart/*|multipart/mixed|multipart/form-data|multipart/byteranges|'
      'multipart/alternative|application/*|application/java-vm|application/x-www-form-urlencoded|application/x-hdmlc|'
      'application/vnd.wap.wmlc|application/vnd.wap.wmlscriptc|application/vnd.wap.wta-eventc|application/vnd.wap.uaprof|'
      'application/vnd.wap.wtls-ca-certificate|application/vnd.wap.wtls-user-certificate|application/x-x509-ca-cert|'
      'application/x-x509-user-cert|image/*|image/gif|image/jpeg|image/tiff|image/png|image/vnd.wap.wbmp|'
      'application/vnd.wap.multipart.*|application/vnd.wap.multipart.mixed|application/vnd.wap.multipart.form-data|'
      'application/vnd.wap.multipart.byteranges|application/vnd.wap.multipart.alternative|application/xml|text/xml|'
      'application/vnd.wap.wbxml|application/x-x968-cross-cert|application/x-x968-ca-cert|application/x-x968-user-cert|'
      'text/vnd.wap.si|application/vnd.wap.sic|text/vnd.wap.sl|application/vnd.wap.slc|text/vnd.wap.co|'
      'application/vnd.wap.coc|application/vnd.wap.multipart.related|application/vnd.wap.sia|'
      'text/vnd.wap.connectivity-xml|application/vnd.wap.connectivity-wbxml|application/pkcs7-mime|'
      'application/vnd.wap.hashed-certificate|application/vnd.wap.signed-certificate|application/vnd.wap.cert-response|'
      'application/xhtml+xml|application/wml+xml|text/css|application/vnd.wap.mms-message').split('|')
assert len(CT) == 0x3f and CT[0x33].endswith('related') and CT[0x1e] == 'image/jpeg'
CT_NUM = dict([(c, i) for i, c in enumerate(CT)])

# name -> (number, kind)
FIELDS = {
    'Bcc': (0x01, 'enc'), 'Cc': (0x02, 'enc'), 'Content-Location': (0x03, 'text'), 'Content-Type': (0x04, 'ct'),
    'Date': (0x05, 'date'), 'Delivery-Report': (0x06, 'bool'), 'Delivery-Time': (0x07, 'dtime'), 'Expiry': (0x08, 'expiry'),
    'From': (0x09, 'from'), 'Message-Class': (0x0a, 'mclass'), 'Message-ID': (0x0b, 'text'), 'Message-Type': (0x0c, 'mtype'),
    'MMS-Version': (0x0d, 'version'), 'Message-Size': (0x0e, 'long'), 'Priority': (0x0f, 'prio'), 'Read-Reply': (0x10, 'bool'),
    'Report-Allowed': (0x11, 'bool'), 'Response-Status': (0x12, 'rstat'), 'Response-Text': (0x13, 'enc'),
    'Sender-Visibility': (0x14, 'vis'), 'Status': (0x15, 'status'), 'Subject': (0x16, 'enc'), 'To': (0x17, 'enc'),
    'Transaction-Id': (0x18, 'text')}
BYNUM = dict([(v[0], (k, v[1])) for k, v in FIELDS.items()])
TOKENS = {
    'mtype': {0x80: 'm-send-req', 0x81: 'm-send-conf', 0x82: 'm-notification-ind', 0x83: 'm-notifyresp-ind', 0x84: 'm-retrieve-conf',
              0x85: 'm-acknowledge-ind', 0x86: 'm-delivery-ind'},
    'status': {0x80: 'Expired', 0x81: 'Retrieved', 0x82: 'Rejected', 0x83: 'Deferred', 0x84: 'Unrecognised'},
    'prio': {0x80: 'Low', 0x81: 'Normal', 0x82: 'High'},
    'mclass': {0x80: 'Personal', 0x81: 'Advertisement', 0x82: 'Informational', 0x83: 'Auto'},
    'vis': {0x80: 'Hide', 0x81: 'Show'},
    'bool': {0x80: True, 0x81: False},
    'rstat': {0x80: 'Ok', 0x81: 'Error-unspecified', 0x82: 'Error-service-denied', 0x83: 'Error-message-format-corrupt',
              0x84: 'Error-sending-address-unresolved', 0x85: 'Error-message-not-found', 0x86: 'Error-network-problem',
              0x87: 'Error-content-not-accepted', 0x88: 'Error-unsupported-message'},
}
CHARSETS = {0x6a: 'utf-8', 0x03: 'us-ascii', 0x04: 'iso-8859-1'}
# part headers a decoder of encoding version 1.2 knows, with plain text values
WSP_TEXT = {'Content-Location': 0x0e, 'Content-Base': 0x0a, 'Etag': 0x13, 'User-Agent': 0x29, 'Content-Encoding': 0x0b, 'Via': 0x2b,
            'Server': 0x26, 'Location': 0x1c}
# well-known parameters of encoding version 1.2: name -> (number, kind)
PARAMS = {'Charset': (0x01, 'charset'), 'Level': (0x02, 'version'), 'Name': (0x05, 'text'), 'Filename': (0x06, 'text'),
          'Padding': (0x08, 'short'), 'Type': (0x09, 'constrained'), 'Start': (0x0a, 'text'), 'Start-info': (0x0b, 'text')}
SEPARATORS = '()<>@,;:\\"/[]?={} \t'


def octs(s):
    return [ord(c) for c in s]


def chars(o):
    return ''.join([chr(x) for x in o])


def is_token(s):
    if not s:
        return False
    for c in s:
        if not 33 <= ord(c) <= 126 or c in SEPARATORS:
            return False
    return True


# ---------------------------------------------------------------- writing

def uintvar(n, pad=0):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, 0x80 | n & 0x7f)
        n >>= 7
    return [0x80] * pad + out


def value_length(n, quote=False):
    if n <= 30 and not quote:
        return [n]
    return [31] + uintvar(n)


def long_int(n, pad=0):
    out = []
    while n:
        out.insert(0, n & 0xff)
        n >>= 8
    out = [0] * pad + (out or [0])
    return [len(out)] + out


def integer(n, long_=False):
    if n < 128 and not long_:
        return [0x80 | n]
    return long_int(n)


def text(s, quote=False):
    o = octs(s)
    if quote or (o and o[0] >= 128):
        o = [127] + o
    return o + [0]


def version(v):
    p = v.split('.')
    return [0x80 | int(p[0]) << 4 | (int(p[1]) if len(p) > 1 else 15)]


def param(p):
    """[name, kind, value]; kind: typed | int | long | token | quoted"""
    name, kind, v = p
    if kind == 'typed':
        num, t = PARAMS[name]
        o = [0x80 | num]
        if t == 'text':
            return o + text(v)
        if t == 'version':
            return o + version(v)
        if t == 'short':
            return o + [0x80 | v]
        if t == 'charset':
            return o + integer(v)
        if t == 'constrained':
            return o + ([0x80 | v] if isinstance(v, (int, long)) else text(v))
        raise ValueError(t)
    o = octs(name) + [0]
    if kind == 'int':
        return o + integer(v)
    if kind == 'long':
        return o + integer(v, True)
    if kind == 'token':
        return o + octs(v) + [0]
    if kind == 'quoted':
        return o + [34] + octs(v) + [0]
    raise ValueError(kind)


def content_type(c):
    """{'v': type, 'form': short | text | general | gtext, 'ps': [param], 'q': length-quote}"""
    v, form, ps = c['v'], c['form'], c.get('ps') or []
    if form == 'short':
        return [0x80 | CT_NUM[v]]
    if form == 'text':
        return octs(v) + [0]
    m = [0x80 | CT_NUM[v]] if form == 'general' and v in CT_NUM else octs(v) + [0]
    for p in ps:
        m += param(p)
    return value_length(len(m), c.get('q')) + m


def params_of(c):
    out = {}
    for name, kind, v in (c.get('ps') or []) if c['form'] in ('general', 'gtext') else []:
        if kind == 'typed' and PARAMS[name][1] == 'charset':
            v = CHARSETS[v]
        out[name] = v
    return out


def enc_string(v):
    """{'t': text, 'cs': charset or None, 'q': length-quote, 'quote': Quote octet}"""
    t = text(v['t'], v.get('quote'))
    if v.get('cs') is None:
        return t
    cs = integer(v['cs'], v.get('cslong'))
    return value_length(len(cs) + len(t), v.get('q')) + cs + t


def field(name, v):
    """octets of one MMS header field"""
    if name not in FIELDS:
        return octs(name) + [0] + text(v)
    num, kind = FIELDS[name]
    o = [0x80 | num]
    if kind == 'enc':
        return o + enc_string(v)
    if kind == 'text':
        return o + text(v)
    if kind == 'date':
        return o + long_int(v)
    if kind == 'long':
        return o + long_int(v)
    if kind == 'version':
        return o + version(v)
    if kind == 'from':
        if v is None:
            return o + [1, 129]
        b = [128] + enc_string(v)
        return o + value_length(len(b), v.get('ql')) + b
    if kind in ('expiry', 'dtime'):
        b = [128] + long_int(v['v'], v.get('pad') or 0) if v['abs'] else [129] + integer(v['v'], v.get('long'))
        return o + value_length(len(b), v.get('q')) + b
    if kind == 'mclass' and isinstance(v, basestring):
        return o + octs(v) + [0]
    if kind in TOKENS:
        return o + [v]
    raise ValueError(kind)


def value_of(name, v):
    """what an application should see for the field"""
    if name not in FIELDS:
        return v
    kind = FIELDS[name][1]
    if kind == 'enc':
        return v['t']
    if kind == 'date':
        return utc(v)
    if kind == 'from':
        return '<not inserted>' if v is None else v['t']
    if kind == 'expiry':
        return utc(v['v']) if v['abs'] else v['v']
    if kind == 'dtime':
        return ('absolute' if v['abs'] else 'relative', v['v'])
    if kind == 'mtype':
        return TOKENS['mtype'].get(v, '<unknown>')
    if kind in TOKENS and not isinstance(v, basestring):
        return TOKENS[kind][v]
    return v


def utc(t):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)


def part(p):
    """{'ct': content type, 'hdrs': [[name, value, quote]], 'data': octets as text}"""
    h = content_type(p['ct'])
    for name, v in p.get('hdrs') or []:
        if name in WSP_TEXT and not (p.get('plain')):
            h += [0x80 | WSP_TEXT[name]] + text(v)
        else:
            h += octs(name) + [0] + text(v)
    d = octs(p['data'])
    return uintvar(len(h), p.get('pad') or 0) + uintvar(len(d)) + h + d


def message(m):
    """{'hdrs': [[name, value]], 'ct': content type or None, 'parts': [part]} -> octets, ends of headers, ends of parts"""
    o = []
    hends, pends = [], []
    for name, v in m['hdrs']:
        o += field(name, v)
        hends.append(len(o))
    if m.get('ct') is None:
        return o, hends, pends
    o += [0x80 | 4] + content_type(m['ct'])
    hends.append(len(o))
    o += uintvar(len(m['parts']))
    pends.append(len(o))
    for p in m['parts']:
        o += part(p)
        pends.append(len(o))
    return o, hends, pends


# ---------------------------------------------------------------- reading

class Reader(object):
    def __init__(self, o, name='message'):
        self.o, self.i, self.name = o, 0, name

    def left(self):
        return len(self.o) - self.i

    def peek(self):
        if self.i >= len(self.o):
            raise Bad('%s ends at %d' % (self.name, self.i))
        return self.o[self.i]

    def get(self):
        b = self.peek()
        self.i += 1
        return b

    def take(self, n, name='field'):
        if n > self.left():
            raise Bad('%s of %d octets at %d, only %d left in the %s' % (name, n, self.i, self.left(), self.name))
        r = Reader(self.o[self.i:self.i + n], name)
        self.i += n
        return r

    def uintvar(self):
        v = 0
        for _ in range(5):
            b = self.get()
            v = v << 7 | b & 0x7f
            if not b & 0x80:
                return v
        raise Bad('uintvar of more than five octets')

    def value_length(self):
        b = self.get()
        if b <= 30:
            return b
        if b == 31:
            return self.uintvar()
        raise Bad('value length %d' % b)

    def raw_text(self):
        out = []
        while True:
            b = self.get()
            if b == 0:
                return chars(out)
            out.append(b)

    def text(self):
        """Text-string"""
        b = self.peek()
        if b == 127:
            self.get()
            if self.peek() < 128:
                raise Bad('Quote before a character that needs none')
        elif b >= 128:
            raise Bad('Text-string beginning with octet %d without Quote' % b)
        elif 0 < b < 32:
            raise Bad('Text-string beginning with control character %d' % b)
        return self.raw_text()

    def token(self):
        s = self.raw_text()
        if not is_token(s):
            raise Bad('token %r' % s)
        return s

    def long_int(self):
        n = self.get()
        if n > 30:
            raise Bad('long integer of %d octets' % n)
        v = 0
        for _ in range(n):
            v = v << 8 | self.get()
        return v

    def integer(self):
        if self.peek() & 0x80:
            return self.get() & 0x7f
        return self.long_int()

    def version(self):
        if self.peek() & 0x80:
            b = self.get() & 0x7f
            if b & 15 == 15:
                return '%d' % (b >> 4)
            return '%d.%d' % (b >> 4, b & 15)
        return self.text()

    def enc_string(self):
        if self.peek() <= 31 and self.peek() != 0:
            r = self.take(self.value_length(), 'encoded string')
            r.integer()
            t = r.text()
            if r.left():
                raise Bad('octets after an encoded string')
            return t
        return self.text()

    def media(self):
        b = self.peek()
        if b & 0x80:
            n = self.get() & 0x7f
            if n >= len(CT):
                raise Bad('unassigned content type %d' % n)
            return CT[n]
        if b < 32 or b == 127:
            raise Bad('media type beginning with octet %d' % b)
        return self.raw_text()

    def content_type(self):
        b = self.peek()
        if b > 31:
            return self.media(), {}
        r = self.take(self.value_length(), 'content type')
        m = r.media() if r.peek() > 31 else None
        if m is None:
            n = r.long_int()
            if n >= len(CT):
                raise Bad('unassigned content type %d' % n)
            m = CT[n]
        ps = {}
        while r.left():
            b = r.peek()
            if b & 0x80:
                num = r.get() & 0x7f
                for name in PARAMS:
                    if PARAMS[name][0] == num:
                        break
                else:
                    raise Bad('parameter %d' % num)
                t = PARAMS[name][1]
                if t == 'text':
                    v = r.text()
                elif t == 'version':
                    v = r.version()
                elif t == 'short':
                    v = r.get() & 0x7f
                elif t == 'charset':
                    v = r.integer()
                else:
                    v = r.get() & 0x7f if r.peek() & 0x80 else r.raw_text()
            else:
                name = r.token()
                b = r.peek()
                if b & 0x80 or 0 < b < 31:
                    v = r.integer()
                elif b == 34:
                    r.get()
                    v = r.raw_text()
                elif b == 0:
                    r.get()
                    v = ''          # No-value
                else:
                    v = r.token()
            if name in ps:
                raise Bad('parameter %s twice' % name)
            ps[name] = v
        return m, ps

    def app_header(self):
        return self.token(), self.text()

    def field(self):
        b = self.peek()
        if not b & 0x80:
            return self.app_header()
        num = self.get() & 0x7f
        if num not in BYNUM:
            raise Bad('header field %d' % num)
        name, kind = BYNUM[num]
        if kind == 'enc':
            return name, self.enc_string()
        if kind == 'text':
            return name, self.text()
        if kind == 'ct':
            return name, self.content_type()
        if kind == 'date':
            return name, utc(self.long_int())
        if kind == 'long':
            return name, self.long_int()
        if kind == 'version':
            return name, self.version()
        if kind == 'from':
            r = self.take(self.value_length(), 'From')
            t = r.get()
            if t == 129:
                v = '<not inserted>'
            elif t == 128:
                v = r.enc_string()
            else:
                raise Bad('From token %d' % t)
            if r.left():
                raise Bad('octets after From')
            return name, v
        if kind in ('expiry', 'dtime'):
            r = self.take(self.value_length(), name)
            t = r.get()
            if t == 128:
                v = r.long_int()
                v = utc(v) if kind == 'expiry' else ('absolute', v)
            elif t == 129:
                v = r.integer()
                v = v if kind == 'expiry' else ('relative', v)
            else:
                raise Bad('%s token %d' % (name, t))
            if r.left():
                raise Bad('octets after %s' % name)
            return name, v
        b = self.peek()
        if kind == 'mclass' and b < 128:
            return name, self.token()
        self.get()
        if b not in TOKENS[kind]:
            raise Bad('%s value %d' % (name, b))
        return name, TOKENS[kind][b]


def parse(o):
    """strictly -> {'hdrs': [(name, value)], 'ct': (type, params) or None, 'parts': [(type, params, [(name, value)], data)]}"""
    r = Reader(list(o))
    hdrs, ct, hends, pends = [], None, [], []
    while r.left():
        name, v = r.field()
        hends.append(r.i)
        if name == 'Content-Type':
            ct = v
            break
        hdrs.append((name, v))
    names = [n for n, _ in hdrs]
    for n in names:
        if names.count(n) > 1 and n not in ('To', 'Cc', 'Bcc'):
            raise Bad('header %s twice' % n)
    if names[:3] != ['Message-Type', 'Transaction-Id', 'MMS-Version']:
        raise Bad('does not begin with type, transaction and version: %r' % names[:3])
    if ct is None:
        return dict(hdrs=hdrs, ct=None, parts=[], hends=hends, pends=pends)
    parts = []
    if r.left():
        n = r.uintvar()
        pends.append(r.i)
        for k in range(n):
            hl, dl = r.uintvar(), r.uintvar()
            h = r.take(hl, 'header of part %d' % k)
            t, ps = h.content_type()
            hs = []
            while h.left():
                if h.peek() & 0x80:
                    num = h.get() & 0x7f
                    for name in WSP_TEXT:
                        if WSP_TEXT[name] == num:
                            break
                    else:
                        raise Bad('part header %d' % num)
                    hs.append((name, h.text()))
                else:
                    hs.append(h.app_header())
            d = r.take(dl, 'data of part %d' % k)
            parts.append((t, ps, hs, chars(d.o)))
            pends.append(r.i)
        if r.left():
            raise Bad('%d octets after the last part' % r.left())
    return dict(hdrs=hdrs, ct=ct, parts=parts, hends=hends, pends=pends)
