# -*- coding: utf-8 -*-
# Independent model of the short message service of 3GPP TS 23.040 / 23.038, as
# seen by a service centre and a radio network.  Shares nothing with the library.

BASIC = (u'@£$¥èéùìòÇ\nØø\rÅå'
         u'Δ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ'
         u' !"#¤%&\'()*+,-./'
         u'0123456789:;<=>?'
         u'¡ABCDEFGHIJKLMNO'
         u'PQRSTUVWXYZÄÖÑÜ§'
         u'¿abcdefghijklmno'
         u'pqrstuvwxyzäöñüà')
assert len(BASIC) == 128
EXT = {0x0a: u'\x0c', 0x14: u'^', 0x28: u'{', 0x29: u'}', 0x2f: u'\\', 0x3c: u'[',
       0x3d: u'~', 0x3e: u']', 0x40: u'|', 0x65: u'€'}
ENC = dict([(c, [i]) for i, c in enumerate(BASIC) if i != 0x1b])
for _k, _c in EXT.items():
    ENC[_c] = [0x1b, _k]
GSM_CHARS = sorted(ENC)


class Reject(Exception):
    """The service centre refuses the PDU."""


def gsm_septets(text):
    out = []
    for c in text:
        out.extend(ENC[c])
    return out


def is_gsm(text):
    for c in text:
        if c not in ENC:
            return False
    return True


def septets_text(seps):
    out = []
    i = 0
    while i < len(seps):
        if seps[i] == 0x1b:
            i += 1
            if i >= len(seps):
                raise Reject('escape at the end of a part')
            if seps[i] not in EXT:
                raise Reject('undefined escape sequence')
            out.append(EXT[seps[i]])
        else:
            out.append(BASIC[seps[i]])
        i += 1
    return u''.join(out)


def pack7(septets, fill=0):
    """septets packed into octets, after `fill` bits"""
    val = 0
    nbits = fill
    out = []
    acc = 0
    for s in septets:
        acc |= s << nbits
        nbits += 7
        while nbits >= 8:
            out.append(acc & 0xff)
            acc >>= 8
            nbits -= 8
    if nbits:
        out.append(acc & 0xff)
    return out


def unpack7(octets, count, fill=0):
    out = []
    pos = fill
    for _ in range(count):
        byte, off = divmod(pos, 8)
        if byte >= len(octets):
            raise Reject('user data shorter than its length says')
        v = octets[byte] >> off
        if off > 1:
            if byte + 1 >= len(octets):
                raise Reject('user data shorter than its length says')
            v |= octets[byte + 1] << (8 - off)
        out.append(v & 0x7f)
        pos += 7
    return out


def hexs(octets):
    return ''.join(['%02X' % o for o in octets])


def octets(hexstr):
    if len(hexstr) % 2:
        raise Reject('odd number of digits')
    try:
        return [int(hexstr[i:i + 2], 16) for i in range(0, len(hexstr), 2)]
    except ValueError:
        raise Reject('not hexadecimal')


def bcd_digits(octs, ndigits):
    d = ''
    for o in octs:
        for nib in (o & 0x0f, o >> 4):
            d += '0123456789*#abcF'[nib]
    if len(d) == ndigits + 1:
        if d[-1] != 'F':
            raise Reject('filler digit missing')
        d = d[:-1]
    if len(d) != ndigits or 'F' in d:
        raise Reject('bad number of digits')
    return d


def digits_bcd(d):
    if len(d) % 2:
        d += 'F'
    v = '0123456789*#abcF'
    return [v.index(d[i]) | (v.index(d[i + 1]) << 4) for i in range(0, len(d), 2)]


def parse_elements(header):
    """User data header -> list of (iei, [octets])"""
    i = 0
    els = []
    while i < len(header):
        if i + 2 > len(header):
            raise Reject('truncated header element')
        iei, ln = header[i], header[i + 1]
        if i + 2 + ln > len(header):
            raise Reject('header element longer than header')
        els.append((iei, header[i + 2:i + 2 + ln]))
        i += 2 + ln
    return els


def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil(t):
    """seconds since 1970 (UTC) -> (y, m, d, H, M, S)"""
    days, rem = divmod(t, 86400)
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return (y + (m <= 2), m, d, rem // 3600, rem % 3600 // 60, rem % 60)


def seconds(y, m, d, H=0, M=0, S=0):
    return days_from_civil(y, m, d) * 86400 + H * 3600 + M * 60 + S


def timestamp(t, quarters):
    """TP-SCTS octets of instant t (UTC seconds) as local time `quarters` quarter hours east"""
    y, m, d, H, M, S = civil(t + quarters * 900)
    out = []
    for v in (y % 100, m, d, H, M, S):
        out.append((v // 10) | (v % 10) << 4)
    q = abs(quarters)
    out.append((q // 10) | (q % 10) << 4 | (0x08 if quarters < 0 else 0))
    return out


def parse_timestamp(o):
    v = []
    for x in o[:6]:
        a, b = x & 0x0f, x >> 4
        if a > 9 or b > 9:
            raise Reject('time stamp digit')
        v.append(a * 10 + b)
    y, m, d, H, M, S = v
    y += 2000 if y < 90 else 1900
    if not (1 <= m <= 12 and 1 <= d <= 31 and H < 24 and M < 60 and S < 60):
        raise Reject('time stamp field')
    z = o[6]
    q = (z & 0x07) * 10 + (z >> 4)
    if (z >> 4) > 9:
        raise Reject('time zone digit')
    if z & 0x08:
        q = -q
    return seconds(y, m, d, H, M, S) - q * 900


def parse_submit(hexpdu, length):
    """What a phone and then a service centre make of an SMS-SUBMIT; Reject if they refuse it."""
    o = octets(hexpdu)
    if not o:
        raise Reject('empty')
    r = {}
    sl = o[0]
    if sl == 0:
        r['smsc'] = None
    else:
        if len(o) < 1 + sl or sl < 2:
            raise Reject('centre address truncated')
        addr = o[2:1 + sl]
        nd = len(addr) * 2 - (1 if addr[-1] >> 4 == 0x0f else 0)
        r['smsc'] = ('+' if (o[1] >> 4) & 7 == 1 else '') + bcd_digits(addr, nd)
        if o[1] not in (0x91, 0x81):
            raise Reject('centre number type')
    t = o[1 + sl:]
    if len(t) != length:
        raise Reject('length given to the phone is %r, TPDU has %d octets' % (length, len(t)))
    if len(t) < 8:
        raise Reject('too short')
    fo = t[0]
    if fo & 3 != 1:
        raise Reject('not an SMS-SUBMIT')
    if fo & 0x84:
        raise Reject('reply path or reject duplicates asked for')
    r['srr'] = bool(fo & 0x20)
    r['udhi'] = bool(fo & 0x40)
    r['mr'] = t[1]
    nd = t[2]
    if not 1 <= nd <= 20:
        raise Reject('destination length')
    ton = t[3]
    if ton not in (0x91, 0x81):
        raise Reject('destination number type')
    nb = (nd + 1) // 2
    r['da'] = ('+' if ton == 0x91 else '') + bcd_digits(t[4:4 + nb], nd)
    i = 4 + nb
    if len(t) < i + 3:
        raise Reject('truncated')
    r['pid'], r['dcs'] = t[i], t[i + 1]
    i += 2
    vpf = (fo >> 3) & 3
    if vpf == 0:
        r['vp'] = None
    elif vpf == 2:
        r['vp'] = ('rel', t[i])
        i += 1
    elif vpf == 3:
        r['vp'] = ('abs', parse_timestamp(t[i:i + 7]))
        i += 7
    else:
        raise Reject('validity format')
    if i >= len(t):
        raise Reject('truncated before user data')
    udl = t[i]
    ud = t[i + 1:]
    if len(ud) > 140:
        raise Reject('user data of %d octets' % len(ud))
    dcs = r['dcs']
    if dcs & 0xc0:
        raise Reject('data coding group')
    if dcs & 0x20:
        raise Reject('compressed')
    coding = (dcs >> 2) & 3
    if coding == 3:
        raise Reject('reserved alphabet')
    r['class'] = (dcs & 3) if dcs & 0x10 else None
    r['coding'] = {0: '7bit', 1: '8bit', 2: 'ucs2'}[coding]
    r['udl'], r['ud'] = udl, ud
    r['els'] = []
    hl = 0
    if r['udhi']:
        if not ud or ud[0] + 1 > len(ud):
            raise Reject('header longer than user data')
        hl = ud[0] + 1
        r['els'] = parse_elements(ud[1:hl])
    if coding == 0:
        if udl > 160:
            raise Reject('more than 160 septets')
        if len(ud) != (udl * 7 + 7) // 8:
            raise Reject('user data has %d octets for %d septets' % (len(ud), udl))
        fill = (-hl * 8) % 7
        nh = (hl * 8 + fill) // 7
        if udl < nh:
            raise Reject('length does not cover the header')
        r['septets'] = unpack7(ud, udl, 0)[nh:]
        r['text'] = septets_text(r['septets'])
    else:
        if len(ud) != udl:
            raise Reject('user data has %d octets, length says %d' % (len(ud), udl))
        body = ud[hl:]
        if coding == 1:
            r['text'] = ''.join(map(chr, body))
        else:
            if len(body) % 2:
                raise Reject('half a character')
            r['text'] = u''.join([unichr(body[k] << 8 | body[k + 1]) for k in range(0, len(body), 2)])
    r['concat'] = None
    for iei, d in r['els']:
        if iei == 0 and len(d) == 3:
            r['concat'] = (d[0], d[1], d[2], 8)
        elif iei == 8 and len(d) == 4:
            r['concat'] = (d[0] << 8 | d[1], d[2], d[3], 16)
    c = r['concat']
    if c and not 1 <= c[2] <= c[1]:
        raise Reject('part %d of %d' % (c[2], c[1]))
    return r


def number_type(number, kind):
    """type-of-address octet: kind chooses among what networks write for one and the same number"""
    ton = 1 if number.startswith('+') else (0, 2, 3, 4, 6)[kind % 5]
    return 0x80 | ton << 4 | (1, 0, 3, 4, 8, 9, 10, 5)[kind // 5 % 8]


def address(number, kind=0):
    """TP-OA octets of a number or alphanumeric name ('@name')"""
    if number.startswith('@'):
        seps = gsm_septets(number[1:])
        body = pack7(seps)
        return [(len(seps) * 7 + 3) // 4, 0xd0] + body
    d = number.lstrip('+')
    return [len(d), number_type(number, kind)] + digits_bcd(d)


def centre(number, kind=0):
    if number is None:
        return [0]
    b = digits_bcd(number.lstrip('+'))
    return [1 + len(b), number_type(number, kind)] + b


def deliver(oa, smsc, dcs, t, quarters, udl, ud, udhi=False, pid=0, more=True, sri=False, reply=False, kinds=(0, 0), lp=0):
    """SMS-DELIVER as a phone hands it to the application, in hex"""
    fo = 0x00 | (0 if more else 0x04) | (0x20 if sri else 0) | (0x40 if udhi else 0) | (0x80 if reply else 0) | (0, 0x08, 0x10, 0x18)[lp % 4]
    return hexs(centre(smsc, kinds[0]) + [fo] + address(oa, kinds[1]) + [pid, dcs] + timestamp(t, quarters) + [udl] + ud)


def user_data(coding, text, els=()):
    """-> (udl, ud octets, udhi) for a text and header elements [(iei, [octets])]"""
    header = []
    for iei, d in els:
        header += [iei, len(d)] + list(d)
    if header:
        header = [len(header)] + header
    hl = len(header)
    if coding == '7bit':
        seps = gsm_septets(text)
        fill = (-hl * 8) % 7
        nh = (hl * 8 + fill) // 7
        return nh + len(seps), header + pack7(seps, fill) if not header else _merge(header, seps, fill), bool(header)
    if coding == '8bit':
        body = [ord(c) for c in text]
    else:
        body = []
        for c in text:
            body += [ord(c) >> 8, ord(c) & 0xff]
    return hl + len(body), header + body, bool(header)


def _merge(header, seps, fill):
    if fill == 0:
        return header + pack7(seps)
    # the fill bits are at the low end of the octet after the header
    return header + pack7(seps, fill)


VOID_TIMES = [[0] * 7, [0xff] * 7, [0] * 6 + [0x80], [0x11, 0x31, 0x10, 0, 0, 0, 0], [0x11, 0x20, 0x03, 0, 0, 0, 0],
              [0x11, 0x10, 0x10, 0x42, 0, 0, 0], [0x11, 0x10, 0x10, 0, 0x06, 0, 0], [0xf1] * 7]


def report(mr, ra, smsc, scts, q1, dt, q2, status, sri=True, more=True, cut=None, tail=0, kinds=(0, 0), lp=0):
    fo = 0x02 | (0x20 if sri else 0) | (0 if more else 0x04) | (0, 0x08, 0x90, 0x80)[lp % 4]
    o = centre(smsc, kinds[0]) + [fo, mr] + address(ra, kinds[1])
    for t, q in ((scts, q1), (dt, q2)):
        # a network that does not know a time fills the field with something that is none
        o += VOID_TIMES[q % len(VOID_TIMES)] if t is None else timestamp(t, q)
    if status is not None:
        o.append(status)
        o += REPORT_TAILS[tail % len(REPORT_TAILS)]
    return hexs(o)


# the optional fields: indicator, protocol, coding, user data
REPORT_TAILS = [[], [0x00], [0x01, 0x00], [0x01, 0x41], [0x03, 0x00, 0x04], [0x02, 0x08], [0x07, 0x00, 0x04, 0x03, 0x30, 0x31, 0x00], [0x07, 0x00, 0x08, 0x00]]


def relative_seconds(vp):
    if vp <= 143:
        return (vp + 1) * 300
    if vp <= 167:
        return 12 * 3600 + (vp - 143) * 1800
    if vp <= 196:
        return (vp - 166) * 86400
    return (vp - 192) * 7 * 86400
