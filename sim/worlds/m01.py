# -*- coding: utf-8 -*-
# M01: messages composed, encoded, carried, decoded and forwarded by one process after another
from mmsgen import *


def gen(rng, tier):
    hops = []
    for _ in range(rng.weighted([(4, 1), (3, 2), (2, 3), (1, 5)])):
        e = []
        for _i in range(rng.weighted([(4, 0), (3, 1), (1, 3)])):
            k = rng.n(4)
            if k < 2:
                n = rng.choice(ENCODABLE[:12])
                e.append(dict(op='hdr', n=n, v=gen_header(rng, n)))
            elif k == 2:
                e.append(dict(op='part', p=gen_part(rng)))
            else:
                e.append(dict(op='del', n=rng.choice(['Subject', 'To', 'From', 'Cc', 'Status'])))
        hops.append(dict(edits=e, restart=rng.chance(40), salt=rng.n(1000), file=rng.chance(30)))
    m = gen_composed(rng, tier != 'quick' or rng.chance(10))
    odd = []
    for _ in range(rng.weighted([(4, 0), (2, 1), (1, 3)])):
        odd.append([rng.choice(['To', 'Cc', 'Subject', 'Response-Text', 'Message-ID', 'Transaction-Id', 'From', 'X-Odd', 'part', 'part', 'Name', 'x-odd']), gen_odd(rng)])
    if rng.chance(15):
        odd.append([rng.choice(['Message-Size', 'x-odd', 'Padding']), rng.choice([-1, 1, -1]) * rng.choice([0, 1, 2, 127, 128, 129, 255, 256, 65535, 65536, 2147483647, rng.loguniform(2 ** 29)])])
    return dict(msg=m, odd=odd, hops=hops, zone=rng.choice(ZONES),
                before=[twin_composed(rng, m) if rng.chance(70) else gen_composed(rng) for _ in range(rng.weighted([(3, 0), (2, 1), (1, 2)]))])


def gen_odd(rng):
    s = ''.join([chr(rng.choice([0, 1, 9, 10, 13, 30, 31, 32, 34, 65, 97, 127, 128, 129, 255, rng.n(256)])) for _ in range(rng.choice([1, 2, 3, 5, 31]))])
    return s.decode('latin-1')


def odd(ctx, disk, m, n, v):
    """a text that not every encoding has room for is refused or arrives"""
    mms, mod = build(ctx, disk, m)
    if n in ('part', 'Name', 'x-odd', 'type', 'Padding'):
        p = ctx.lib.DataPart()
        ctx.must('compose', p.set_data, 'x', 'text/plain' if n != 'type' else v, {n: v} if n in ('Name', 'x-odd', 'Padding') else {})
        if n == 'part':
            p.headers['Content-Location'] = v
        ctx.must('compose', mms.add_data_part, p)
    else:
        mms.headers.pop('X-Mms-Transaction-Id', None)
        mms.headers[n] = v
    st, e = ctx.call(mms.encode)
    ctx.log('odd', n, st)
    if st == 'exc':
        if not isinstance(e, Exception):
            ctx.fail('bad-error', 'encoding ended with %s' % core.exc_name(e))
        ctx.fault('odd_text_refused')
        return
    ctx.stat('odd_texts_sent')
    got = ctx.must('odd-text', ctx.lib.MMSMessage.from_data, to_array(octets_of(ctx, e)))
    def seen():
        if n in got.headers:
            return got.headers[n]
        h = got.data_parts[-1].headers
        if n == 'part':
            return h['Content-Location']
        t, ps = h['Content-Type']
        return t if n == 'type' else ps[n]
    g = ctx.must('odd-text', seen)
    if g != v:
        ctx.fail('odd-text', '%s of %s was sent without an error and read as %s' % (n, short(v), short(g)) if isinstance(v, str) else
                 '%s of %r was sent without an error and read as %r' % (n, v, g))


def run(plan, ctx):
    set_zone(plan.get('zone') or 'UTC')
    disk = Disk(ctx)
    ctx.lib.load('MMSMessage', 'MMSEncoder')
    for m in plan.get('before') or []:
        # messages of the same process, sent and read before
        mms, mod = build(ctx, disk, valid_composed(m))
        octets = octets_of(ctx, ctx.must('encode-failed', mms.encode))
        r = check_wire(ctx, octets, mod)
        check_lib(ctx, ctx.must('decode-failed', ctx.lib.MMSMessage.from_data, to_array(octets)), mod, dict(r['hdrs']).get('Transaction-Id'))
        ctx.stat('before')
    m = valid_composed(plan.get('msg') or {})
    mms, mod = build(ctx, disk, m)
    ctx.token('p%d d%d h%d' % (len(mod.pages), len(mod.parts), len(mod.hdrs)))
    for i, hop in enumerate(plan.get('hops') or [{}]):
        shuffle_seam(ctx.lib, hop.get('salt') or 0)
        if hop.get('file'):
            path = disk.put('m.mms', '')
            ctx.must('encode-failed', mms.to_file, path)
            f = open(path, 'rb')
            octets = wsp.octs(f.read())
            f.close()
        else:
            octets = octets_of(ctx, ctx.must('encode-failed', mms.encode))
        r = check_wire(ctx, octets, mod)
        tid = dict(r['hdrs']).get('Transaction-Id')
        ctx.stat('octets', len(octets))
        ctx.log('hop', i, len(octets), len(r['parts']))
        if hop.get('restart'):
            ctx.restart()
            ctx.lib.load('MMSMessage', 'MMSEncoder')
        if hop.get('file'):
            mms = ctx.must('decode-failed', ctx.lib.MMSMessage.from_file, path)
        else:
            mms = ctx.must('decode-failed', ctx.lib.MMSMessage.from_data, to_array(octets))
        check_lib(ctx, mms, mod, tid)
        ctx.stat('hops')
        if len(r['parts']) > 1:
            ctx.stat('nontrivial')
        # what the next sender has is what was received, layout part and all
        nxt = Model()
        nxt.hdrs = mod.wire_headers()
        nxt.hdrs['Transaction-Id'] = tid
        nxt.hdrs['MMS-Version'] = dict(r['hdrs'])['MMS-Version']
        nxt.ct = mod.ct
        nxt.parts = [(t, ps, dict(hs), d) for t, ps, hs, d in r['parts']]
        mod = nxt
        for e in deep(hop.get('edits') or []):
            if e.get('op') == 'hdr':
                valid_header(e.get('n'), e.get('v'))
                mms.headers[e['n']] = e['v']
                mod.hdrs[e['n']] = e['v']
            elif e.get('op') == 'del':
                mms.headers.pop(e.get('n'), None)
                mod.hdrs.pop(e.get('n'), None)
            elif e.get('op') == 'part':
                valid_part(e.get('p') or {})
                dp, pm = build_part(ctx, disk, e['p'])
                ctx.must('compose', mms.add_data_part, dp)
                mod.parts.append(pm)
            ctx.token(e.get('op'))
    for n, v in deep(plan.get('odd') or []):
        if n not in ('To', 'Cc', 'Subject', 'Response-Text', 'Message-ID', 'Transaction-Id', 'From', 'X-Odd', 'part', 'Name', 'x-odd', 'type',
                     'Message-Size', 'Padding'):
            raise PlanInvalid('odd')
        if isinstance(v, int) and n in ('Message-Size', 'x-odd', 'Padding') and not isinstance(v, bool):
            odd(ctx, disk, m, n, v)
        elif v and n not in ('Message-Size', 'Padding'):
            odd(ctx, disk, m, n, S(v))
