# -*- coding: utf-8 -*-
# M02: one message encoded, saved, shown and edited many times, with failures and interruptions
from mmsgen import *

LOOKS = ['encode', 'encode', 'encode', 'save', 'smil', 'parts', 'len']


def gen(rng, tier):
    ops = []
    for _ in range(rng.between(2, 12)):
        k = rng.weighted([(8, 'look'), (3, 'cut'), (3, 'broken'), (4, 'edit'), (1, 'restart')])
        o = dict(op=k, m=rng.n(2))
        if k in ('look', 'cut', 'broken'):
            o['what'] = rng.choice(LOOKS)
        if k == 'cut':
            o['at'] = rng.between(1, rng.choice([30, 200, 700]))
            o['how'] = rng.n(3)
        if k == 'broken':
            o['why'] = rng.choice(['nul', 'noct', 'partct', 'nofile', 'date', 'nodir', 'badtype', 'control'])
            o['i'] = rng.n(6)
            o['times'] = rng.between(1, 2)
        if k == 'edit':
            e = rng.n(7)
            if e < 2:
                n = rng.choice(ENCODABLE[:12])
                o.update(e='hdr', n=n, v=gen_header(rng, n))
            elif e == 2:
                o.update(e='del', n=rng.choice(['Subject', 'To', 'From', 'Transaction-Id', 'MMS-Version', 'Message-Type']))
            elif e == 3:
                o.update(e='part', p=gen_part(rng))
            elif e == 4:
                o.update(e='page', p=gen_page(rng))
            elif e == 5:
                o.update(e='dur', i=rng.n(3), v=rng.choice([1, 900, 5000]))
            else:
                o.update(e='text', i=rng.n(3), v=gen_str(rng))
        o['salt'] = rng.n(1000)
        ops.append(o)
    m = gen_composed(rng)
    return dict(msg=m, msg2=twin_composed(rng, m) if rng.chance(50) else gen_composed(rng), share=rng.chance(40), decoded=rng.chance(25), peek=rng.chance(30), ops=ops)


def canon(v):
    if isinstance(v, dict):
        return '{' + ','.join(sorted([canon(k) + ':' + canon(x) for k, x in v.items()])) + '}'
    if isinstance(v, (list, tuple)):
        return '(' + ','.join([canon(x) for x in v]) + ')'
    if isinstance(v, array.array):
        return 'A' + repr(v.tostring())
    if isinstance(v, unicode):
        return repr(v)[1:] if v == v.encode('ascii', 'replace') else repr(v)
    return repr(v)


def part_state(p, data):
    s = [id(p), canon(p.headers), p.content_type, canon(p.content_type_parameters)]
    if data:
        s.append(canon(p.data))
    return s


def snapshot(ctx, mms, data):
    """what the user sees of the message"""
    def f():
        s = [canon(dict(mms.headers)), mms.content_type, (mms.width, mms.height, mms.transactionID, mms.subject)]
        for pg in mms.pages:
            s.append((id(pg), pg.duration, pg.number_of_parts()))
            for k in ('image', 'audio', 'text'):
                t = getattr(pg, k)
                s.append(None if t is None else part_state(t[0], data) + [t[1:]])
        ps = mms.data_parts
        if mms.pages:
            s.append((canon(ps[0].headers), ps[0].data))
            ps = ps[1:]
        s.append([part_state(p, data) for p in ps])
        return s
    return ctx.must('malformed', f)


def differs(a, b):
    for x, y in zip(a, b):
        if x != y:
            return '%s became %s' % (short(x), short(y))
    return '%d items became %d' % (len(a), len(b))


def without_tid(octets, tid):
    w = [0x98] + wsp.octs(tid) + [0]
    for i in range(len(octets) - len(w) + 1):
        if octets[i:i + len(w)] == w:
            return octets[:i] + octets[i + len(w):]
    return octets


class Msg(object):
    pass


def run(plan, ctx):
    disk = Disk(ctx)
    lib = ctx.lib.load('MMSMessage', 'MMSEncoder', 'MMSDecoder')
    msgs = []
    for m in [valid_composed(plan.get('msg') or {}), valid_composed(plan.get('msg2') or {})]:
        x = Msg()
        x.mms, x.mod = build(ctx, disk, m)
        x.last = None
        if plan.get('decoded'):
            octets = octets_of(ctx, ctx.must('encode-failed', x.mms.encode))
            r = check_wire(ctx, octets, x.mod)
            x.mms = ctx.must('decode-failed', lib.MMSMessage.from_data, to_array(octets))
            n = Model()
            n.hdrs = dict(x.mod.wire_headers(), **dict([(k, v) for k, v in r['hdrs'] if k in ('Transaction-Id', 'MMS-Version')]))
            n.ct = x.mod.ct
            n.parts = [(t, ps, dict(hs), d) for t, ps, hs, d in r['parts']]
            x.mod = n
        msgs.append(x)
    if plan.get('share') and not plan.get('decoded'):       # the same slides and parts in two messages
        a, b = msgs
        for pg, pm, du in zip(list(a.mms.pages), a.mod.pages, a.mod.durs):
            ctx.must('compose', b.mms.add_page, pg)
            b.mod.pages.append(pm)
            b.mod.durs.append(du)
            if b.mod.ct[0] != RELATED:
                b.mod.ct = (RELATED, {})
        own = list(a.mms.data_parts)
        own = own[len(own) - len(a.mod.parts):]
        for p, pm in zip(own, a.mod.parts):
            ctx.must('compose', b.mms.add_data_part, p)
            b.mod.parts.append(pm)
    peek = bool(plan.get('peek'))
    for x in msgs:
        x.snap = snapshot(ctx, x.mms, peek)

    def do(x, what):
        if what == 'encode':
            return octets_of(ctx, x.mms.encode())
        if what == 'save':
            p = disk.put('m.mms', 'old')
            x.mms.to_file(p)
            f = open(p, 'rb')
            d = f.read()
            f.close()
            return wsp.octs(d)
        if what == 'smil':
            return x.mms.smil()
        if what == 'len':
            return [len(p) for p in x.mms.data_parts]
        return [(p.content_type, p.data) for p in x.mms.data_parts]

    def good(x, what):
        v = ctx.must('encode-failed' if what in ('encode', 'save') else 'show-failed', do, x, what)
        if what in ('encode', 'save'):
            r = check_wire(ctx, v, x.mod)
            if 'Transaction-Id' not in x.mod.wire_headers():
                v = without_tid(v, dict(r['hdrs'])['Transaction-Id'])
            if x.last is not None and x.last != v:
                ctx.fail('not-repeatable', 'the same message encodes to other octets: %d, then %d' % (len(x.last), len(v)))
            x.last = v
            ctx.stat('encodings')
        elif what in ('parts', 'len'):
            w = [(len(d), t, d) for t, ps, hs, d in want_parts(x.mod)]
            v = v[len(v) - len(w):] if w else []
            if v != [(q[0] if what == 'len' else (q[1], q[2])) for q in w]:
                ctx.fail('wrong-parts', '%s of parts: %s' % (what, short(v)))
        for y in msgs:
            unchanged(y, what)

    def unchanged(x, what):
        s = snapshot(ctx, x.mms, peek)
        if s != x.snap:
            ctx.fail('message-changed', 'by %s: %s' % (what, differs(x.snap, s)))

    for op in deep(plan.get('ops') or []):
        x = msgs[(op.get('m') or 0) % 2]
        k, what = op.get('op'), op.get('what')
        ctx.token('%s %s %s' % (k, what, op.get('why') or op.get('e')))
        ctx.log(k, what or '', op.get('why') or op.get('e') or '')
        if k in ('look', 'cut', 'broken') and what not in LOOKS:
            raise PlanInvalid('what')
        if k == 'look':
            good(x, what)
        elif k == 'cut':
            exc = [core.Interrupt('cut'), KeyboardInterrupt('cut'), SystemExit('cut')][(op.get('how') or 0) % 3]
            st, v = ctx.call(do, x, what, _cancel=(op.get('at') or 1, exc))
            if core.tracer.cancelled:
                ctx.fault('interrupted_call')
                if st == 'ok':
                    ctx.fail('interrupt-lost', 'an interrupted %s returned normally' % what)
            for y in msgs:
                unchanged(y, 'interrupted ' + what)
            good(x, what)
        elif k == 'broken':
            broken(ctx, disk, x, op, do, unchanged)
            if not isinstance(x.mms.headers, Shuffled):
                x.last = None       # headers were taken out and put back: their order may be another
            for y in msgs:
                unchanged(y, 'failed ' + what)
            good(x, what)
        elif k == 'edit':
            edit(ctx, disk, x, op)
            # shared slides changed in both
            for y in msgs:
                if y is x or op.get('e') in ('dur', 'text'):
                    y.last = None
            if op.get('e') in ('dur', 'text') and plan.get('share') and not plan.get('decoded'):
                sync(msgs, x)
            for y in msgs:
                y.snap = snapshot(ctx, y.mms, peek)
        ctx.stat('nontrivial')
    for x in msgs:
        good(x, 'encode')
        good(x, 'save')


def sync(msgs, x):
    for y in msgs:
        if y is not x:
            for i, pg in enumerate(y.mms.pages):
                for j, pg2 in enumerate(x.mms.pages):
                    if pg is pg2:
                        y.mod.pages[i] = x.mod.pages[j]
                        y.mod.durs[i] = x.mod.durs[j]


def edit(ctx, disk, x, op):
    e = op.get('e')
    if e == 'hdr':
        valid_header(op.get('n'), op.get('v'))
        x.mms.headers[op['n']] = op['v']
        x.mod.hdrs[op['n']] = op['v']
    elif e == 'del':
        x.mms.headers.pop(op.get('n'), None)
        x.mod.hdrs.pop(op.get('n'), None)
    elif e == 'part':
        valid_part(op.get('p') or {})
        dp, pm = build_part(ctx, disk, op['p'])
        ctx.must('compose', x.mms.add_data_part, dp)
        x.mod.parts.append(pm)
    elif e == 'page':
        valid_page(op.get('p') or {})
        pg, pm = build_page(ctx, disk, op['p'])
        ctx.must('compose', x.mms.add_page, pg)
        x.mod.pages.append(pm)
        x.mod.durs.append(op['p'].get('dur') or 4000)
        if x.mod.ct[0] != RELATED:
            x.mod.ct = (RELATED, {})
    elif e in ('dur', 'text') and x.mod.pages:
        i = (op.get('i') or 0) % len(x.mod.pages)
        pg = x.mms.pages[i]
        if e == 'dur':
            if not isinstance(op.get('v'), int) or op['v'] < 1:
                raise PlanInvalid('duration')
            ctx.must('compose', pg.set_duration, op['v'])
            x.mod.durs[i] = op['v']
        else:
            v = op.get('v')
            if not isinstance(v, str) or '\x00' in v:
                raise PlanInvalid('text')
            ctx.must('compose', pg.add_text, v)
            x.mod.pages[i] = [q for q in x.mod.pages[i] if 'Content-Location' in q[2]] + [('text/plain', {}, {}, v)]


def broken(ctx, disk, x, op, do, unchanged):
    """something keeps the call from succeeding; then the cause goes away"""
    why, what = op.get('why'), op.get('what')
    h = x.mms.headers
    old = dict(h)
    part = None
    parts = [p for pg in x.mms.pages for p in [t[0] for t in (pg.image, pg.audio, pg.text) if t is not None]]
    own = list(x.mms.data_parts)
    parts += own[len(own) - len(x.mod.parts):] if x.mod.parts else []
    if why == 'nul':
        h['Subject'] = 'a\x00b'
    elif why == 'control':
        h['To'] = '\x01b'
    elif why == 'date':
        h['Date'] = 1000
    elif why == 'noct':
        del h['Content-Type']
    elif why == 'badtype':
        h['Response-Text'] = object
    elif why == 'partct' and parts:
        part = parts[(op.get('i') or 0) % len(parts)]
        keep = part.headers
        part.headers = dict(keep, **{'Content-Type': None})
    elif why == 'nofile':
        os.rename(disk.dir, disk.dir + '.away') if os.path.isdir(disk.dir) else None
    elif why != 'nodir':
        return
    try:
        for _ in range(min(op.get('times') or 1, 3)):
            if why == 'nodir':
                st, v = ctx.call(x.mms.to_file, os.path.join(core.SCRATCH, 'no', 'such', 'directory'))
                ctx.check(st == 'exc', 'error-lost', 'saving in a missing directory returned normally')
            else:
                st, v = ctx.call(do, x, what if why != 'nofile' or what != 'save' else 'encode')
            ctx.stat('failed_calls' if st == 'exc' else 'calls_despite_breakage')
            if st == 'exc':
                ctx.fault('failing_' + why)
    finally:
        if part is not None:
            part.headers = keep
        if why == 'nofile' and os.path.isdir(disk.dir + '.away'):
            os.rename(disk.dir + '.away', disk.dir)
        for n in list(h.keys()):
            if n not in old:
                del h[n]
        for n in old:
            if n not in h or h[n] is not old[n]:
                h[n] = old[n]
