# -*- coding: utf-8 -*-
# M09: a process that goes on for a long time with few files open
from mmsgen import *
import errno
import disk as simdisk
import m04

WAYS = ['open', 'read', 'readat', 'write', 'flush', 'close', 'stat']


def gen_fault(rng, n):
    f = dict(on=rng.choice(['open', 'read', 'read', 'readat', 'readat', 'write', 'write', 'flush', 'close', 'stat']),
             skip=rng.weighted([(5, 0), (2, 1), (1, rng.n(4))]))
    if f['on'] in ('readat', 'write'):
        f['at'] = rng.n(rng.choice([20, 300, 3000]))
    if f['on'] in ('open', 'read', 'stat') and rng.chance(30):
        f['change'] = m04.gen_change(rng, n)
    else:
        f['err'] = rng.choice(['EIO', 'EIO', 'ENOSPC', 'EMFILE', 'interrupt', 'interrupt', 'EINTR'])
    f['always'] = rng.chance(15)
    return f


def gen(rng, tier):
    n = rng.between(1, 4)
    files = [dict(name=gen_file(rng)['name'], n=rng.choice([0, 1, 9, 100, 127, 128, 300, 9000])) for _ in range(n)]
    ops = []
    for _ in range(rng.between(3, 20)):
        k = rng.weighted([(3, 'add'), (3, 'change'), (4, 'encode'), (4, 'look'), (5, 'save'), (5, 'load'), (3, 'cut'), (2, 'bad'), (1, 'foreign')])
        o = dict(op=k, f=rng.n(n), i=rng.n(6), m=rng.n(2))
        if k == 'add':
            o['how'] = rng.choice(['image', 'audio', 'part', 'part', 'missing'])
        elif k == 'change':
            o['c'] = m04.gen_change(rng, n)
        elif k == 'look':
            o['len'] = rng.chance(40)
        elif k == 'cut':
            o.update(at=rng.n(400), flip=rng.chance(40))
        elif k == 'bad':
            o['why'] = rng.choice(['nul', 'date', 'noct', 'obj'])
        elif k == 'foreign':
            o['d'] = rng.bytes(rng.n(60)).decode('latin-1')
        if k not in ('change', 'cut') and rng.chance(50):
            o['faults'] = [gen_fault(rng, n) for _ in range(rng.weighted([(5, 1), (2, 2)]))]
        ops.append(o)
    return dict(files=files, ops=ops, limit=rng.between(2, 6), windows=rng.chance(15))


def faults_of(w, fs):
    out = []
    for f in fs or []:
        at = f.get('at') or 0
        if f.get('on') not in WAYS or not isinstance(at, (int, long)) or not isinstance(f.get('skip') or 0, (int, long)):
            raise PlanInvalid('fault')
        g = dict(on=f['on'], skip=f.get('skip') or 0, at=at, always=bool(f.get('always')))
        if f.get('change') is not None:
            def do(c=f['change']):
                w.change(c)
            g['change'] = do
            g['always'] = False
        elif f.get('err') == 'interrupt' or f.get('err') in simdisk.ERRNO:
            g['err'] = f['err']
        else:
            raise PlanInvalid('fault')
        out.append(g)
    return out


def run(plan, ctx):
    w = m04.World(ctx, plan)
    lib = ctx.lib.load('MMSMessage', 'MMSMessagePage', 'DataPart', 'MMSEncoder', 'MMSDecoder')
    sim = simdisk.SimDisk(ctx, bool(plan.get('windows')))
    limit = plan.get('limit')
    if not isinstance(limit, (int, long)) or not 2 <= limit <= 100:
        raise PlanInvalid('limit')
    sim.limit = limit
    top = os.path.dirname(w.files[0].path)
    msgs = []
    for i in range(2):
        mms = lib.MMSMessage()
        mms.headers['To'] = '+3460%d/TYPE=PLMN' % i
        msgs.append(mms)
    parts = []

    def call(what, fn, *a, **k):
        sim.arm(faults_of(w, k.get('faults')))
        st, v = ctx.call(fn, *a)
        fired = sim.fired
        sim.arm([])
        left = sim.left()
        ctx.log(what, st, core.exc_name(v) if st == 'exc' else '', str(fired), str(left))
        if left:
            how = 'succeeded' if st == 'ok' else 'ended with %s' % core.exc_name(v)
            ctx.fail('left-open', '%s %s%s and left %s open' % (
                what, how, ' after %s failed with %s' % tuple(fired[-1]) if fired else '', ', '.join(left)))
        if st == 'exc':
            ctx.stat('calls_that_failed')
            if fired:
                ctx.stat('nontrivial')
        if st == 'exc' and isinstance(v, IOError) and v.errno == errno.EMFILE and not fired:
            ctx.fail('out-of-files', '%s ran out of files' % what)
        ctx.stat('calls_checked')
        return st, v

    for op in plan.get('ops') or []:
        k = op.get('op')
        ctx.token('%s %s' % (k, [(f.get('on'), f.get('err')) for f in op.get('faults') or []]))
        fs = op.get('faults')
        mms = msgs[(op.get('m') or 0) % 2]
        x = w.files[(op.get('f') or 0) % len(w.files)]
        path = os.path.join(top, 'mms%d' % ((op.get('i') or 0) % 2))
        if k == 'add':
            how = op.get('how')
            p = x.path if how != 'missing' else os.path.join(top, 'nothing.jpg')
            if how in ('image', 'audio'):
                pg = lib.MMSMessagePage()
                st, v = call('adding', getattr(pg, 'add_' + how), p, faults=fs)
                if st == 'ok':
                    mms.add_page(pg)
                    parts.append(getattr(pg, how)[0])
            else:
                part = lib.DataPart()
                st, v = call('adding', part.from_file, p, faults=fs)
                if st == 'ok':
                    mms.add_data_part(part)
                    parts.append(part)
        elif k == 'change':
            w.change(op.get('c') or {})
        elif k == 'look':
            if parts:
                part = parts[(op.get('i') or 0) % len(parts)]
                if op.get('len'):
                    call('the length of a part', len, part, faults=fs)
                else:
                    call('the data of a part', lambda: part.data, faults=fs)
        elif k == 'encode':
            call('encoding', mms.encode, faults=fs)
        elif k == 'save':
            call('saving', mms.to_file, path, faults=fs)
        elif k == 'load':
            call('loading', lib.MMSMessage.from_file, path, faults=fs)
        elif k == 'cut':
            if os.path.exists(path):
                f = simdisk._open(path, 'rb')
                d = f.read()
                f.close()
                at = op.get('at') or 0
                if d:
                    at %= len(d)
                d = d[:at] + (chr(ord(d[at]) ^ 0x55) + d[at + 1:] if d and op.get('flip') else '')
                f = simdisk._open(path, 'wb')
                f.write(d)
                f.close()
                ctx.fault('file_damaged' if op.get('flip') else 'file_cut_short')
        elif k == 'foreign':
            d = op.get('d') or ''
            if not isinstance(d, basestring) or [c for c in d if ord(c) > 255]:
                raise PlanInvalid('data')
            f = simdisk._open(path, 'wb')
            f.write(''.join([chr(ord(c)) for c in d]))
            f.close()
            ctx.fault('file_of_noise')
            call('loading', lib.MMSMessage.from_file, path, faults=fs)
        elif k == 'bad':
            h = mms.headers
            old = dict(h)
            why = op.get('why')
            if why == 'nul':
                h['Subject'] = 'a\x00b'
            elif why == 'date':
                h['Date'] = 'x'
            elif why == 'noct':
                h.pop('Content-Type', None)
            else:
                h['Response-Text'] = object()
            st, v = call('saving', mms.to_file, path, faults=fs)
            for n in list(h.keys()):
                del h[n]
            h.update(old)
            if st == 'exc':
                ctx.fault('unencodable_message')
        else:
            raise PlanInvalid('op')
    # faults are over: whatever happened, a message can be saved and loaded
    for f in w.files:
        if f.now is None:
            w.write(f, w.fresh(f, 10), True)
    path = os.path.join(top, 'last')
    for mms in msgs:
        st, v = call('saving', mms.to_file, path)
        if st != 'ok':
            ctx.fail('save-failed', 'after the failures were over: %s %s' % (core.exc_name(v), core.str_exc(v)))
        st, v = call('loading', lib.MMSMessage.from_file, path)
        if st != 'ok':
            ctx.fail('load-failed', 'after the failures were over: %s %s' % (core.exc_name(v), core.str_exc(v)))
