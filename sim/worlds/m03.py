# -*- coding: utf-8 -*-
# M03: messages saved to and loaded from a disk that fails
from mmsgen import *
import disk as simdisk

NAMES = ['a.mms', 'b.mms']


def gen_save_fault(rng, size):
    k = rng.n(10)
    if k < 4:
        return dict(on='write', at=rng.n(size), err=rng.choice(['ENOSPC', 'EIO', 'EDQUOT']))
    if k < 5:
        return dict(on='open', err=rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EISDIR']))
    if k < 6:
        return dict(on='flush', err=rng.choice(['EIO', 'ENOSPC']))
    if k < 8:
        return dict(on='close', err=rng.choice(['EIO', 'EDQUOT', 'ENOSPC']), kept=rng.chance(30))
    return dict(on='write', at=rng.n(size), err='crash')


def gen_load_fault(rng, size):
    k = rng.n(6)
    if k < 3:
        return dict(on='readat', at=rng.n(size), err='EIO')
    if k == 3:
        return dict(on='open', err=rng.choice(['EACCES', 'EMFILE', 'ENOENT']))
    if k == 4:
        return dict(on='stat', err=rng.choice(['EACCES', 'EIO', 'ENOENT']))
    return dict(on='read', err='EIO')


def gen(rng, tier):
    big = rng.chance(40)
    msgs = []
    for _ in range(rng.between(1, 3)):
        m = gen_composed(rng, False, False)
        m['order'] = False
        if big:
            m['parts'].append(dict(ct=dict(v=u'image/jpeg', form='short', ps=[]), hdrs=[], data=(rng.bytes(40).decode('latin-1') * 600)[:rng.choice([8000, 9000, 17000])]))
        m['fit'] = rng.choice([256, 512, 1024, 2048, 4096, 8192] + ([16384, 32768] if big else [])) + rng.weighted([(3, 1), (1, 0), (1, -1)]) if rng.chance(30) else 0
        msgs.append(m)
    size = rng.choice([20, 200, 600, 9000, 20000] if big else [20, 200, 600])
    ops = []
    for _ in range(rng.between(2, 10)):
        k = rng.weighted([(6, 'save'), (5, 'load'), (4, 'cut'), (2, 'bad')])
        o = dict(op=k, m=rng.n(3), f=rng.n(2))
        if k == 'save' and rng.chance(55):
            o['fault'] = gen_save_fault(rng, size)
        if k == 'load' and rng.chance(40):
            o['fault'] = gen_load_fault(rng, size)
        if k == 'load':
            o['restart'] = rng.chance(20)
        if k == 'cut':
            o['at'] = rng.n(size * 2) if rng.chance(50) else -1 - rng.n(40)
            o['near'] = rng.chance(40)
        if k == 'bad':
            o['why'] = rng.choice(['nul', 'date', 'noct', 'obj'])
        ops.append(o)
    return dict(msgs=msgs, ops=ops)


def fit(ctx, mms, mod, size):
    """a last part makes the message just as long as a buffer, or an octet more or less"""
    if not isinstance(size or 0, int) or not 0 <= (size or 0) <= 40000:
        raise PlanInvalid('fit')
    n = 0
    part = None
    for _ in range(4):
        left = (size or 0) - len(octets_of(ctx, ctx.must('encode-failed', mms.encode))) if size else 0
        n += left
        if left == 0 or n < 0:
            break
        if part is None:
            part = ctx.lib.load('DataPart').DataPart()
            ctx.must('compose', mms.add_data_part, part)
        ctx.must('compose', part.set_data, 'x' * n, 'image/gif')
    if part is not None:
        mod.parts.append(('image/gif', {}, {}, part.data))
        ctx.stat('fitted')


def make(ctx, d, m):
    mms, mod = build(ctx, d, m)
    fit(ctx, mms, mod, m.get('fit'))
    return mms, mod


def whole(ctx, data, mod):
    """does the file hold the message? -> parse result"""
    return check_wire(ctx, wsp.octs(data), mod)


def content(path):
    if not os.path.exists(path):
        return None
    f = simdisk._open(path, 'rb')
    d = f.read()
    f.close()
    return d


def run(plan, ctx):
    ctx.lib.load('MMSMessage', 'MMSEncoder', 'MMSDecoder')
    d = Disk(ctx)
    msgs = []
    for m in plan.get('msgs') or []:
        m = valid_composed(m)
        m['hdrs'] = [h for h in m['hdrs'] if h[0] != 'Transaction-Id'] + [['Transaction-Id', 'T%d' % len(msgs)]]
        m['hdrs'] = [h for h in m['hdrs'] if h[0] != 'X-Mms-Transaction-Id']
        m['pages'] = [dict(p, image=None, audio=None) for p in m.get('pages') or []]
        m['parts'] = [p for p in m.get('parts') or [] if not p.get('file')]
        mms, mod = make(ctx, d, m)
        octets = octets_of(ctx, ctx.must('encode-failed', mms.encode))
        msgs.append((mms, mod, check_wire(ctx, octets, mod), wsp.chars(octets), m))
    if not msgs:
        raise PlanInvalid('messages')
    sim = simdisk.SimDisk(ctx)
    top = os.path.dirname(d.put('x', ''))
    files = {}          # path -> index of the message that was saved last, successfully or not
    for op in plan.get('ops') or []:
        path = os.path.join(top, NAMES[(op.get('f') or 0) % 2])
        i = (op.get('m') or 0) % len(msgs)
        mms, mod, r, enc, m = msgs[i]
        k = op.get('op')
        f = valid_fault(op.get('fault'))
        ctx.token('%s %s' % (k, f and (f['on'], f['err'])))
        if k == 'save':
            sim.opened = 0
            sim.arm([f] if f else [])
            st, v = ctx.call(mms.to_file, path)
            ctx.log('save', os.path.basename(path), i, st, str(sim.fired))
            fired = sim.fired
            sim.arm([])
            if fired and fired[0][1] == 'crash':
                sim.kill()
                ctx.restart()
                lib = ctx.lib.load('MMSMessage', 'MMSEncoder', 'MMSDecoder')
                now = content(path)
                for j in range(len(msgs)):
                    mms2, mod2 = make(ctx, d, msgs[j][4])
                    msgs[j] = (mms2, mod2) + msgs[j][2:]
                files[path] = load(ctx, sim, path, [i, files.get(path)], msgs)
                continue
            if st == 'ok':
                now = content(path)
                if now is None:
                    ctx.fail('not-saved', 'saving reported success, there is no file')
                try:
                    check_wire(ctx, wsp.octs(now), mod)
                except core.Violation, e:
                    ctx.fail('not-saved', 'saving reported success, the file is not the message: %s' % e.detail)
                if fired and sim.opened <= 1:
                    ctx.fail('error-lost', '%s failed with %s and saving reported success' % fired[0])
                files[path] = i
                ctx.stat('saved')
            else:
                sim.kill()
                if not fired:
                    ctx.fail('save-failed', 'raised %s: %s' % (core.exc_name(v), core.str_exc(v)))
                if not isinstance(v, Exception):
                    ctx.fail('bad-error', 'saving on a failing disk raised %s' % core.exc_name(v))
                files[path] = load(ctx, sim, path, [i, files.get(path)], msgs)
            ctx.stat('nontrivial')
        elif k == 'load':
            if op.get('restart'):
                ctx.restart()
                ctx.lib.load('MMSMessage', 'MMSEncoder', 'MMSDecoder')
                for j in range(len(msgs)):
                    mms2, mod2 = make(ctx, d, msgs[j][4])
                    msgs[j] = (mms2, mod2) + msgs[j][2:]
            if files.get(path) is not None:
                load(ctx, sim, path, [files[path]], msgs, f, True)
            elif not os.path.exists(path):
                st, v = ctx.call(ctx.lib.MMSMessage.from_file, path)
                ctx.check(st == 'exc', 'error-lost', 'a missing file was loaded')
        elif k == 'cut':
            # a crash lost the end of the file
            j = files.get(path)
            now = content(path)
            if j is None or not now:
                continue
            r = msgs[j][2]
            at = op.get('at') or 0
            if op.get('near'):
                ends = r['hends'] + r['pends']
                at = ends[at % len(ends)] + (at % 3) - 1
            elif at < 0:
                at = len(now) + at
            at = max(0, min(len(now), at % (len(now) + 1)))
            g = simdisk._open(path, 'wb')
            g.write(now[:at])
            g.close()
            ctx.fault('file_cut_short')
            ctx.stat('nontrivial')
            files[path] = load(ctx, sim, path, [j], msgs)
        elif k == 'bad':
            before = content(path)
            h = mms.headers
            old = dict(h)
            why = op.get('why')
            if why == 'nul':
                h['Subject'] = 'a\x00b'
            elif why == 'date':
                h['Date'] = 'x'
            elif why == 'noct':
                del h['Content-Type']
            else:
                h['Response-Text'] = object()
            st, v = ctx.call(mms.to_file, path)
            for n in list(h.keys()):
                del h[n]
            h.update(old)
            if st == 'exc':
                ctx.fault('unencodable_message')
                sim.kill()
                if content(path) != before:
                    ctx.fail('file-lost', 'a message that cannot be encoded changed the file: %s became %s' % (short(before), short(content(path))))
            else:
                files[path] = None
        else:
            raise PlanInvalid('op')


def valid_fault(f):
    if f is None:
        return None
    if f.get('on') not in ('open', 'stat', 'read', 'readat', 'write', 'flush', 'close') or \
            f.get('err') not in list(simdisk.ERRNO) + ['crash'] or not isinstance(f.get('at') or 0, (int, long)):
        raise PlanInvalid('fault')
    return dict(f, at=f.get('at') or 0)


def load(ctx, sim, path, cands, msgs, fault=None, complete=False):
    """the file holds the beginning of one of the candidates; loading gives that or an error -> which"""
    now = content(path)
    if now is None:
        return None
    who = None
    for j in cands:
        if j is not None and msgs[j][3].startswith(now):
            who = j
            if msgs[j][3] == now:
                break
    if who is None:
        for j in cands:
            # another order of headers is the same message
            if j is not None:
                try:
                    check_wire(ctx, wsp.octs(now), msgs[j][1])
                    msgs[j] = msgs[j][:2] + (wsp.parse(wsp.octs(now)), now) + msgs[j][4:]
                    who = j
                    break
                except core.Violation:
                    pass
    if who is None:
        ctx.stat('unrecognised_leftovers')
        return None
    mms, mod, r, enc, m = msgs[who]
    sim.arm([fault] if fault else [])
    sim.opened = 0
    st, v = ctx.call(ctx.lib.MMSMessage.from_file, path)
    fired = sim.fired
    sim.arm([])
    ctx.log('load', os.path.basename(path), who, len(now), st, str(fired))
    if st == 'exc':
        if not isinstance(v, Exception) and not isinstance(v, StopIteration):
            ctx.fail('bad-error', 'loading raised %s' % core.exc_name(v))
        if len(now) == len(enc) and not fired:
            ctx.fail('load-failed', 'a complete file: %s %s' % (core.exc_name(v), core.str_exc(v)))
        ctx.stat('loads_refused')
        return who if len(now) == len(enc) else None
    if len(now) == len(enc) and (not fired or sim.opened > 1):
        check_lib(ctx, v, mod, dict(r['hdrs'])['Transaction-Id'])
        ctx.stat('loaded')
        return who
    k = len(now)
    if fired and fired[0][0] == 'readat':
        k = min(k, fault['at'])
    elif fired:
        ctx.fail('error-lost', '%s failed with %s and loading returned a message' % fired[0])
    check_cut(ctx, v, r, k)
    return None if k == len(now) < len(enc) else who
