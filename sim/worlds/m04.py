# -*- coding: utf-8 -*-
# M04: messages composed from files that change, vanish and fail
from mmsgen import *
import disk as simdisk

CHANGES = ['grow', 'shrink', 'replace', 'same', 'delete', 'swap']


def gen_change(rng, n):
    return dict(do=rng.choice(CHANGES), f=rng.n(n), g=rng.n(n), n=rng.choice([0, 1, 5, 100, 127, 128, 300, 9000]), inplace=rng.chance(50))


def gen_fault(rng, n):
    f = dict(on=rng.choice(['stat', 'open', 'open', 'read', 'read', 'close', 'readat']), skip=rng.weighted([(4, 0), (2, 1), (1, rng.n(5))]))
    if rng.chance(60):
        f['f'] = rng.n(n)
    if f['on'] == 'readat':
        f.update(at=rng.n(400), err='EIO')
    elif rng.chance(65):
        f['change'] = gen_change(rng, n)
    else:
        f['err'] = rng.choice(['EIO', 'EACCES', 'ENOENT', 'EMFILE'])
        f['always'] = rng.chance(20)
    return f


def gen(rng, tier):
    n = rng.between(1, 5)
    same = rng.chance(50)
    files = []
    for i in range(n):
        name = gen_file(rng)['name']
        if same and files and rng.chance(70):
            name = files[0]['name']
        files.append(dict(name=name, n=rng.choice([0, 1, 9, 100, 127, 128, 300, 9000]), eol=rng.chance(40)))
    ops = []
    for _ in range(rng.between(4, 16)):
        k = rng.weighted([(6, 'add'), (5, 'change'), (6, 'encode'), (3, 'look'), (1, 'reload'), (1, 'drop')])
        o = dict(op=k)
        if k == 'add':
            o.update(f=rng.n(n), how=rng.choice(['image', 'audio', 'part', 'part', 'set']))
        elif k == 'change':
            o['c'] = gen_change(rng, n)
        elif k == 'reload':
            o.update(i=rng.n(6), f=rng.n(n))
        elif k in ('look', 'drop'):
            o.update(i=rng.n(6), len=rng.chance(50))
        if k in ('add', 'encode', 'look') and rng.chance(45):
            o['faults'] = [gen_fault(rng, n) for _ in range(rng.weighted([(5, 1), (2, 2)]))]
        ops.append(o)
    return dict(files=files, ops=ops, windows=rng.chance(25))


class File(object):
    pass


class World(object):
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.disk = Disk(ctx)
        self.files = []
        self.serial = 0
        for i, f in enumerate(deep(plan.get('files') or [])):
            valid_name(f.get('name'))
            x = File()
            x.name, x.type = f['name'], type_of_name(f['name'])
            x.eol = bool(f.get('eol'))
            x.i = i
            n = self.length(f)
            x.path = self.disk.put(x.name, '')
            x.inode = x          # who shares the name
            x.history = []
            x.now = None
            self.files.append(x)
            self.write(x, self.fresh(x, n), True)
        if not self.files:
            raise PlanInvalid('files')

    def length(self, f):
        n = f.get('n') or 0
        if not isinstance(n, (int, long)) or not 0 <= n <= 20000:
            raise PlanInvalid('length')
        return n

    def fresh(self, x, n):
        """content nobody else has, as far as its length allows"""
        self.serial += 1
        s = ('%d.%d.' % (x.i, self.serial)) + ('\r\n\x1a' if x.eol else '')
        return (s * (n // len(s) + 1))[:n]

    def write(self, x, data, inplace):
        p = x.path if inplace else x.path + '.new'
        f = simdisk._open(p, 'wb')
        f.write(data)
        f.close()
        if not inplace:
            os.rename(p, x.path)
        x.now = data
        x.history.append(data)

    def change(self, c):
        if c.get('do') not in CHANGES:
            raise PlanInvalid('change')
        n = len(self.files)
        x, y = self.files[(c.get('f') or 0) % n], self.files[(c.get('g') or 0) % n]
        k, inplace = c['do'], bool(c.get('inplace')) and x.now is not None
        old = x.now or ''
        self.ctx.fault('file_' + k)
        if k == 'grow':
            self.write(x, old + self.fresh(x, self.length(c)), inplace)
        elif k == 'shrink':
            self.write(x, old[:self.length(c) % (len(old) + 1)], inplace)
        elif k == 'replace':
            self.write(x, self.fresh(x, self.length(c)), inplace)
        elif k == 'same':
            self.write(x, self.fresh(x, len(old)), inplace)
        elif k == 'delete':
            if x.now is not None:
                os.remove(x.path)
                x.now = None
        elif k == 'swap' and x is not y and x.now is not None and y.now is not None:
            a, b = x.now, y.now
            self.write(x, b, inplace)
            self.write(y, a, inplace)

    def faults(self, fs):
        out = []
        for f in fs or []:
            if f.get('on') not in ('stat', 'open', 'read', 'close', 'readat'):
                raise PlanInvalid('fault')
            g = dict(on=f['on'], skip=f.get('skip') or 0, at=f.get('at') or 0, always=f.get('always'))
            if f.get('f') is not None:
                g['name'] = self.files[f['f'] % len(self.files)].name
            if f.get('change') is not None:
                def do(c=f['change']):
                    self.change(c)
                g['change'] = do
                g['always'] = False
            else:
                if f.get('err') not in simdisk.ERRNO:
                    raise PlanInvalid('fault')
                g['err'] = f['err']
            out.append(g)
        return out


def run(plan, ctx):
    w = World(ctx, plan)
    lib = ctx.lib.load('MMSMessage', 'MMSMessagePage', 'DataPart', 'MMSEncoder')
    sim = simdisk.SimDisk(ctx, bool(plan.get('windows')))
    mms = lib.MMSMessage()
    mms.headers['To'] = '+34600/TYPE=PLMN'
    pages = []          # [page, image entry, audio entry]
    loose = []          # entries
    # entry: [file, index of the first content it may have, part]

    def call(fn, *a, **k):
        sim.arm(w.faults(k.get('faults')))
        n0 = [f.now for f in w.files]
        st, v = ctx.call(fn, *a)
        fired = sim.fired
        sim.arm([])
        if st == 'exc' and not isinstance(v, Exception):
            ctx.fail('bad-error', 'raised %s' % core.exc_name(v))
        errs = [x for x in fired if x[1] != 'change']
        gone = None in n0 or None in [f.now for f in w.files]
        return st, v, fired, errs or gone

    def entries():
        out = []
        for p in pages:
            out += [e for e in p[1:] if e is not None]
        return out + loose

    def holds(e, data, what):
        f = e[0]
        if not isinstance(data, str) or data not in f.history[e[1]:]:
            ctx.fail('wrong-content', '%s of %s is %s; the file had %s' % (what, f.name, short(data), short(f.history[e[1]:])))

    for op in plan.get('ops') or []:
        k = op.get('op')
        ctx.token('%s %s' % (k, op.get('how') or (op.get('c') or {}).get('do') or ''))
        es = entries()
        if k == 'change':
            w.change(op.get('c') or {})
            ctx.log('change', str((op.get('c') or {}).get('do')))
        elif k == 'add':
            f = w.files[(op.get('f') or 0) % len(w.files)]
            t0 = max(len(f.history) - 1, 0)
            how = op.get('how')
            if how in ('image', 'audio'):
                pg = lib.MMSMessagePage()
                st, v, fired, excuse = call(getattr(pg, 'add_' + how), f.path, faults=op.get('faults'))
                if st == 'ok':
                    ctx.must('compose', mms.add_page, pg)
                    part = getattr(pg, how)[0]
                    e = [f, t0, part]
                    pages.append([pg, e if how == 'image' else None, e if how == 'audio' else None])
                elif pg.number_of_parts():
                    ctx.fail('half-added', 'a file that could not be added is on the slide')
            else:
                part = lib.DataPart()
                if how == 'set':
                    part.set_data('x', 'text/plain')
                st, v, fired, excuse = call(part.from_file, f.path, faults=op.get('faults'))
                if st == 'ok':
                    ctx.must('compose', mms.add_data_part, part)
                    loose.append([f, t0, part])
            ctx.log('add', how, st, str(fired))
            if st == 'exc' and not excuse:
                ctx.fail('compose', 'adding %s: %s %s' % (f.name, core.exc_name(v), core.str_exc(v)))
        elif k == 'reload' and loose:
            e = loose[(op.get('i') or 0) % len(loose)]
            f = w.files[(op.get('f') or 0) % len(w.files)]
            if f.now is not None:
                e[0], e[1] = f, len(f.history) - 1
                ctx.must('compose', e[2].from_file, f.path)
        elif k == 'drop' and es:
            # the user gives a part other data
            e = es[(op.get('i') or 0) % len(es)]
            if e in loose:
                e[2].set_data('dropped', 'application/octet-stream')
                e[2].headers['Content-Location'] = 'dropped'
                f = File()
                f.name, f.type, f.history, f.now, f.path = 'dropped', 'application/octet-stream', ['dropped'], 'dropped', None
                e[0], e[1] = f, 0
        elif k == 'look' and es:
            e = es[(op.get('i') or 0) % len(es)]
            if op.get('len'):
                st, v, fired, excuse = call(len, e[2], faults=op.get('faults'))
                if st == 'ok' and v not in [len(h) for h in e[0].history[e[1]:]]:
                    ctx.fail('wrong-content', 'length %r of %s' % (v, e[0].name))
            else:
                st, v, fired, excuse = call(lambda: e[2].data, faults=op.get('faults'))
                if st == 'ok':
                    holds(e, v, 'data')
            ctx.log('look', st, str(fired))
            if st == 'exc' and not excuse:
                ctx.fail('show-failed', 'data of %s: %s %s' % (e[0].name, core.exc_name(v), core.str_exc(v)))
        elif k == 'encode':
            st, v, fired, excuse = call(mms.encode, faults=op.get('faults'))
            ctx.log('encode', st, str(fired))
            if st == 'ok':
                check(ctx, octets_of(ctx, v), pages, loose, es, holds)
                ctx.stat('encodings')
                if fired:
                    ctx.stat('encodings_across_changes')
            else:
                ctx.stat('encodings_refused')
                if not excuse:
                    ctx.fail('encode-failed', '%s %s' % (core.exc_name(v), core.str_exc(v)))
            if es:
                ctx.stat('nontrivial')
    # everything is back: encoding works
    for f in w.files:
        if f.now is None:
            w.write(f, w.fresh(f, 10), True)
    v = ctx.must('encode-failed', mms.encode)
    check(ctx, octets_of(ctx, v), pages, loose, entries(), holds)


def check(ctx, octets, pages, loose, es, holds):
    try:
        r = wsp.parse(octets)
    except Bad, e:
        ctx.fail('unreadable', 'an independent decoder refuses the message: %s' % e)
    parts = r['parts']
    if pages or len(parts) == len(es) + 1:
        if not parts or parts[0][0] != 'application/smil':
            ctx.fail('no-layout', 'no layout part')
        parts = parts[1:]
    if len(parts) != len(es):
        ctx.fail('wrong-parts', '%d parts, were %d' % (len(parts), len(es)))
    for (t, ps, hs, d), e in zip(parts, es):
        if t != e[0].type or ps:
            ctx.fail('wrong-part', '%s has type %s %r, should be %s' % (e[0].name, t, ps, e[0].type))
        if hs != [('Content-Location', e[0].name)]:
            ctx.fail('wrong-part', '%s has headers %r' % (e[0].name, hs))
        holds(e, d, 'part')
