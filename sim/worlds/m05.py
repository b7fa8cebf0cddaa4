# -*- coding: utf-8 -*-
# M05: MMS data that ends early, fails while it is read, or is damaged
from mmsgen import *

ERRORS = {'IOError': lambda: IOError(5, 'source failed'), 'ValueError': lambda: ValueError('source failed'),
          'EOFError': lambda: EOFError('source failed'), 'RuntimeError': lambda: RuntimeError('source failed'),
          'KeyError': lambda: KeyError('source failed'), 'timeout': lambda: IOError(110, 'timed out'),
          'AttributeError': lambda: AttributeError('source failed'), 'IndexError': lambda: IndexError('source failed'),
          'TypeError': lambda: TypeError('source failed'), 'Interrupt': lambda: core.Interrupt('source failed')}
PULLS = 20000


class Source(object):
    """octets that arrive one by one; the source fails at octet k, once or for ever"""

    def __init__(self, octets, k, err, times):
        self.o, self.k, self.err, self.times = octets, k, err, times
        self.raised = 0
        self.pulls = 0

    def __len__(self):
        return len(self.o)

    def _at(self, i):
        self.pulls += 1
        if self.k is not None and i >= self.k and self.raised < self.times:
            self.raised += 1
            raise ERRORS[self.err]()
        return self.o[i]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return to_array([self._at(j) for j in range(*i.indices(len(self.o)))])
        if i < 0:
            i += len(self.o)
        return self._at(i)

    def __iter__(self):
        return Iter(self)


class Iter(object):
    def __init__(self, s):
        self.s, self.i = s, 0

    def __iter__(self):
        return self

    def next(self):
        s = self.s
        if s.k is not None and self.i >= s.k and s.raised < s.times:
            s._at(self.i)
        if self.i >= len(s.o):
            s.pulls += 1
            raise StopIteration
        v = s._at(self.i)
        self.i += 1
        return v


def gen_damage(rng):
    return rng.weighted([
        (4, dict(k='flip', at=rng.n(100000), bit=rng.n(8))),
        (4, dict(k='set', at=rng.n(100000), v=rng.choice([0, 1, 31, 127, 128, 255, rng.n(256)]))),
        (2, dict(k='ins', at=rng.n(100000), v=rng.bytes(rng.between(1, 5)).decode('latin-1'))),
        (2, dict(k='del', at=rng.n(100000), n=rng.between(1, 9))),
        (1, dict(k='splice', at=rng.n(100000), j=rng.n(4), b=rng.n(100000))),
        (1, dict(k='tail', v=rng.bytes(rng.between(1, 40)).decode('latin-1'))),
        (1, dict(k='rand', v=rng.bytes(rng.choice([1, 2, 5, 30, 200])).decode('latin-1'))),
        (1, dict(k='huge', at=rng.n(100000)))])


def damage(d, o, others):
    o = list(o)
    k = d.get('k')
    n = len(o) or 1
    at = (d.get('at') or 0) % n
    if k == 'flip':
        if o:
            o[at] ^= 1 << (d.get('bit') or 0) % 8
    elif k == 'set':
        if o:
            o[at] = (d.get('v') or 0) & 255
    elif k == 'ins':
        o[at:at] = wsp.octs(S(d.get('v') or u''))
    elif k == 'del':
        del o[at:at + (d.get('n') or 1)]
    elif k == 'splice':
        b = others[(d.get('j') or 0) % len(others)]
        o = o[:at] + b[(d.get('b') or 0) % (len(b) or 1):]
    elif k == 'tail':
        o += wsp.octs(S(d.get('v') or u''))
    elif k == 'rand':
        o = wsp.octs(S(d.get('v') or u''))
    elif k == 'huge':
        o[at:at + 1] = [0xff, 0xff, 0xff, 0xff, 0x7f]
    else:
        raise PlanInvalid('damage')
    return o


def facts(m):
    """(octets, what they say, where it ends)"""
    o, hends, pends = wsp.message(m)
    r = dict(hdrs=[(n, wsp.value_of(n, v)) for n, v in m['hdrs']], ct=None, parts=[], hends=hends, pends=pends)
    if m.get('ct') is not None:
        r['ct'] = (m['ct']['v'], wsp.params_of(m['ct']))
        for p in m['parts']:
            r['parts'].append((p['ct']['v'], wsp.params_of(p['ct']), [tuple(h) for h in p.get('hdrs') or []], p['data']))
    return o, r


def gen(rng, tier):
    msgs = [gen_foreign(rng) if rng.chance(75) else None for _ in range(rng.between(1, 3))]
    comp = [gen_composed(rng, False, False) if m is None else None for m in msgs]
    for m in msgs + comp:
        if m is not None and rng.chance(80):
            m['many'] = 0
    ops = []
    for _ in range(rng.between(2, 14)):
        k = rng.weighted([(6, 'cut'), (6, 'fail'), (5, 'bad')] + ([(1, 'sweep'), (1, 'failsweep')] if not [m for m in msgs + comp if m and m['many']] else []))
        o = dict(op=k, i=rng.n(3), how=rng.n(4))
        if k in ('cut', 'fail'):
            o.update(at=rng.n(100000), near=rng.chance(50), d=rng.between(-2, 2))
        if k in ('fail', 'failsweep'):
            o.update(err=rng.choice(sorted(ERRORS)), times=rng.choice([1, 1, 2, 1000000]))
        if k == 'bad':
            o['ds'] = [gen_damage(rng) for _ in range(rng.weighted([(5, 1), (3, 2), (1, 5)]))]
        ops.append(o)
    return dict(msgs=msgs, comp=comp, ops=ops)


def run(plan, ctx):
    lib = ctx.rx.load('MMSMessage', 'MMSDecoder', 'MMSEncoder')
    known = []
    comps = plan.get('comp') or []
    disk = Disk(ctx)
    for i, m in enumerate(plan.get('msgs') or []):
        if m is not None:
            known.append(facts(valid_foreign(m)))
        elif i < len(comps) and comps[i] is not None:
            c = valid_composed(comps[i])
            c['pages'] = [dict(p, image=None, audio=None) for p in c.get('pages') or []]
            c['parts'] = [p for p in c.get('parts') or [] if not p.get('file')]
            mms, mod = build(ctx, disk, c, lib)
            o = octets_of(ctx, ctx.must('encode-failed', mms.encode))
            known.append((o, check_wire(ctx, o, mod)))
    if not known:
        raise PlanInvalid('messages')
    dec = lib.MMSDecoder()

    def decode(data, how):
        limit = 400000 + 400 * len(data)
        if how == 0:
            return ctx.call(dec.decode_data, data, _limit=limit)
        if how == 1:
            return ctx.call(lib.MMSDecoder().decode_data, data, _limit=limit)
        return ctx.call(lib.MMSMessage.from_data, data, _limit=limit)

    def place(op, r, n):
        at = op.get('at') or 0
        if op.get('near'):
            ends = [0] + r['hends'] + r['pends']
            return max(0, min(n, ends[at % len(ends)] + (op.get('d') or 0)))
        return at % (n + 1)

    def cut(o, r, k, how):
        data = to_array(o[:k]) if how % 2 == 0 else Source(o[:k], None, None, 0)
        st, v = decode(data, how)
        ctx.fault('data_cut_short')
        if st == 'exc':
            ordinary(v)
            ctx.stat('refused')
            if k >= len(o):
                ctx.fail('decode-failed', 'complete data: %s %s' % (core.exc_name(v), core.str_exc(v)))
        else:
            check_cut(ctx, v, r, k)
        pulls(data, k)
        return st

    def fail(o, r, k, how, err, times):
        src = Source(o, k, err, times)
        st, v = decode(src, how)
        if src.raised:
            ctx.fault('source_failure')
            if st == 'ok':
                ctx.fail('error-lost', 'the source failed with %s at octet %d of %d and decoding returned a message' % (err, k, len(o)))
            if err != 'Interrupt':
                ordinary(v)
            elif not isinstance(v, core.Interrupt):
                ctx.fail('error-lost', 'an interruption became %s' % core.exc_name(v))
        elif st == 'exc':
            ctx.fail('decode-failed', 'complete data: %s %s' % (core.exc_name(v), core.str_exc(v)))
        else:
            check_cut(ctx, v, r, len(o))
        pulls(src, len(o))
        return st

    def pulls(src, n):
        if isinstance(src, Source) and src.pulls > n + PULLS:
            ctx.fail('runaway', '%d octets were asked for, there are %d' % (src.pulls, n))

    def ordinary(v):
        if not isinstance(v, Exception):
            ctx.fail('bad-error', 'broken data raise %s' % core.exc_name(v))

    for op in plan.get('ops') or []:
        k = op.get('op')
        how = (op.get('how') or 0) % 4
        o, r = known[(op.get('i') or 0) % len(known)]
        if k in ('fail', 'failsweep') and (op.get('err') not in ERRORS or not isinstance(op.get('times'), int) or op['times'] < 1):
            raise PlanInvalid('error')
        if k == 'cut':
            at = place(op, r, len(o))
            st = cut(o, r, at, how)
        elif k == 'fail':
            at = place(op, r, len(o))
            st = fail(o, r, at, how, op['err'], op['times'])
        elif k in ('sweep', 'failsweep'):
            step = max(1, len(o) // 150)
            st = ''
            for at in range(0, len(o) + 1, step):
                if k == 'sweep':
                    cut(o, r, at, how)
                else:
                    fail(o, r, at, how, op['err'], op['times'])
        elif k == 'bad':
            d = o
            for x in op.get('ds') or []:
                d = damage(x, d, [q[0] for q in known])
            data = to_array(d) if how % 2 == 0 else Source(d, None, None, 0)
            st, v = decode(data, how)
            ctx.fault('damaged_data')
            pulls(data, len(d))
            if st == 'exc':
                ordinary(v)
                ctx.stat('refused')
            else:
                n = ctx.must('malformed', lambda: sum([len(p.data) for p in v.data_parts]))
                if n > len(d):
                    ctx.fail('runaway', '%d octets in the parts of a message of %d' % (n, len(d)))
                ctx.stat('damaged_but_decoded')
        else:
            raise PlanInvalid('op')
        ctx.token('%s %s %s' % (k, op.get('err') or '', st))
        ctx.log(k, str(st))
        ctx.stat('nontrivial')
