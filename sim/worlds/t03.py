# -*- coding: utf-8 -*-
# T03: calls abandoned at any statement, repeated, and everything afterwards
import common
from mmsgen import *
from common import new_submit, check_parts, read_pdus, gen_number, tpdu
import t01
import t02
from t01 import gen_message
import pdus
import threads

EXC = {'Interrupt': lambda: core.Interrupt('stop'), 'KeyboardInterrupt': lambda: KeyboardInterrupt('stop'), 'SystemExit': lambda: SystemExit(3)}
READ = ['submit', 'data', 'encode', 'tofile', 'smil', 'parts', 'fromdata', 'fromfile', 'decode', 'newsub', 'newrx', 'encoder', 'partdata', 'wap']
SET = ['repdu', 'setsub', 'page', 'part']
WINDOW = 95


def gen_cuts(rng):
    k = rng.n(10)
    if k < 6:
        return [1 + rng.loguniform(700) if rng.chance(50) else rng.between(1, 350) for _ in range(rng.weighted([(6, 1), (2, 2), (1, 5)]))]
    if k < 8:       # every so many statements
        return dict(start=1 + rng.n(12), step=rng.choice([1, 3, 7, 11, 17, 31]), max=rng.choice([5, 20, 60]), look=rng.chance(30))
    return []


def gen(rng, tier):
    kind = rng.weighted([(2, 'sms'), (2, 'mms'), (2, 'both')])
    plan = dict(subs=[], rx=[], mms=[], foreign=[], ops=[])
    whats = []
    if kind != 'mms':
        plan['subs'] = [gen_message(rng) for _ in range(rng.between(1, 3))]
        plan['rx'] = [pdus.gen_spec(rng) for _ in range(rng.between(1, 3))]
        for k, tw in (('subs', common.twin_message), ('rx', pdus.twin)):
            for i in range(1, len(plan[k])):
                if rng.chance(40):
                    plan[k][i] = tw(rng, plan[k][0])
        whats += ['submit'] * 4 + ['data', 'newsub', 'newrx', 'newrx', 'repdu', 'repdu', 'setsub']
    if kind != 'sms':
        plan['mms'] = [gen_composed(rng) for _ in range(rng.between(1, 2))]
        plan['foreign'] = [gen_foreign(rng) for _ in range(rng.between(1, 2))]
        for k, tw in (('mms', twin_composed), ('foreign', twin_foreign)):
            if len(plan[k]) > 1 and rng.chance(40):
                plan[k][1] = tw(rng, plan[k][0])
        whats += ['encode'] * 4 + ['decode'] * 4 + ['fromdata', 'tofile', 'smil', 'parts', 'fromfile', 'encoder', 'page', 'part', 'partdata', 'wap']
    for _ in range(rng.between(2, 10 if tier == 'quick' else 20)):
        w = rng.choice(whats)
        op = dict(what=w, i=rng.n(6), j=rng.n(6), cuts=gen_cuts(rng), exc=rng.choice(sorted(EXC)), repeat=rng.chance(70))
        if rng.chance(25):
            op = gen_cold(rng, kind)
        elif w == 'setsub':
            op['set'] = rng.choice([['number', gen_number(rng)], ['csca', gen_number(rng)], ['klass', rng.n(4)], ['srr', rng.chance(50)], ['ref', rng.n(256)]])
        elif w == 'page':
            op['k'], op['file'], op['t'] = rng.choice(['image', 'audio', 'text']), gen_file(rng), rng.choice([[0, 0], [0, 2000], [500, 700]])
        elif w == 'part':
            op['p'] = gen_part(rng)
        if op['what'] != 'cold' and isinstance(op['cuts'], list) and len(op['cuts']) == 1 and w in READ and rng.chance(20):
            op['beside'] = rng.choice(whats)
            op['pre'] = threads.gen_preempts(rng, 2, [1, 1], 300)
        plan['ops'].append(op)
    plan['zone'] = rng.choice(ZONES)
    return plan


def gen_cold(rng, kind):
    """the first call in a new process is abandoned"""
    ks = (['receive', 'receive', 'send'] if kind != 'mms' else []) + (['read', 'compose'] if kind != 'sms' else [])
    est = rng.choice([40, 150, 400])
    return dict(what='cold', k=rng.choice(ks), i=rng.n(6), then=rng.choice(ks), j=rng.n(6), same=rng.chance(60), exc=rng.choice(sorted(EXC)),
                cuts=[rng.between(1, est) for _ in range(rng.weighted([(4, 1), (3, 3), (1, 8)]))])


def cold(W, op, ctx):
    """one new process for each point: the abandoned call, the same again, something else"""
    if [c for c in op.get('cuts') or [] if not isinstance(c, int) or c < 1]:
        raise PlanInvalid('cut')
    for at in op.get('cuts') or []:
        ctx.restart()
        lib = ctx.lib.load('SmsSubmit', 'SmsDeliver', 'MMSMessage', 'MMSMessagePage', 'DataPart', 'MMSDecoder', 'MMSEncoder', 'wsp', 'wap')
        first = W.whole(lib, op.get('k'), op.get('i'))
        then = W.whole(lib, op.get('then'), op.get('j'))
        if first is None or then is None:
            return
        it = EXC[op['exc']]()
        st, v = ctx.call(first[0], _cancel=(at, it))
        hit = core.tracer.cancelled
        if hit and v is not it:
            ctx.fail('interrupt-lost', 'first %s: an interruption ended in %s' % (op['k'], core.exc_name(v) if st == 'exc' else 'a result'))
        if hit:
            ctx.fault('interruption')
            ctx.stat('interrupted_first_call')
        else:
            W.settle(op['k'], 'at first', st, v, first[1])
        for what, (fn, check) in ([(op['k'], first), (op['then'], then)] if op.get('same') else [(op['then'], then), (op['k'], first)]):
            st, v = ctx.call(fn)
            W.settle(what, 'after the first call of the process was abandoned', st, v, check)
        ctx.token('cold %s %d' % (op['k'], hit))
        ctx.stat('nontrivial')
    ctx.log('cold', str(op.get('k')))


class World(object):
    def __init__(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        self.lib = ctx.lib.load('SmsSubmit', 'SmsDeliver', 'MMSMessage', 'MMSMessagePage', 'DataPart', 'MMSDecoder', 'MMSEncoder', 'wsp', 'wap')
        self.disk = Disk(ctx)
        self.refs = []          # (number of the submission, reference)
        self.count = 0
        self.subs, self.rx, self.mms, self.foreign = [], [], [], []
        for m in plan.get('subs') or []:
            m = dict(m)
            sms, text = new_submit(ctx, m)
            if m.get('vp') is not None:
                if not 300 <= m['vp'] <= 63 * 604800:
                    raise PlanInvalid('vp')
                sms.validity = datetime.timedelta(seconds=m['vp'])
            self.subs.append((sms, m, text))
        for s in plan.get('rx') or []:
            h = pdus.build(s)
            self.rx.append([ctx.must('receive-failed', self.lib.SmsDeliver, h), s, h])
        for m in plan.get('mms') or []:
            c = valid_composed(m)
            mms, mod = build(ctx, self.disk, c, self.lib)
            spare_page = self.lib.MMSMessagePage()
            spare_part = self.lib.DataPart()
            self.mms.append((mms, mod, spare_page, spare_part, [], [None]))
        for m in plan.get('foreign') or []:
            m = valid_foreign(m)
            o = wsp.message(m)[0]
            self.foreign.append((m, o, self.disk.put('f.mms', wsp.chars(o))))
        self.dec = self.lib.MMSDecoder()
        self.enc = self.lib.MMSEncoder()
        self.out = os.path.join(os.path.dirname(self.disk.put('x', '')), 'out.mms')

    def pick(self, l, i):
        return l[(i or 0) % len(l)] if l else None

    def uses(self, what, i):
        """the objects a call works on"""
        for names, l in ((('submit', 'newsub'), self.subs), (('data', 'newrx'), self.rx), (('decode', 'fromdata', 'fromfile', 'wap'), self.foreign),
                         (('encode', 'encoder', 'tofile', 'smil', 'parts', 'partdata'), self.mms)):
            if what in names:
                u = set([(names[0], (i or 0) % len(l))] if l else [])
        if what in ('decode', 'fromfile'):
            u.add('decoder')
        if what in ('encoder', 'tofile'):
            u.add(what)
        return u

    def job(self, op):
        """-> (function to call, check of its result) or None"""
        ctx, lib = self.ctx, self.lib
        w, i = op.get('what'), op.get('i')
        if w in ('submit', 'newsub', 'setsub'):
            x = self.pick(self.subs, i)
            if x is None:
                return None
            sms, m, text = x
            if w == 'submit':
                return sms.to_pdu, lambda v: self.check_submit(m, text, v)
            if w == 'newsub':
                raw = common.to_lib_text(m['coding'], text, m.get('plain'))
                return (lambda: lib.SmsSubmit(m['number'], raw)), lambda v: self.check_newsub(m, text, v)
            if not isinstance(op.get('set'), list) or len(op['set']) != 2:
                raise PlanInvalid('set')
            name, v = op['set']
            if name in ('number', 'csca'):
                v = common.valid_number(v)
            elif name == 'klass':
                if v not in (0, 1, 2, 3) or isinstance(v, bool):
                    raise PlanInvalid('klass')
            elif name == 'ref':
                if not isinstance(v, int) or not 0 <= v <= 255:
                    raise PlanInvalid('ref')
            elif name != 'srr':
                raise PlanInvalid('set')

            def done(_):
                m[name] = v
                self.check_submit(m, text, ctx.must('submit-failed', sms.to_pdu))
            return (lambda: setattr(sms, 'request_status' if name == 'srr' else name, v)), done
        if w in ('data', 'newrx', 'repdu'):
            x = self.pick(self.rx, i)
            if x is None:
                return None
            if w == 'data':
                return (lambda: x[0].data), lambda v: pdus.check_spec(ctx, x[0], x[1], None)
            if w == 'newrx':
                return (lambda: lib.SmsDeliver(x[2])), lambda v: pdus.check_spec(ctx, v, x[1], None)
            y = self.pick(self.rx, op.get('j'))
            spec, h = y[1], y[2]

            def done(_):
                x[1], x[2] = spec, h
                pdus.check_spec(ctx, x[0], spec, None)
            return (lambda: setattr(x[0], 'pdu', h)), done
        if w in ('decode', 'fromdata', 'fromfile', 'wap'):
            x = self.pick(self.foreign, i)
            if x is None:
                return None
            m, o, path = x
            check = lambda v: compare(ctx, look(ctx, v), want_of(m))
            if w == 'decode':
                return (lambda: self.dec.decode_data(to_array(o))), check
            if w == 'fromdata':
                return (lambda: lib.MMSMessage.from_data(to_array(o))), check
            if w == 'wap':
                p = '\x01\x06\x03\xbe\xaf\x84' + wsp.chars(o)
                return (lambda: lib.wap.extract_push_notification(p)), check
            return (lambda: self.dec.decode_file(path) if (op.get('j') or 0) % 2 else lib.MMSMessage.from_file(path)), check
        x = self.pick(self.mms, i)
        if x is None:
            return None
        mms, mod, page, part, pm, partm = x
        if w == 'encode':
            return mms.encode, lambda v: check_wire(ctx, octets_of(ctx, v), mod)
        if w == 'encoder':
            return (lambda: self.enc.encode(mms)), lambda v: check_wire(ctx, octets_of(ctx, v), mod)
        if w == 'tofile':
            def stored(_):
                f = open(self.out, 'rb')
                o = [ord(c) for c in f.read()]
                f.close()
                check_wire(ctx, o, mod)
            return (lambda: mms.to_file(self.out)), stored
        if w == 'smil':
            return mms.smil, lambda v: self.check_layout(mod, v)
        if w == 'parts':
            return (lambda: [p.data for p in mms.data_parts]), lambda v: self.check_parts_list(mms, mod, v)
        if w == 'partdata':
            n = len(mod.parts)
            if not n:
                return None
            k = (op.get('j') or 0) % n

            def read():
                return mms.data_parts[-n + k].data

            def right(v):
                if not same(v, mod.parts[k][3]):
                    ctx.fail('wrong-part', 'data %s, was %s' % (short(v), short(mod.parts[k][3])))
            return read, right
        if w == 'page':
            kind, f = op.get('k'), op.get('file') or {}
            f = deep(f)
            valid_name(f.get('name'))
            t = op.get('t') or [0, 0]
            if kind not in ('image', 'audio', 'text') or not isinstance(f.get('data'), str) or len(t) != 2 or t[1] and t[1] < t[0] or min(t) < 0:
                raise PlanInvalid('page')
            if kind == 'text':
                fn = lambda: page.add_text(f['data'], t[0], t[1])
                want = ('text/plain', {}, {}, f['data'])
            else:
                path = self.disk.put(f['name'], f['data'])
                fn = lambda: getattr(page, 'add_' + kind)(path, t[0], t[1])
                want = file_model(f)

            def added(_):
                pm[:] = [y for y in pm if y[0] != kind] + [(kind, want)]
                got = [e for e in field(ctx, page, 'data_parts')]
                exp = [dict(pm)[q] for q in ('image', 'audio', 'text') if q in dict(pm)]
                if len(got) != len(exp):
                    ctx.fail('wrong-part', '%d things on a page, were %d' % (len(got), len(exp)))
                for e, ex in zip(got, exp):
                    self.check_part(e[0], ex)
            return fn, added
        if w == 'part':
            p = deep(op.get('p') or {})
            valid_part(p)
            if p.get('file'):
                path = self.disk.put(p['file']['name'], p['file']['data'])
                fn, want = (lambda: part.from_file(path)), file_model(p['file'])
            else:
                v, ps = lib_ct(p['ct'])
                data = to_array(wsp.octs(p['data'])) if p.get('arr') else p['data']
                fn = lambda: part.set_data(data, v, dict(ps))
                want = (v, ps, {}, p['data'])
            return fn, lambda _: self.check_part(part, want)
        raise PlanInvalid('what')

    def settle(self, what, why, st, v, check):
        if st != 'ok':
            self.ctx.fail('unusable-after', '%s %s raised %s: %s' % (what, why, core.exc_name(v), core.str_exc(v)))
        check(v)

    def whole(self, lib, k, i):
        """work that uses nothing made before: (function, check) or None"""
        ctx, plan = self.ctx, self.plan
        if k == 'receive':
            x = self.pick(plan.get('rx'), i)
            return x and ((lambda: lib.SmsDeliver(pdus.build(x))), lambda v: pdus.check_spec(ctx, v, x, None))
        if k == 'send':
            x = self.pick(plan.get('subs'), i)
            if x is None:
                return None
            m = dict(x)

            def send():
                sms = new_submit(t01.Direct(lib), m)[0]
                if m.get('vp') is not None:
                    sms.validity = datetime.timedelta(seconds=m['vp'])
                return sms.to_pdu()
            return send, lambda v: self.check_submit(m, new_submit(t01.Direct(t01.NoLib), m)[1], v, False)
        if k == 'read':
            x = self.pick(self.foreign, i)
            return x and ((lambda: lib.MMSMessage.from_data(to_array(x[1]))), lambda v: compare(ctx, look(ctx, v), want_of(x[0])))
        if k == 'compose':
            x = self.pick(plan.get('mms'), i)
            if x is None:
                return None
            c = valid_composed(x)

            def make():
                mms, mod = build(t02.Direct(ctx, lib), self.disk, c, lib)
                return mod, mms.encode()
            return make, lambda v: check_wire(ctx, octets_of(ctx, v[1]), v[0])
        raise PlanInvalid('k')

    def check_part(self, dp, want):
        ctx = self.ctx
        h = dict(field(ctx, dp, 'headers'))
        st, d = ctx.call(lambda: dp.data)
        if st != 'ok':
            ctx.fail('wrong-part', 'data: %s' % core.exc_name(d))
        st, n = ctx.call(lambda: len(dp))
        exp = dict(want[2], **{'Content-Type': (want[0], want[1])})
        if not same(h, exp) or not same(d, want[3]) or n != len(want[3]):
            ctx.fail('wrong-part', 'part %s, was %s' % (short((h, d, n)), short(want)))

    def check_submit(self, m, text, v, counted=True):
        ctx = self.ctx
        ps = check_parts(ctx, m, text, read_pdus(ctx, v))
        for r in ps:
            vp = r['vp']
            if (m.get('vp') is None) != (vp is None) or vp is not None and (vp[0] != 'rel' or not 0 <= m['vp'] - tpdu.relative_seconds(vp[1]) < 604800):
                ctx.fail('wrong-validity', 'validity %r submitted as %r' % (m.get('vp'), vp))
        c = ps[0]['concat']
        if c is not None and len(ps) > 1 and counted:
            self.refs = [x for x in self.refs if x[0] > self.count - WINDOW]
            if c[0] in [x[1] for x in self.refs]:
                ctx.fail('reference', 'two messages under way with reference %d' % c[0])
            self.refs.append((self.count, c[0]))

    def check_newsub(self, m, text, sms):
        """a new object, set up like the other, submits the same"""
        m = dict(m)
        for name, attr in (('csca', 'csca'), ('klass', 'klass'), ('ref', 'ref')):
            if m.get(name) is not None:
                setattr(sms, attr, m[name])
        if m.get('srr'):
            sms.request_status = True
        if m['coding'] == '8bit':
            sms.fmt = 4
        if m.get('vp') is not None:
            sms.validity = datetime.timedelta(seconds=m['vp'])
        self.count += 1
        self.check_submit(m, text, self.ctx.must('submit-failed', sms.to_pdu))

    def check_layout(self, mod, v):
        if isinstance(v, unicode):
            v = v.encode('utf-8')
        if not isinstance(v, str):
            self.ctx.fail('malformed', 'layout %r' % (v,))
        check_smil(self.ctx, mod, ('application/smil', {}, {}, v))

    def check_parts_list(self, mms, mod, v):
        want = [x[3] for x in want_parts(mod)]
        got = list(v)
        if mod.pages:
            got = got[1:]
        if not same(got, want):
            self.ctx.fail('wrong-parts', 'parts %s, were %s' % (short(got), short(want)))


def run(plan, ctx):
    set_zone(plan.get('zone') or 'UTC')
    W = World(plan, ctx)
    if not W.subs and not W.rx and not W.mms and not W.foreign:
        raise PlanInvalid('nothing')

    def finish(op, fn, check, why):
        W.count += 1
        st, v = ctx.call(fn)
        if st != 'ok':
            ctx.fail('unusable-after', '%s %s raised %s: %s' % (op['what'], why, core.exc_name(v), core.str_exc(v)))
        check(v)

    def abandoned(op, st, v, it, cancelled):
        if cancelled and v is not it:
            ctx.fail('interrupt-lost', '%s: an interruption ended in %s' % (op['what'], core.exc_name(v) if st == 'exc' else 'a result'))
        if not cancelled and st != 'ok':
            ctx.fail('unusable-after', '%s raised %s: %s' % (op['what'], core.exc_name(v), core.str_exc(v)))
        if cancelled:
            ctx.fault('interruption')
            ctx.stat('interrupted_' + op['what'])

    for op in plan.get('ops') or []:
        if op.get('what') == 'cold' and op.get('exc') in EXC:
            cold(W, op, ctx)
            continue
        if op.get('what') not in READ + SET or op.get('exc') not in EXC:
            raise PlanInvalid('what')
        j = W.job(op)
        if j is None:
            continue
        fn, check = j
        cuts = op.get('cuts') or []
        hits = 0
        why = 'at first'
        done = False
        other = None
        if op.get('beside') in READ and op['what'] in READ and W.uses(op['what'], op.get('i')).isdisjoint(W.uses(op['beside'], (op.get('i') or 0) + 1)):
            other = W.job(dict(op, what=op['beside'], i=(op.get('i') or 0) + 1))
        if other is not None and isinstance(cuts, list) and cuts:
            # the thread is cancelled while another one works on something else
            if cuts[0] < 1:
                raise PlanInvalid('cut')
        if other is not None and isinstance(cuts, list) and cuts:
            it = EXC[op['exc']]()
            W.count += 2
            out, sched = threads.run(ctx, [fn, other[0]], op.get('pre'), 0, [(0, 0, cuts[0], it)])
            abandoned(op, out[0][0], out[0][1], it, sched.cancelled[0])
            hits += int(bool(sched.cancelled[0]))
            if out[1][0] != 'ok':
                ctx.fail('disturbed', '%s in another thread: %s' % (op['beside'], core.exc_name(out[1][1])))
            other[1](out[1][1])
            ctx.token('th')
            if not sched.cancelled[0]:
                check(out[0][1])
                done = True
            else:
                why = 'after a thread was cancelled'
        else:
            if isinstance(cuts, dict):
                a, s, mx = cuts.get('start') or 1, cuts.get('step') or 1, min(cuts.get('max') or 1, 60)
                if a < 1 or s < 1:
                    raise PlanInvalid('cuts')
                points = [a + s * q for q in range(mx)]
            else:
                points = list(cuts)
            for at in points:
                if not isinstance(at, int) or at < 1:
                    raise PlanInvalid('cut')
                it = EXC[op['exc']]()
                W.count += 1
                st, v = ctx.call(fn, _cancel=(at, it))
                abandoned(op, st, v, it, core.tracer.cancelled)
                if not core.tracer.cancelled:
                    check(v)
                    done = True
                    if isinstance(cuts, dict):
                        break
                else:
                    hits += 1
                    done = False
                    why = 'after an interruption'
                    if isinstance(cuts, dict) and cuts.get('look') and op['what'] in READ and hits % 4 == 0:
                        finish(op, fn, check, why)
        if not done and (op.get('repeat') or op['what'] in SET or not hits):
            finish(op, fn, check, why)
        ctx.token('%s %d' % (op['what'], min(hits, 3)))
        ctx.log(op['what'], hits)
        ctx.stat('nontrivial')
    # afterwards everything is as if nothing had happened
    for k, l in (('submit', W.subs), ('newrx', W.rx), ('data', W.rx), ('encode', W.mms), ('parts', W.mms), ('decode', W.foreign), ('fromdata', W.foreign)):
        for i in range(len(l)):
            op = dict(what=k, i=i, exc='Interrupt')
            fn, check = W.job(op)
            finish(op, fn, check, 'at the end')
