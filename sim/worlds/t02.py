# -*- coding: utf-8 -*-
# T02: threads with their own MMS messages, and the tables they share
from mmsgen import *
from m05 import Source, ERRORS, gen_damage, damage
import threads
import SimTrace

VERSIONS = ['1.1', '1.2', '1.3', '1.4']
HEADERS = {'1.1': 0x2f, '1.2': 0x38, '1.3': 0x44, '1.4': 0x48}
LIMITS = {'1.1': 0x09, '1.2': 0x0c, '1.3': 0x11, '1.4': 0x1e}


def gen_table(rng):
    return dict(op='table', what=rng.choice(['headers', 'params']), v=rng.choice(VERSIONS),
                edit=rng.choice([None, 'clear', 'pop', 'set', 'add']), k=rng.n(40))


def gen(rng, tier):
    n = rng.weighted([(5, 2), (3, 3), (1, 4)])
    style = rng.weighted([(2, 'encode'), (2, 'decode'), (4, 'mix'), (2, 'same'), (2, 'alike'), (1, 'tables')])
    sm, sf = gen_composed(rng), gen_foreign(rng)
    ths = []
    for _ in range(n):
        ops = []
        for _i in range(rng.between(1, 2)):
            k = rng.n(12)
            if k == 0 or style == 'tables' and k < 8:
                ops.append(gen_table(rng))
            elif k == 1:
                ops.append(dict(op='bad', m=gen_foreign(rng), ds=[gen_damage(rng) for _j in range(rng.between(1, 2))], how=rng.n(2)))
            elif k == 2:
                ops.append(dict(op='fail', m=gen_foreign(rng), at=rng.n(100000), err=rng.choice(sorted(ERRORS)), how=rng.n(2)))
            elif style == 'encode' or style != 'decode' and k % 2:
                ops.append(dict(op='encode', m=sm if style == 'same' else twin_composed(rng, sm) if style == 'alike' else gen_composed(rng), file=rng.chance(20), inside=rng.chance(40),
                                back=rng.chance(40), smil=rng.chance(30)))
            else:
                ops.append(dict(op='decode', m=sf if style == 'same' else twin_foreign(rng, sf) if style == 'alike' else gen_foreign(rng), how=rng.n(4), again=rng.chance(30), share=rng.chance(50)))
        ths.append(ops)
    rounds = [threads.gen_schedule(rng, n, [len(o) for o in ths], 700) for _ in range(rng.weighted([(4, 1), (3, 2), (1, 3)]))]
    return dict(threads=ths, rounds=rounds, fresh=rng.chance(50), before=[gen_table(rng) for _ in range(rng.n(3))])


def outcome(fn):
    try:
        return ('ok', fn())
    except (SimTrace.Budget, core.Violation):
        raise
    except Exception, e:
        return ('exc', e)


class Direct(object):
    """what worlds use to compose, without the tracing of single calls: for use inside simulated threads"""

    def __init__(self, ctx, lib):
        self.ctx, self.lib = ctx, lib
        self.fail = ctx.fail

    def must(self, kind, fn, *a, **k):
        return fn(*a, **k)


def table(lib, op):
    if op.get('v') not in VERSIONS or op.get('what') not in ('headers', 'params'):
        raise PlanInvalid('table')
    t = (lib.wsp.get_header_field_names if op['what'] == 'headers' else lib.wsp.get_well_known_parameters)(op['v'])
    view = list(t) if op['what'] == 'headers' else sorted(t.items())
    return t, view


def edit(op, t):
    """what a user may do to a table that was given to it"""
    e, k = op.get('edit'), op.get('k') or 0
    if e is None:
        return False
    if op['what'] == 'headers':
        if e == 'clear':
            del t[:]
        elif e == 'pop' and t:
            t.pop(k % len(t))
        elif e == 'set' and t:
            t[k % len(t)] = 'X'
        else:
            t.append('X-New')
    else:
        keys = sorted(t)
        if e == 'clear':
            t.clear()
        elif e == 'pop' and t:
            t.pop(keys[k % len(keys)])
        elif e == 'set' and t:
            t[keys[k % len(keys)]] = ('X', 'text_string')
        else:
            t[0x7f] = ('X-New', 'text_string')
    return True


def check_table(ctx, op, view, seen):
    what, v = op['what'], op['v']
    if what == 'headers':
        if len(view) != HEADERS[v]:
            ctx.fail('wrong-table', '%d header names in version %s, the standard has %d' % (len(view), v, HEADERS[v]))
        for n, i in wsp.WSP_TEXT.items():
            if view[i] != n:
                ctx.fail('wrong-table', 'header 0x%02x of version %s is %r' % (i, v, view[i]))
    else:
        nums = [x for x, _ in view]
        want = [x for x in range(LIMITS[v]) if x != 4]
        if nums != want:
            ctx.fail('wrong-table', 'parameters %s in version %s, the standard has %s' % (short(nums), v, short(want)))
        d = dict(view)
        for n, (i, _) in wsp.PARAMS.items():
            if i in d and d[i][0] != n:
                ctx.fail('wrong-table', 'parameter 0x%02x of version %s is %r' % (i, v, d[i]))
    if seen.setdefault((what, v), view) != view:
        ctx.fail('table-changed', '%s of version %s were %s, are %s' % (what, v, short(seen[what, v]), short(view)))
    ctx.stat('tables')


def run(plan, ctx):
    ths = plan.get('threads') or []
    if not 1 <= len(ths) <= 6:
        raise PlanInvalid('threads')
    disk = Disk(ctx)
    seen = {}
    shared = {}

    def tables():
        lib = ctx.lib.load('wsp')
        for op in plan.get('before') or []:
            t, view = table(lib, op)
            check_table(ctx, op, view, seen)
            if edit(op, t):
                ctx.fault('table_edited')
                check_table(ctx, op, ctx.must('malformed', table, lib, op)[1], seen)

    def data(o, op):
        if not op.get('share'):
            return to_array(o)
        k = wsp.chars(o)
        if k not in shared:
            shared[k] = to_array(o)
        return shared[k]

    for n, rd in enumerate(plan.get('rounds') or []):
        if plan.get('fresh') and n:
            ctx.restart()
        lib = ctx.lib.load('MMSMessage', 'MMSMessagePage', 'DataPart', 'MMSDecoder', 'MMSEncoder', 'wsp')
        tables()
        bodies, checks = [], []
        for ti, ops in enumerate(ths):
            work = []
            for op in ops or []:
                k = op.get('op')
                if k == 'table':
                    work.append((op, (lambda op=op: use_table(lib, op)), None))
                elif k == 'decode':
                    m = valid_foreign(op.get('m') or {})
                    o = wsp.message(m)[0]
                    how = (op.get('how') or 0) % 4
                    if how == 2:
                        path = disk.put('m.mms', wsp.chars(o))
                        fn = lambda path=path: [lib.MMSMessage.from_file(path)]
                    elif how == 3:
                        path = disk.put('m.mms', wsp.chars(o))
                        fn = lambda path=path: [lib.MMSDecoder().decode_file(path)]
                    elif op.get('again'):
                        def fn(o=o, op=op):
                            d = lib.MMSDecoder()
                            return [d.decode_data(data(o, op)), d.decode_data(data(o, op))]
                    elif how:
                        fn = lambda o=o, op=op: [lib.MMSDecoder().decode_data(data(o, op))]
                    else:
                        fn = lambda o=o, op=op: [lib.MMSMessage.from_data(data(o, op))]
                    work.append((op, fn, m))
                elif k == 'encode':
                    c = valid_composed(op.get('m') or {})
                    path = os.path.join(os.path.dirname(disk.put('x', '')), 'out.mms') if op.get('file') else None
                    made = None if op.get('inside') else build(ctx, disk, c, lib)
                    work.append((op, (lambda c=c, made=made, path=path, op=op: compose(ctx, lib, disk, c, made, path, op)), c))
                elif k in ('bad', 'fail'):
                    m = valid_foreign(op.get('m') or {})
                    o = wsp.message(m)[0]
                    if k == 'bad':
                        for x in op.get('ds') or []:
                            o = damage(x, o, [o])
                        src = lambda o=o: to_array(o)
                        ctx.fault('damaged_data')
                    else:
                        if op.get('err') not in ERRORS or op['err'] == 'Interrupt':
                            continue
                        src = lambda o=o, op=op: Source(o, (op.get('at') or 0) % (len(o) + 1), op['err'], 1)
                        ctx.fault('source_failure')
                    how = lib.MMSMessage.from_data if op.get('how') else (lambda d: lib.MMSDecoder().decode_data(d))
                    fn = lambda src=src, how=how: view_of(how(src()))
                    st, alone = ctx.call(lambda: kind_of(outcome(fn)), _limit=400000)
                    if st != 'ok':
                        continue            # M05's business
                    work.append((op, lambda fn=fn: kind_of(outcome(fn)), alone))
                else:
                    raise PlanInvalid('op')

            def body(work=work):
                res = []
                for w in work:
                    s = core.SimLock.sched
                    if s:
                        s.freshen()
                    res.append(outcome(w[1]))
                return res
            bodies.append(body)
            checks.append(work)
        out, sched = threads.run(ctx, bodies, **threads.round_of(rd, lambda: core.Interrupt('stop')))
        ctx.stat('nontrivial')
        for i, (work, (st, res)) in enumerate(zip(checks, out)):
            if sched.cancelled[i]:
                ctx.fault('thread_cancelled')
                if st == 'ok':
                    ctx.fail('interrupt-lost', 'a cancelled thread went on')
                continue
            if st != 'ok':
                ctx.fail('disturbed', 'a thread ended with %s %s' % (core.exc_name(res), core.str_exc(res)))
            for (op, fn, want), (s, v) in zip(work, res):
                k = op['op']
                if s != 'ok':
                    ctx.fail('disturbed', '%s raised %s %s' % (k, core.exc_name(v), core.str_exc(v)))
                if k == 'table':
                    for view in v:
                        check_table(ctx, op, view, seen)
                    if op.get('edit'):
                        ctx.fault('table_edited')
                elif k == 'decode':
                    for mms in v:
                        compare(ctx, look(ctx, mms), want_of(want))
                    ctx.stat('decoded')
                elif k == 'encode':
                    mod, smil, o, back = v
                    r = check_wire(ctx, octets_of(ctx, o), mod)
                    if back is not None:
                        check_lib(ctx, back, mod, dict(r['hdrs']).get('Transaction-Id'))
                    if smil is not None:
                        twin, tm = build(ctx, disk, want, lib)
                        if smil != ctx.must('disturbed', twin.smil):
                            ctx.fail('disturbed', 'the layout of a thread differs: %s' % short(smil))
                    ctx.stat('encoded')
                elif v != want:
                    ctx.fail('disturbed', 'alone %s, among threads %s' % (short(want), short(v)))
        tables()
        ctx.log('round', len(bodies))


def use_table(lib, op):
    t, view = table(lib, op)
    edit(op, t)
    return [view, table(lib, op)[1]]


def compose(ctx, lib, disk, c, made, path, op):
    mms, mod = made if made is not None else build(Direct(ctx, lib), disk, c, lib)
    smil = mms.smil() if op.get('smil') else None
    if path is not None:
        mms.to_file(path)
        f = open(path, 'rb')
        o = [ord(x) for x in f.read()]
        f.close()
    else:
        o = mms.encode()
    back = lib.MMSMessage.from_data(to_array([int(x) for x in o])) if op.get('back') else None
    return mod, smil, o, back


def kind_of(r):
    return (r[0], r[1] if r[0] == 'ok' else type(r[1]).__name__)


def view_of(mms):
    return repr((sorted(mms.headers.items()), [(sorted(p.headers.items()), p.data) for p in mms.data_parts]))
