# -*- coding: utf-8 -*-
# M08: reading with look-ahead from sources that fail for a while
from mmsgen import *

KINDS = ['list', 'array', 'str', 'iter', 'flaky', 'flaky', 'flaky', 'growing', 'getitem']
ERRS = {'IOError': IOError, 'ValueError': ValueError, 'RuntimeError': RuntimeError, 'KeyError': KeyError, 'Interrupt': core.Interrupt,
        'LookupError': LookupError, 'AttributeError': AttributeError, 'TypeError': TypeError}


class Flaky(object):
    """an iterator that fails before item k as often as the plan says, then goes on"""

    def __init__(self, items, fails, ctx):
        self.items, self.i, self.ctx = items, 0, ctx
        self.fails = dict(fails)
        self.given = 0

    def __iter__(self):
        return self

    def next(self):
        f = self.fails.get(self.i)
        if f and f[0] > 0:
            f[0] -= 1
            self.ctx.fault('source_failure')
            raise ERRS[f[1]]('not now')
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        self.given += 1
        return self.items[self.i - 1]


class Getitem(object):
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    n = rng.choice([0, 1, 2, 5, 10, 30])
    items = [rng.choice([0, 1, 255, 127, None, rng.n(256)]) if kind not in ('str', 'array') else rng.n(256) for _ in range(n)]
    fails = []
    if kind == 'flaky':
        for _ in range(rng.between(1, 4)):
            fails.append([rng.n(n + 1), rng.between(1, 3), rng.choice(sorted(ERRS))])
    style = rng.n(3)
    ops = []
    for _ in range(rng.between(1, 60)):
        ops.append(rng.weighted([(4 if style != 1 else 1, 'n'), (5 if style != 2 else 2, 'p'), (2, 'r'), (1 if kind == 'growing' else 0, 'g'), (1, 'i')]))
    return dict(kind=kind, items=items, fails=fails, ops=ops, two=rng.chance(20))


def run(plan, ctx):
    kind = plan.get('kind')
    items = list(plan.get('items') or [])
    if kind not in KINDS or [x for x in items if x is not None and not isinstance(x, (int, long))]:
        raise PlanInvalid('kind')
    if kind in ('str', 'array') and [x for x in items if x is None or not 0 <= x < 256]:
        raise PlanInvalid('items')
    fails = {}
    for f in plan.get('fails') or []:
        if len(f) != 3 or f[2] not in ERRS or not isinstance(f[0], int) or not isinstance(f[1], int):
            raise PlanInvalid('fails')
        fails[f[0]] = [f[1], f[2]]
    if kind != 'flaky':
        fails = {}
    src = {'list': lambda: items, 'growing': lambda: items, 'array': lambda: to_array(items), 'str': lambda: wsp.chars(items),
           'iter': lambda: iter(items), 'flaky': lambda: Flaky(items, fails, ctx), 'getitem': lambda: Getitem(items)}[kind]()
    if kind == 'str':
        items = list(wsp.chars(items))
    it = ctx.must('compose', ctx.rx.load('PreviewIterator').PreviewIterator, src)
    its = [it]
    if plan.get('two') and kind in ('list', 'array', 'str'):
        its.append(ctx.must('compose', ctx.rx.PreviewIterator, src))
    state = [[0, 0, False] for _ in its]      # items read, items looked at ahead, has the end been seen
    model = dict((k, list(v)) for k, v in fails.items())
    reached = [0]

    def pull(pos):
        """what the source does when item pos is wanted for the first time: None or an exception type"""
        while reached[0] <= pos:
            f = model.get(reached[0])
            if f and f[0] > 0:
                f[0] -= 1
                return ERRS[f[1]]
            if reached[0] >= len(items):
                return StopIteration
            reached[0] += 1
        return None

    for n, op in enumerate(plan.get('ops') or []):
        w = n * 7 % len(its)
        it, st = its[w], state[w]
        ctx.token(op)
        if op == 'r':
            ctx.must('malformed', it.reset_preview)
            st[1] = 0
        elif op == 'g' and kind == 'growing':
            if not st[2]:
                items.append(n)
                ctx.stat('source_grows')
        elif op == 'i':
            if ctx.must('malformed', iter, it) is not it:
                ctx.fail('malformed', 'iter() of it is another object')
        elif op in ('n', 'p'):
            pos = st[0] + (st[1] if op == 'p' else 0)
            if kind == 'flaky':
                want = pull(pos)
            else:
                want = StopIteration if pos >= len(items) else None
            k, v = ctx.call(it.next if op == 'n' else it.preview)
            ctx.log(op, k)
            if op == 'n':
                st[1] = 0           # also a read that fails goes back
            if want is not None:
                if want is StopIteration:
                    st[2] = True
                if k == 'ok':
                    ctx.fail('repeated' if want is StopIteration else 'error-lost', 'item %d is %r, the source gave %s' % (pos, v, want.__name__))
                if type(v) is not want:
                    ctx.fail('wrong-error', 'the source raised %s, the reader %s' % (want.__name__, core.exc_name(v)))
                ctx.stat('errors_seen')
                continue
            if k != 'ok':
                ctx.fail('item-lost', 'item %d: %s %s' % (pos, core.exc_name(v), core.str_exc(v)))
            if v != items[pos] or type(v) is not type(items[pos]) and not isinstance(v, (int, long)):
                ctx.fail('wrong-item', 'item %d is %r, should be %r' % (pos, v, items[pos]))
            if op == 'n':
                st[0] += 1
            else:
                st[1] += 1
        else:
            if op != 'g':
                raise PlanInvalid('op')
    # the rest arrives, once and in order
    for w, it in enumerate(its):
        if kind == 'flaky':
            src.fails.clear()
        rest = ctx.must('item-lost', list, it)
        if rest != items[state[w][0]:]:
            ctx.fail('wrong-item', 'the rest is %s, should be %s' % (short(rest), short(items[state[w][0]:])))
    ctx.stat('nontrivial')
