# S02: many messages of one process under way to the same receivers at once
from common import *
import threads

WINDOW = 95      # submissions during which parts may still arrive


def gen(rng, tier):
    long_run = rng.chance(6 if tier == 'quick' else 12)
    n = rng.between(130, 300) if long_run else rng.weighted([(3, rng.between(2, 5)), (4, rng.between(4, 20)), (2, rng.between(20, 60))])
    size = 2 if long_run else rng.choice([2, 2, 3, 4])
    mono = rng.chance(40)       # all the same number of parts, so that only references tell them apart
    batches = []
    left = n
    while left > 0:
        th = 1 if long_run else rng.weighted([(3, 1), (3, 2), (2, 3), (1, 4)])
        ops = []
        for _t in range(th):
            lst = []
            for _ in range(min(left, rng.between(1, 3) if th > 1 else rng.between(1, 8))):
                coding = rng.weighted([(5, '7bit'), (2, 'ucs2'), (2, '8bit')]) if not mono else '7bit'
                parts = size if mono or rng.chance(60) else rng.between(1, 4)
                lst.append(dict(coding=coding, parts=parts, dst=rng.n(2) if not mono else 0,
                                own=rng.n(256) if rng.chance(6) else None, ref=rng.n(256) if rng.chance(25) else None,
                                bad=rng.chance(5), again=rng.chance(8)))
                left -= 1
            ops.append(lst)
        batches.append(dict(ops=ops, rd=threads.gen_schedule(rng, th, [len(l) for l in ops], 370, False) if th > 1 else {},
                            arrive=[rng.n(1000) for _ in range(rng.between(0, 6 if long_run else 12))],
                            dup=rng.n(5), loss=rng.n(30)))
    return dict(batches=batches, heal=rng.chance(80), order=rng.choice(['fifo', 'lifo', 'mix']), zone=rng.choice(ZONES), skip=gen_skip(rng),
                salt=rng.n(1000))


OA = '+34600000001'
DST = ['+34611111111', '34611111111', '644444444']


def text_for(op, serial, salt):
    coding, parts = op.get('coding'), op.get('parts')
    if coding not in FMT or not isinstance(parts, (int, long)) or not 1 <= parts <= 8:
        raise PlanInvalid('parts')
    mark = u'#%d.%d|' % (serial, salt or 0)
    n = max_len(coding, parts) - 2 if parts > 1 else max_len(coding, 1)
    if coding == 'ucs2':
        mark = u'\u0448' + mark
    return (mark * (n // len(mark) + 1))[:n]


def run(plan, ctx):
    lib = ctx.lib.load('SmsSubmit', 'SmsDeliver')
    skip_references(ctx, lib, plan)
    serial = [0]
    pool = []           # parts under way: (message number, part index, parsed)
    sent = {}
    boxes = {}
    finished = {}
    owned = set()
    t = [tpdu.seconds(2015, 1, 1)]
    total = 0

    def send(m):
        """one submission, in whatever thread"""
        sms = lib.SmsSubmit(m['number'], to_lib_text(m['coding'], m['text'], False))
        if m.get('ref') is not None:
            sms.ref = m['ref']
        if m.get('rand_id') is not None:
            sms.rand_id = m['rand_id']
        if m['coding'] == '8bit':
            sms.fmt = 4
        outs = [sms.to_pdu()]
        if m['again']:
            outs.append(sms.to_pdu())
        return outs

    def refuse(m):
        sms = lib.SmsSubmit(m['number'], m['text'])
        sms.validity = datetime.timedelta(minutes=1)
        try:
            sms.to_pdu()
        except ValueError:
            return None
        return None

    def receive(part, why):
        num, k, r = part
        m = sent[num]
        t[0] += 7
        ctx.simtime += 7
        ctx.log('arrive', num, k, why)
        sms = ctx.must('receive-failed', lib.SmsDeliver, deliver_pdu(r, OA, None, t[0], 0))
        c = r['concat']
        check_deliver(ctx, sms, dict(number=OA, coding=r['coding'], text=unicode_of(r), concat=c))
        if c is None:
            finished[num] = finished.get(num, 0) + 1
            return
        key = (m['number'], sms.number, sms.udh.concat.ref, sms.udh.concat.cnt)
        if num in finished:
            return
        box = boxes.setdefault(key, {})
        for q in box:
            if box[q][0] != num:
                ctx.fail('mixed', 'parts of messages %d and %d to %s both have reference %d of %d parts'
                         % (box[q][0], num, key[0], key[2], key[3]))
        box[sms.udh.concat.seq] = (num, sms.text)
        if len(box) == key[3]:
            del boxes[key]
            text = join([box[q][1] for q in sorted(box)])
            if not same_text(m['coding'], text, m['text']):
                ctx.fail('mixed', 'reassembled %s, sent %s' % (brief(text), brief(m['text'])))
            finished[num] = 1

    def expire():
        lo = serial[0] - WINDOW
        n0 = len(pool)
        pool[:] = [p for p in pool if p[0] >= lo]
        ctx.fault('loss', n0 - len(pool)) if n0 > len(pool) else None
        for key in boxes.keys():
            box = boxes[key]
            if [1 for q in box if box[q][0] < lo]:
                del boxes[key]

    for b in plan.get('batches') or []:
        bodies, metas = [], []
        for lst in b.get('ops') or []:
            work = []
            for op in lst or []:
                m = dict(coding=op.get('coding'), text=text_for(op, total, plan.get('salt')), again=bool(op.get('again')),
                         ref=op.get('ref'), bad=bool(op.get('bad')))
                if m['ref'] is not None and not 0 <= m['ref'] <= 255:
                    raise PlanInvalid('ref')
                if op.get('own') is not None:
                    if op['own'] in owned or not 0 <= op['own'] <= 255:
                        continue
                    owned.add(op['own'])
                    m.update(number=DST[2], rand_id=op['own'], again=False)
                else:
                    m.update(number=DST[(op.get('dst') or 0) % 2], rand_id=None)
                m['text'] = valid_text(m['coding'], m['text'])
                total += 1
                work.append(m)
            if work:
                metas.append(work)

                def body(work=work):
                    res = []
                    for m in work:
                        if SimLock_sched():
                            SimLock_sched().freshen()
                        if m['bad']:
                            refuse(m)
                        res.append(send(m))
                    return res
                bodies.append(body)
        if not bodies:
            continue
        if len(bodies) > 8 or sum([len(w) for w in metas]) > 12:
            raise PlanInvalid('batch')
        if len(bodies) == 1:
            out = [('ok', ctx.must('submit-failed', bodies[0]))]
            ctx.token('s%d' % len(metas[0]))
        else:
            out, sched = threads.run(ctx, bodies, **threads.round_of(b.get('rd') or {}, None))
            ctx.stat('threaded_batches')
        ctx.stat('nontrivial')
        for w, (st, val) in zip(metas, out):
            if st != 'ok':
                ctx.fail('submit-failed', 'raised %s: %s' % (core.exc_name(val), core.str_exc(val)))
            for m, outs in zip(w, val):
                for lst in outs:
                    num = serial[0]
                    serial[0] += 1
                    ps = check_parts(ctx, m, m['text'], read_pdus(ctx, lst))
                    sent[num] = m
                    ctx.stat('messages')
                    for k, r in enumerate(ps):
                        pool.append((num, k, r))
                if m['bad']:
                    serial[0] += 1      # a refused submission may use up a reference
                    ctx.fault('refused_submission')
        expire()
        dup, loss = b.get('dup') or 0, b.get('loss') or 0
        for x in b.get('arrive') or []:
            if not pool:
                break
            i = x % len(pool)
            if plan.get('order') == 'fifo':
                i = x % min(len(pool), 3)
            elif plan.get('order') == 'lifo':
                i = len(pool) - 1 - x % min(len(pool), 5)
            part = pool[i]
            if i:
                ctx.fault('reorder')
            if loss and x % 31 < loss // 6:
                del pool[i]
                ctx.fault('loss')
                ctx.token('l')
                continue
            if dup and x % 7 < dup:
                ctx.fault('duplicate')       # the network will deliver it again
            else:
                del pool[i]
            ctx.token('%d.%d' % (serial[0] - part[0], part[1]))
            receive(part, 'now')
    if plan.get('heal'):
        n = len(pool)
        while pool:
            i = {'fifo': 0, 'lifo': len(pool) - 1}.get(plan.get('order'), (n * 7 + len(pool) * 5) % len(pool))
            receive(pool.pop(i), 'healed')
        lost = ctx.faults.get('loss', 0)
        if not lost:
            for num in sent:
                if num not in finished:
                    ctx.fail('incomplete', 'all parts of message %d arrived and it is not complete' % num)


def SimLock_sched():
    return core.SimLock.sched
