# S01: messages over a network that loses, duplicates, delays and reorders parts
from common import *


def gen(rng, tier):
    deep = tier == 'thorough'
    msgs = []
    for _ in range(rng.weighted([(5, 1), (3, 2), (1, 3)])):
        coding = rng.weighted([(5, '7bit'), (2, '8bit'), (4, 'ucs2')])
        if rng.chance(1, 60 if not deep else 100):
            parts = rng.choice([255, 254, 223, 217, 224, 216, 129, 128, 127, 200, rng.between(10, 255)])
            n = max_len(coding, parts) - (rng.n(3) if coding != '7bit' else rng.n(3) + 3 * parts // 2 * rng.n(2))
            text = gen_chars(rng, coding, n)
            while parts_needed(coding, text) > 255:
                text = text[:-200]
        else:
            text = gen_text(rng, coding, rng.choice([2, 3, 5, 9]) + (8 if deep and rng.chance(20) else 0))
        if coding == 'ucs2' and tpdu.is_gsm(text):
            text = text + u'\u3042'
        k = parts_needed(coding, text)
        m = dict(coding=coding, text=text, number=gen_number(rng),
                 csca=gen_number(rng) if rng.chance(50) else None,
                 klass=rng.n(4) if rng.chance(30) else None,
                 srr=rng.chance(20), ref=rng.n(256) if rng.chance(30) else None,
                 rand_id=rng.n(256) if rng.chance(40) else None, fmt=rng.chance(25), plain=rng.chance(50),
                 oa=gen_number(rng), centre=gen_number(rng) if rng.chance(90) else None, kinds=gen_kinds(rng), pid=rng.weighted([(4, 0), (1, 0x41), (1, rng.n(256))]))
        if msgs and rng.chance(50):
            m = dict(twin_message(rng, rng.choice(msgs)), oa=m['oa'], centre=m['centre'], kinds=m['kinds'])
            if rng.chance(50):
                m['oa'] = twin_number(rng, msgs[0]['oa'])
            k = parts_needed(m['coding'], m['text'])
        first = []
        mode = rng.n(5)
        for _i in range(min(rng.between(0, 2 * k + 1), 40)):
            first.append(rng.n(k))
        if mode == 0:
            first = range(min(k, 40))
        elif mode == 1:
            first = range(min(k, 40))[::-1]
        m['first'] = first
        m['rot'] = rng.n(k)
        m['back'] = rng.chance(30)
        msgs.append(m)
    n = sum([len(m['first']) for m in msgs])
    odd = []
    if rng.chance(20):
        c = rng.choice(['8bit', '8bit', '7bit', 'long'])
        if c == 'long':
            c = rng.choice(['7bit', '8bit', 'ucs2'])
            odd.append([c, u'', max_len(c, 255) + rng.choice([1, 1, 2, 160, rng.n(9000)])])
        else:
            t = gen_text(rng, c, 3)
            i = rng.n(len(t) + 1)
            odd.append([c, t[:i] + rng.choice([u'\u0100', u'\u01ff', u'\u0434', u'\u3042', u'\uff00']) + t[i:], 0])
    return dict(msgs=msgs, odd=odd, mix=[rng.n(len(msgs)) for _ in range(n)], t0=gen_instant(rng), quarters=gen_quarters(rng),
                gaps=[rng.loguniform(200000) for _ in range(8)], zone=rng.choice(ZONES), reuse=rng.chance(40),
                restart=sorted([rng.n(40) for _ in range(rng.weighted([(3, 0), (2, 1), (1, 3)]))]))


def refused(ctx, odd):
    """a text that the coding asked for, or the number of parts, has no room for"""
    if not isinstance(odd, list) or len(odd) != 3 or odd[0] not in FMT or not isinstance(odd[1], basestring) or not isinstance(odd[2], int):
        raise PlanInvalid('odd')
    coding, text, n = odd[0], unicode(odd[1]), odd[2]
    if n:
        if not max_len(coding, 255) < n < 60000:
            raise PlanInvalid('odd')
        text = (u'\u3042' if coding == 'ucs2' else u'x') * n
    elif coding == 'ucs2' or not [c for c in text if ord(c) > 255 and (coding == '8bit' or not tpdu.is_gsm(c))] or len(text) > 5000:
        raise PlanInvalid('odd')
    sms = ctx.must('submit-refused', ctx.lib.SmsSubmit, '+34600000000', str(text) if n and coding == '8bit' else text)
    sms.fmt = FMT[coding]
    st, v = ctx.call(sms.to_pdu)
    if st == 'ok':
        ctx.fail('not-refused', 'a text that does not fit became %d parts' % len(v))
    if not isinstance(v, Exception):
        ctx.fail('fatal', core.exc_name(v))
    ctx.fault('refused_submission')
    ctx.token('odd')


def run(plan, ctx):
    set_zone(plan.get('zone') or 'UTC')
    t = plan.get('t0') or 0
    q = plan.get('quarters') or 0
    if not 946684800 <= t <= 3155760000 or not -79 <= q <= 79:
        raise PlanInvalid('time')
    for x in plan.get('odd') or []:
        refused(ctx, x)
    restarts = set(plan.get('restart') or [])
    state = []
    for i, m in enumerate(plan.get('msgs') or []):
        valid_number(m.get('oa'))
        valid_number(m.get('centre'), True)
        sms, text = new_submit(ctx, m)
        pdus = pdus_of(ctx, 'submit-failed', sms)
        ps = check_parts(ctx, m, text, pdus)
        state.append(dict(m=m, text=text, ps=ps, got={}, queue=[x % len(ps) for x in (m.get('first') or [])], inbox=Inbox(),
                          sent=set()))
        ctx.log('submit', i, m['coding'], len(text), 'parts', len(ps))
        ctx.token('%s%d' % (m['coding'], len(ps)))
        ctx.stat('messages')
        ctx.stat('parts', len(ps))
        if len(ps) > 1:
            ctx.stat('nontrivial')
    rx = None
    clock = [t, 0]

    def arrive(i, k, phase):
        s = state[i]
        r = s['ps'][k]
        ctx.log('arrive', i, k, phase)
        gaps = plan.get('gaps') or [1]
        g = gaps[clock[1] % len(gaps)]
        clock[0] += g
        if clock[0] > 3155760000 - 90000:
            clock[0] = t
        ctx.simtime += g
        clock[1] += 1
        if clock[1] in restarts:
            ctx.restart_rx()
            rx_box[0] = None
        if k in s['sent']:
            ctx.fault('duplicate')
        elif s['sent'] and k < max(s['sent']) or (not s['sent'] and k):
            ctx.fault('reorder')
        if g > 3600:
            ctx.fault('delay')
        s['sent'].add(k)
        hexpdu = deliver_pdu(r, s['m']['oa'], s['m'].get('centre'), clock[0], q, more=bool(clock[1] % 2), kinds=kinds_of(s['m']))
        if plan.get('reuse') and rx_box[0] is not None:
            def again():
                rx_box[0].pdu = hexpdu
                return rx_box[0]
            sms = ctx.must('receive-failed', again)
        else:
            sms = rx_box[0] = ctx.must('receive-failed', ctx.rx.SmsDeliver, hexpdu)
        check_deliver(ctx, sms, dict(number=s['m']['oa'], csca=s['m'].get('centre'), dcs=r['dcs'], pid=r['pid'],
                                     date=utc(clock[0]), coding=r['coding'], text=unicode_of(r), concat=r['concat']))
        done = s['inbox'].take(ctx, sms)
        if done is not None and not s.get('done'):
            s['done'] = True
            if not same_text(r['coding'], done[1], s['text']):
                ctx.fail('wrong-text', 'reassembled %s, submitted %s' % (brief(done[1]), brief(s['text'])))
            if len(s['sent']) != len(s['ps']):
                ctx.fail('wrong-count', 'complete after %d of %d parts' % (len(s['sent']), len(s['ps'])))
        elif done is not None and len(s['ps']) > 1 and len(s['sent']) != len(s['ps']):
            ctx.fail('wrong-count', 'complete twice')
        ctx.token('%d.%d' % (i, k) if len(s['ps']) < 12 else '%d.x' % i)

    rx_box = [rx]
    for i in plan.get('mix') or []:
        if state and state[i % len(state)]['queue']:
            i %= len(state)
            arrive(i, state[i]['queue'].pop(0), 'faulty')
    # faults stop: what was lost or late arrives
    for i, s in enumerate(state):
        n = len(s['ps'])
        lost = [k for k in range(n) if k not in s['sent']]
        if lost:
            ctx.fault('loss_then_resend', len(lost))
        rot = (s['m'].get('rot') or 0) % n
        lost = [k for k in range(rot, n) if k in lost] + [k for k in range(rot) if k in lost]
        if s['m'].get('back'):
            lost.reverse()
        for k in lost:
            arrive(i, k, 'healed')
        if not s.get('done'):
            ctx.fail('incomplete', 'all %d parts arrived and the message is not complete' % n)
