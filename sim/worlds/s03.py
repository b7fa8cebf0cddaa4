# S03: status reports over a lossy network, matched to submissions by reference and recipient
from common import *


def gen(rng, tier):
    n = rng.weighted([(4, rng.between(1, 6)), (3, rng.between(6, 30)), (1, rng.between(60, 90 if tier == 'quick' else 160))])
    few = [gen_number(rng) for _ in range(rng.between(1, 3))]
    ops = []
    for _ in range(n):
        coding = rng.weighted([(6, '7bit'), (1, '8bit'), (2, 'ucs2')])
        ops.append(dict(
            coding=coding, len=rng.weighted([(8, rng.between(0, 30)), (1, rng.between(161, 330))]),
            number=rng.choice(few) if rng.chance(80) else gen_number(rng),
            srr=rng.chance(75), ref=rng.n(256) if rng.chance(8) else None,
            status=rng.weighted([(5, 0), (2, 0x30), (1, 1), (1, 2), (1, 0x20), (1, 0x40), (1, 0x41), (1, 0x60), (1, rng.n(256)), (2, None)]),
            after=rng.loguniform(600000), q=gen_quarters(rng), q2=gen_quarters(rng), sri=rng.chance(80), more=rng.chance(50),
            copies=rng.weighted([(1, 0), (7, 1), (2, 2), (1, 3)]), void=rng.weighted([(12, ''), (2, 'dt'), (1, 'scts'), (1, 'both')]), tail=rng.weighted([(4, 0), (1, rng.n(8))]), kinds=gen_kinds(rng), late=rng.n(12), stored=rng.chance(15), again=rng.chance(10)))
    return dict(ops=ops, t0=gen_instant(rng), centre=gen_number(rng) if rng.chance(80) else None, zone=rng.choice(ZONES),
                reuse=rng.chance(40), mixin=rng.n(4), restart=[rng.n(60) for _ in range(rng.n(3))], shuffle=rng.n(1000))


def local(t, q):
    if t is None:
        return None
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + q * 900)


def run(plan, ctx):
    set_zone(plan.get('zone') or 'UTC')
    centre = valid_number(plan.get('centre'), True)
    t = plan.get('t0') or 946684800
    if not 946684800 <= t <= 3100000000:
        raise PlanInvalid('t0')
    queue = []          # (due step, serial, hex, truth)
    live = []           # submissions: number -> dict
    delivered_truth = set()
    shown = {}
    rx = [None]
    step = 0
    restarts = set(plan.get('restart') or [])
    ops = plan.get('ops') or []
    lib = ctx.lib

    def match(sms):
        """the application finds the message a report is about, among the last 90"""
        d = data_of(ctx, sms)
        sr = d.get('sr')
        if not isinstance(sr, dict):
            ctx.fail('not-a-report', 'sr is %r' % (sr,))
        ref = d.get('ref')
        c = getattr(field(ctx, sms, 'udh'), 'concat', None)
        if c is None or c.ref != ref:
            ctx.fail('wrong-reference', 'udh %r, data %r' % (c, ref))
        return [s for s in live[-90:] if s['ref'] == ref and s['number'] == sr.get('recipient')], sr, ref

    def arrive(item):
        due, num, hexpdu, truth = item
        if step in restarts:
            ctx.restart_rx()
            rx[0] = None
        ctx.log('report', num, repr(truth['status']))
        if plan.get('reuse') and rx[0] is not None:
            def again():
                rx[0].pdu = hexpdu
                return rx[0]
            sms = ctx.must('report-failed', again)
        else:
            sms = rx[0] = ctx.must('report-failed', ctx.rx.SmsDeliver, hexpdu)
        found, sr, ref = match(sms)
        if truth['ref'] != ref:
            ctx.fail('wrong-reference', 'report says %r, network wrote %r' % (ref, truth['ref']))
        if sr.get('recipient') != truth['number']:
            ctx.fail('wrong-recipient', 'report says %r, network wrote %r' % (sr.get('recipient'), truth['number']))
        if sr.get('status') != truth['status'] or (truth['status'] == 0 and sr.get('status') is not 0 and sr.get('status') != 0):
            ctx.fail('wrong-status', 'report says %r, network wrote %r' % (sr.get('status'), truth['status']))
        if truth['status'] is None and sr.get('status') is not None:
            ctx.fail('wrong-status', 'report says %r, network wrote none' % (sr.get('status'),))
        if sr.get('scts') != local(truth['scts'], truth['q']) or sr.get('dt') != local(truth['dt'], truth['q2']):
            ctx.fail('wrong-time', 'report says %r %r' % (sr.get('scts'), sr.get('dt')))
        d = data_of(ctx, sms)
        if field(ctx, sms, 'csca') != centre or d.get('csca') != centre:
            ctx.fail('wrong-centre', 'report says %r, network wrote %r' % (sms.csca, centre))
        if field(ctx, sms, 'type') != 0x03 or d.get('type') != 0x03:
            ctx.fail('wrong-type', 'type is %r' % (sms.type,))
        if field(ctx, sms, 'date') != sr.get('scts') or d.get('date') != sr.get('scts'):
            ctx.fail('wrong-time', 'date is %r' % (sms.date,))
        ok = truth['status'] == 0
        number = field(ctx, sms, 'number')
        if (number == 'SR-OK') != ok or d.get('number') != number:
            ctx.fail('false-delivery', 'status %r is shown as %r' % (truth['status'], number))
        if (number == 'SR-STORED') != (truth['status'] == 0x30):
            ctx.fail('wrong-status', 'status %r is shown as %r' % (truth['status'], number))
        if not isinstance(number, basestring) or not number.startswith('SR-'):
            ctx.fail('wrong-number', 'a report is shown as from %r' % (number,))
        fields = (field(ctx, sms, 'text') or '').split('|')
        want_dt = local(truth['dt'], truth['q2'])
        want_dt = want_dt.strftime('%y/%m/%d %H:%M:%S') if want_dt else ''
        want_scts = local(truth['scts'], truth['q'])
        want_scts = want_scts.strftime('%y/%m/%d %H:%M:%S') if want_scts else ''
        if len(fields) != 3 or fields[0] != truth['number'] or fields[1] != want_scts or \
                fields[2] not in ((want_dt,) if ok else ('', want_dt) if truth['status'] is None else ('',)):
            ctx.fail('wrong-text', 'text is %r' % (sms.text,))
        if [s['num'] for s in found] != [num]:
            ctx.fail('mismatched', 'report about message %d with reference %r to %s found messages %r among the last 90'
                     % (num, ref, truth['number'], [s['num'] for s in found]))
        if number == 'SR-OK':
            if num not in delivered_truth:
                ctx.fail('false-delivery', 'message %d shown as delivered' % num)
            shown[num] = True
        if sr.get('status') is None:
            ctx.fault('report_without_status')

    for i, op in enumerate(ops):
        step += 1
        n = op.get('len') or 0
        coding = op.get('coding')
        if coding not in FMT or not 0 <= n <= 400:
            raise PlanInvalid('op')
        text = {'7bit': u'a', '8bit': u'\xe9', 'ucs2': u'\u3042'}[coding] * n
        if coding == 'ucs2' and not n:
            text = u'\u3042'
        m = dict(coding=coding, text=text, number=op.get('number'), csca=centre, srr=op.get('srr'), ref=op.get('ref'))
        if m['ref'] is not None and [s for s in live[-110:] if s['ref'] == m['ref'] and s['number'] == m['number']]:
            m['ref'] = None      # the user would not choose one that is in use
        if coding == '8bit':
            m['number'] = m['number']
        sms, text = new_submit(ctx, m)
        ps = check_parts(ctx, m, text, pdus_of(ctx, 'submit-failed', sms))
        if op.get('again'):      # the phone was busy: the same message is handed over once more
            ps = check_parts(ctx, m, text, pdus_of(ctx, 'submit-failed', sms))
            ctx.fault('resubmission')
        for r in ps:
            if r['mr'] != ps[0]['mr']:
                ctx.fail('reference', 'parts of one message have message references %d and %d' % (ps[0]['mr'], r['mr']))
        mr = ps[0]['mr']
        if field(ctx, sms, 'ref') != mr:
            ctx.fail('reference', 'ref is %r, submitted %r' % (sms.ref, mr))
        if m['srr'] and m['ref'] is None:
            # a user's own choice may coincide with a later automatic one; nothing can be said about those
            for s in live[-90:]:
                if s['ref'] == mr and s['number'] == m['number'] and s['auto']:
                    ctx.fail('mismatched', 'messages %d and %d to %s both under way with reference %d' % (s['num'], i, m['number'], mr))
        # a chosen reference that meets an automatic one makes reports ambiguous by the user's doing
        clash = [s for s in live[-200:] if s['ref'] == mr and s['number'] == m['number'] and not (s['auto'] and m['ref'] is None)]
        live.append(dict(num=i, ref=mr, number=m['number'], auto=m['ref'] is None))
        if clash:
            for s in clash:
                s['ref'] = None
                queue[:] = [x for x in queue if x[1] != s['num']]
            live[-1]['ref'] = None
            continue
        if not m['srr']:
            continue
        ctx.stat('reports_requested')
        scts = t + i * 3
        dt = scts + (op.get('after') or 0)
        ctx.simtime += op.get('after') or 0
        if not op.get('copies'):
            ctx.fault('report_lost')
        states = []
        if op.get('stored'):
            states.append(0x30)
        states.append(op.get('status'))
        if op.get('status') == 0:
            delivered_truth.add(i)
        for st in states:
            if st is not None and not 0 <= st <= 255:
                raise PlanInvalid('status')
            q, q2 = op.get('q') or 0, op.get('q2') or 0
            v1, v2 = scts, dt
            if op.get('void') in ('scts', 'both'):
                v1 = None
                ctx.fault('void_time')
            if op.get('void') in ('dt', 'both'):
                v2 = None
                ctx.fault('void_time')
            hexpdu = tpdu.report(mr, m['number'], centre, v1, q, v2, q2, st, sri=bool(op.get('sri')), more=bool(op.get('more')),
                                 tail=natural(op.get('tail')), kinds=kinds_of(op))
            truth = dict(ref=mr, number=m['number'], status=st, scts=v1, dt=v2, q=q, q2=q2)
            for c in range(min(op.get('copies') or 0, 5)):
                if c:
                    ctx.fault('duplicate_report')
                late = (op.get('late') or 0) * (c + 1)
                if late > 2:
                    ctx.fault('late_report')
                queue.append((step + late, i, hexpdu, truth))
        ctx.token('%d/%s/%d' % (op.get('copies') or 0, op.get('status'), op.get('late') or 0))
        if plan.get('mixin') and i % (plan['mixin'] + 1) == plan['mixin']:
            udl, ud, udhi = tpdu.user_data('7bit', u'ping')
            other = ctx.must('receive-failed', ctx.rx.SmsDeliver, tpdu.deliver('+34600', centre, 0, scts, 0, udl, ud))
            check_deliver(ctx, other, dict(number='+34600', coding='7bit', text=u'ping', concat=None))
        due = [x for x in queue if x[0] <= step and x[1] >= i - 85]
        queue[:] = [x for x in queue if x[0] > step and x[1] >= i - 85]
        if (plan.get('shuffle') or 0) % 2:
            if len(due) > 1:
                ctx.fault('reorder')
            due.reverse()
        for x in due:
            arrive(x)
    last = len(ops)
    for x in sorted(queue, key=lambda x: ((x[0] * 7919 + (plan.get('shuffle') or 0)) % 101, x[1])):
        if x[1] >= last - 85:
            arrive(x)
    ctx.stat('nontrivial')
    ctx.stat('shown_delivered', len(shown))
