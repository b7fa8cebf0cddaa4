# -*- coding: utf-8 -*-
# W01: MMS messages announced by WAP push, fetched over a failing transport, acknowledged
import common
from mmsgen import *
from m05 import Source, ERRORS
import tpdu
import threads

PORTS = [5, [0x0b, 0x84, 0x23, 0xf0]]
SI = u'\x02\x05\x6a\x00\x45\xc6\x0c\x03example.org/x\x00\x01\x03A thing\x00\x01\x01'
# WSP units that are no Push (connection units, methods, replies); 7 is the confirmed push
OTHER_PDUS = [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x09, 0x0e, 0x16, 0x26, 0x40, 0x46, 0x50, 0x60, 0x61, 0x66, 0x86, 0xc6, 0xff]
SL = u'\x02\x06\x6a\x00\x85\x08\x03example.org/x\x00\x01'


def gen_push_head(rng):
    """the WSP push header of an MMS notification as different centres write it"""
    return dict(tid=rng.n(256), ct=rng.choice(['text', 'text', 'short', 'general']), app=rng.choice([0, 1, 2]), extra=rng.n(4))


def push(head, body, ct='application/vnd.wap.mms-message'):
    n = wsp.CT_NUM[ct]
    form = head.get('ct')
    if form == 'short':
        h = [0x80 | n]
    elif form == 'general':
        h = [3, 0x80 | n, 0x81, 0xea]
    else:
        h = wsp.octs(ct) + [0]
    if head.get('app') == 1:
        h += [0xaf, 0x84]
    elif head.get('app') == 2:
        h += [0xaf] + wsp.octs('x-wap-application:mms.ua') + [0]
    if (head.get('extra') or 0) & 1:
        h += [0xb4, 0x84]                                # Push-Flag
    if (head.get('extra') or 0) & 2:
        h += [0x8d, 0x90]                                # Content-Length
    return [(head.get('tid') or 0) & 255, 6] + wsp.uintvar(len(h)) + h + list(body)


def gen(rng, tier):
    msgs = []
    for i in range(rng.weighted([(3, 1), (4, 2), (3, 3), (1, 6)])):
        n = gen_foreign(rng, kind='notify')
        n['hdrs'] = [h for h in n['hdrs'] if h[0] not in ('Content-Location', 'Transaction-Id', 'Message-Type')]
        n['ct'], n['parts'] = None, []
        if 'From' not in [h[0] for h in n['hdrs']]:
            n['hdrs'].append(['From', gen_field(rng, 'From')])
        if rng.chance(12):
            # a sender without a name
            n['hdrs'] = [[h[0], dict(h[1], t=u'') if h[0] == 'From' and h[1] else h[1]] for h in n['hdrs']]
        own = None
        if rng.chance(40):
            own = gen_composed(rng, False, False)
            own['parts'] = [x for x in own['parts'] if not x.get('file')]
        msgs.append(dict(note=n['hdrs'], pos=[rng.n(20), rng.n(20)], head=gen_push_head(rng), tid=rng.choice([u'', gen_token(rng), gen_str(rng)]),
                         loc=gen_token(rng), size=rng.choice([60, 90, 120, 0]), wide=rng.chance(50), number=common.gen_number(rng),
                         coding=rng.choice([0x04, 0x04, 0xf5, 0xf6, 0x15]),
                         comp=own,
                         msg=None if own else gen_foreign(rng, kind='retrieve')))
        if i and rng.chance(40):
            # much like one before
            old = rng.choice(msgs[:-1])
            tw = twin_foreign(rng, dict(hdrs=old['note'], ct=None, parts=[]))['hdrs']
            msgs[-1].update(note=tw, number=common.twin_number(rng, old['number']) if rng.chance(30) else old['number'], loc=old['loc'], tid=old['tid'],
                            comp=old['comp'] and twin_composed(rng, old['comp']), msg=old['msg'] and twin_foreign(rng, old['msg']))
    ops = []
    for _ in range(rng.between(3, 24 if tier == 'quick' else 50)):
        k = rng.n(20)
        if k < 4:
            ops.append(dict(op='announce', i=rng.n(len(msgs))))
        elif k < 5:
            ops.append(dict(op='text', v=rng.choice([u'hi', u'a\x06b', u'\x01\x06\x03\xbe\xaf\x84', u'\x00\x06\x00', u'\x06', u'', rng.bytes(rng.n(60)).decode('latin-1'),
                                                    u'\x01\x06' + rng.bytes(rng.n(40)).decode('latin-1')]), bits=rng.choice([7, 8, 8]), number=rng.n(len(msgs))))
        elif k < 6:
            ops.append(dict(op='push', pdu=rng.n(len(OTHER_PDUS)) if rng.chance(40) else None, what=rng.choice(['notice', 'si', 'sl', 'delivery', 'readorig', 'empty']), head=gen_push_head(rng), number=rng.n(len(msgs)),
                            ref=rng.n(65536)))
        elif k < 14:
            ops.append(dict(op='net', x=rng.n(1000), dup=rng.chance(15), lose=rng.chance(8), reuse=rng.chance(50)))
        elif k < 17:
            ops.append(dict(op='fetch', x=rng.n(100), how=rng.n(4), at=rng.n(100000) if rng.chance(60) else None,
                            err=rng.choice([None] + sorted(ERRORS)), times=rng.choice([1, 1, 2, 9])))
        elif k < 18:
            ops.append(dict(op='ack', x=rng.n(100), status=rng.choice(['Retrieved', 'Retrieved', 'Deferred', 'Rejected', 'Expired'])))
        elif k < 19:
            ops.append(dict(op='restart'))
        else:
            n = rng.between(2, 3)
            ops.append(dict(op='together', x=rng.n(100), n=n, rd=threads.gen_schedule(rng, n, [1] * n, 450, False)))
    return dict(msgs=msgs, ops=ops, ref=rng.n(65536), t0=common.gen_instant(rng), q=common.gen_quarters(rng))


def run(plan, ctx):
    t = [plan.get('t0') or 0]
    q = plan.get('q') or 0
    if not 946771200 <= t[0] <= 3155600000 or not -79 <= q <= 79:
        raise PlanInvalid('time')
    msgs = []
    for i, m in enumerate(plan.get('msgs') or []):
        loc = 'http://mmsc/%s?%d' % (S(m.get('loc') or u''), i)
        tid = 'T%d-%s' % (i, valid_str(m.get('tid') or u''))
        hs = [h for h in deep(m.get('note') or []) if h[0] not in ('Content-Location', 'Transaction-Id', 'Message-Type')]
        if 'From' not in [h[0] for h in hs]:
            hs.append(['From', None])
        for p, h in zip(m.get('pos') or [0, 0], (['Transaction-Id', tid], ['Content-Location', loc])):
            hs.insert(p % (len(hs) + 1), h)
        spec = valid_foreign(dict(hdrs=[['Message-Type', 0x82]] + hs, ct=None, parts=[]))
        size = m.get('size') or 128
        if not isinstance(size, int) or not 1 <= size <= 128:
            raise PlanInvalid('size')
        e = dict(spec=spec, tid=tid, loc=loc, want=want_of(spec), number=common.valid_number(m.get('number')), coding=m.get('coding'), state='new',
                 ref=plan.get('ref') or 0, wide=bool(m.get('wide')), size=size, acks=0)
        if e['coding'] not in (0x04, 0xf5, 0xf6, 0x15) or not isinstance(e['ref'], int) or not 0 <= e['ref'] < 65536:
            raise PlanInvalid('coding')
        e['ref'] += i
        body = wsp.message(spec)[0]
        e['push'] = push(m.get('head') or {}, body)
        if m.get('comp') is not None:
            c = valid_composed(m['comp'])
            if [p for p in (c.get('pages') or []) if p.get('image') or p.get('audio')] or [p for p in c.get('parts') or [] if p.get('file')]:
                raise PlanInvalid('files')
            mms, mod = build(ctx, None, c)
            o = octets_of(ctx, ctx.must('encode-failed', mms.encode))
            r = check_wire(ctx, o, mod)
            e.update(octets=o, r=r, mod=mod, sent_tid=dict(r['hdrs']).get('Transaction-Id'))
        else:
            f = valid_foreign(m.get('msg') or {})
            o, he, pe = wsp.message(f)
            r = dict(hdrs=[(n, wsp.value_of(n, v)) for n, v in f['hdrs']], ct=None, parts=[], hends=he, pends=pe)
            if f.get('ct') is not None:
                r['ct'] = (f['ct']['v'], wsp.params_of(f['ct']))
                r['parts'] = [(p['ct']['v'], wsp.params_of(p['ct']), [tuple(h) for h in p.get('hdrs') or []], p['data']) for p in f['parts']]
            e.update(octets=o, r=r, mod=None, full=want_of(f))
        msgs.append(e)
    if not msgs:
        raise PlanInvalid('msgs')
    if len(set([m['loc'] for m in msgs])) != len(msgs):
        raise PlanInvalid('locations')
    by_loc = dict([(m['loc'], m) for m in msgs])
    flying = []
    boxes = {}
    known = {}          # the application: tid -> dict(note, got, acked)
    order = []
    kept = {}
    serial = [0]

    def carry(number, octets_, what, dcs, ref, wide, size, ports=True):
        """the service centre splits the data over as many short messages as it takes"""
        els0 = [list(PORTS)] if ports else []
        hl = 1 + 6 * len(els0) + (6 if wide else 5)
        chunk = min(size, 140 - hl)
        if len(octets_) <= 140 - 1 - 6 * len(els0) and not (len(octets_) > size and size > 20):
            chunks = [octets_]
        else:
            chunk = max(chunk, (len(octets_) + 254) // 255)
            chunks = [octets_[k:k + chunk] for k in range(0, len(octets_), chunk)]
        serial[0] += 1
        if len(chunks) > 255:
            raise PlanInvalid('too long')
        for k, c in enumerate(chunks):
            els = list(els0)
            if len(chunks) > 1:
                els.insert(k % 2, [8, [ref >> 8 & 255, ref & 255, len(chunks), k + 1]] if wide else [0, [ref & 255, len(chunks), k + 1]])
            udl, ud, udhi = tpdu.user_data('8bit', wsp.chars(c).decode('latin-1'), els)
            flying.append(dict(number=number, dcs=dcs, udl=udl, ud=ud, udhi=udhi, what=what, text=wsp.chars(c)))

    def arrive(f, reuse):
        t[0] += 2
        ctx.simtime += 2
        h = tpdu.deliver(f['number'], None, f['dcs'], t[0], q, f['udl'], f['ud'], udhi=f['udhi'])
        if reuse and 'sms' in kept:
            sms = kept['sms']
            ctx.must('receive-failed', setattr, sms, 'pdu', h)
        else:
            sms = kept['sms'] = ctx.must('receive-failed', ctx.rx.SmsDeliver, h)
        text = field(ctx, sms, 'text')
        udh = field(ctx, sms, 'udh')
        c = getattr(udh, 'concat', None) if udh is not None else None
        if not isinstance(text, str):
            return None             # an ordinary text; nothing to do with pushes
        if c is None:
            return text
        key = (field(ctx, sms, 'number'), c.ref, c.cnt)
        box = boxes.setdefault(key, {})
        box[c.seq] = text
        if sorted(box) != range(1, c.cnt + 1):
            return None
        del boxes[key]
        return ''.join([box[k] for k in sorted(box)])

    def understand(data, lib):
        """what an application makes of data: a notification or None"""
        if not lib.wap.is_a_wap_push_notification(data):
            return None
        try:
            p = lib.wap.extract_push_notification(data)
        except Exception:
            return None
        return p if lib.wap.is_mms_notification(p) else None

    def note(data, what, res):
        st, p = res
        if st != 'ok':
            ctx.fail('not-recognised', '%s: %s %s' % (what, core.exc_name(p), core.str_exc(p)))
        if not isinstance(what, int):
            if what == 'unit' and ctx.rx.load('wap').wap.is_a_wap_push_notification(data):
                ctx.fail('false-notification', 'a WSP unit of type %#x is taken for a push' % ord(data[1]))
            if p is not None:
                ctx.fail('false-notification', '%s %s taken for the notification %s' % (what, short(data), short(dict(p.headers))))
            ctx.stat('others_told_apart')
            return
        m = msgs[what]
        if data != wsp.chars(m['push']):
            ctx.fail('wrong-text', 'the push is %s, sent %s' % (short(data), short(wsp.chars(m['push']))))
        if p is None:
            ctx.fail('not-recognised', 'notification %s' % short(data))
        compare(ctx, look(ctx, p), m['want'])
        tid = p.headers['Transaction-Id']
        if tid in known:
            ctx.stat('repeated_notifications')
            known[tid]['note'] = p
            return
        known[tid] = dict(note=p, got=False, acked=False)
        order.append(tid)
        ctx.stat('notifications')

    def receive(f, reuse):
        data = arrive(f, reuse)
        ctx.log('arrive', f['what'], data is not None)
        ctx.token('%s' % f['what'])
        if data is not None:
            lib = ctx.rx.load('wap')
            note(data, f['what'], ctx.call(understand, data, lib))

    def verify(m, mms):
        if m['mod'] is not None:
            check_lib(ctx, mms, m['mod'], m['sent_tid'])
        else:
            compare(ctx, look(ctx, mms), m['full'])

    def fetch(tid, op):
        k = known[tid]
        loc = k['note'].headers['Content-Location']
        m = by_loc.get(loc)
        if m is None:
            ctx.fail('wrong-location', 'nothing was deposited at %r' % (loc,))
        if m['tid'] != tid:
            ctx.fail('wrong-id', '%r announced as %r' % (m['tid'], tid))
        o = m['octets']
        at = op.get('at')
        err = op.get('err')
        how = (op.get('how') or 0) % 4
        lib = ctx.rx.load('MMSMessage', 'MMSDecoder')
        dec = kept.setdefault('dec', lib.MMSDecoder()) if how & 1 else lib.MMSDecoder()
        if at is None:
            src = to_array(o)
        elif err is None:
            src = to_array(o[:at % (len(o) + 1)])
            ctx.fault('transport_cut')
        else:
            if err not in ERRORS or not isinstance(op.get('times'), int) or op['times'] < 1:
                raise PlanInvalid('err')
            src = Source(o, at % (len(o) + 1), err, op['times'])
        st, v = ctx.call(dec.decode_data if how < 2 else lib.MMSMessage.from_data, src)
        if isinstance(src, Source) and src.raised:
            ctx.fault('transport_failure')
            if st == 'ok':
                ctx.fail('error-lost', 'the transport failed with %s at octet %d of %d and a message came out' % (err, src.k, len(o)))
            return False
        n = len(src) if at is not None and err is None else len(o)
        if st == 'exc':
            if n >= len(o):
                ctx.fail('decode-failed', 'complete message: %s %s' % (core.exc_name(v), core.str_exc(v)))
            return False
        if n < len(o):
            check_cut(ctx, v, m['r'], n)
            return False
        verify(m, v)
        k['got'] = True
        ctx.stat('fetched')
        return True

    def acknowledge(tid, status):
        k = known[tid]
        if status not in wsp.TOKENS['status'].values():
            raise PlanInvalid('status')
        lib = ctx.rx.load('MMSMessage')
        a = lib.MMSMessage()
        hs = {'Message-Type': 'm-notifyresp-ind', 'Transaction-Id': k['note'].headers['Transaction-Id'], 'Status': status}
        a.headers.update(hs)
        mod = Model()
        mod.hdrs.update(hs)
        o = octets_of(ctx, ctx.must('encode-failed', a.encode))
        r = check_wire(ctx, o, mod)
        got = dict(r['hdrs'])['Transaction-Id']
        for m in msgs:
            if m['tid'] == got:
                m['acks'] += 1
                if m['tid'] != tid or m['acks'] > 1:
                    ctx.fail('wrong-id', 'acknowledged %r instead of %r' % (got, tid))
                break
        else:
            ctx.fail('wrong-id', 'acknowledged %r, which was never announced' % (got,))
        k['acked'] = True
        ctx.stat('acknowledged')

    def announce(i):
        m = msgs[i]
        carry(m['number'], m['push'], i, m['coding'], m['ref'], m['wide'], m['size'])

    def pending(what):
        return [x for x in order if not known[x][what]]

    for k_op, op in enumerate(plan.get('ops') or []):
        k = op.get('op')
        if k == 'announce':
            if len(flying) < 60:
                announce((op.get('i') or 0) % len(msgs))
        elif k == 'text':
            v = S(op.get('v') or u'')
            if op.get('bits') == 8:
                carry(msgs[(op.get('number') or 0) % len(msgs)]['number'], wsp.octs(v), 'text', 4, 0, False, 128, False)
            else:
                v = v.decode('latin-1')
                if not tpdu.is_gsm(v):
                    v = u'text'
                udl, ud, udhi = tpdu.user_data('7bit', v[:70])
                flying.append(dict(number=msgs[0]['number'], dcs=0, udl=udl, ud=ud, udhi=udhi, what='text', text=v))
        elif k == 'push':
            what = op.get('what')
            if what in ('si', 'sl'):
                body = wsp.octs((SI if what == 'si' else SL).encode('latin-1'))
                ct = 'application/vnd.wap.sic' if what == 'si' else 'application/vnd.wap.slc'
            elif what in ('delivery', 'readorig', 'empty', 'notice'):
                hs = dict(delivery=[['Message-Type', 0x86], ['MMS-Version', '1.0'], ['Message-ID', 'm1'], ['To', dict(t='+34600/TYPE=PLMN')],
                                    ['Date', 1300000000], ['Status', 0x81]],
                          readorig=[['Message-Type', 0x88], ['MMS-Version', '1.1'], ['Message-ID', 'm1'], ['From', dict(t='+34600/TYPE=PLMN')],
                                    ['To', dict(t='+34601/TYPE=PLMN')], ['Date', 1300000000]], empty=[], notice=None)[what]
                body = wsp.message(dict(hdrs=hs, ct=None, parts=[]))[0] if hs is not None else wsp.message(msgs[(op.get('number') or 0) % len(msgs)]['spec'])[0]
                ct = 'application/vnd.wap.mms-message'
            else:
                raise PlanInvalid('what')
            ctx.fault('other_push')
            unit = push(op.get('head') or {}, body, ct)
            if what == 'notice' or op.get('pdu') is not None:
                # another kind of WSP unit, whatever it carries
                unit[1] = OTHER_PDUS[common.natural(op.get('pdu')) % len(OTHER_PDUS)]
                what = 'unit'
            carry(msgs[(op.get('number') or 0) % len(msgs)]['number'], unit, what, 4, (plan.get('ref') or 0) + 100 + k_op, False, 128)
        elif k == 'net':
            if not flying:
                continue
            i = (op.get('x') or 0) % len(flying)
            if i:
                ctx.fault('reorder')
            if op.get('lose'):
                ctx.fault('loss')
                flying.pop(i)
                continue
            f = flying[i]
            if op.get('dup'):
                ctx.fault('duplicate')
            else:
                flying.pop(i)
            receive(f, op.get('reuse'))
        elif k == 'fetch':
            p = pending('got')
            if p:
                ok = fetch(p[(op.get('x') or 0) % len(p)], op)
                ctx.token('f%d' % ok)
                ctx.log('fetch', ok)
        elif k == 'ack':
            p = [x for x in pending('acked') if known[x]['got'] or op.get('status') != 'Retrieved']
            if p:
                acknowledge(p[(op.get('x') or 0) % len(p)], op.get('status'))
                ctx.token('a')
                ctx.log('ack', op.get('status'))
        elif k == 'restart':
            ctx.restart_rx()
            kept.clear()
            # what the application keeps is what it wrote down
        elif k == 'together':
            n = op.get('n')
            if n not in (2, 3):
                raise PlanInvalid('n')
            lib = ctx.rx.load('wap', 'MMSMessage', 'MMSDecoder', 'MMSEncoder')
            jobs, bodies = [], []
            for j in range(n):
                m = msgs[((op.get('x') or 0) + j) % len(msgs)]
                if j % 2 == 0:
                    bodies.append(lambda m=m: understand(wsp.chars(m['push']), lib))
                else:
                    bodies.append(lambda m=m: lib.MMSMessage.from_data(to_array(m['octets'])))
                jobs.append(m)
            out, sched = threads.run(ctx, bodies, **threads.round_of(op.get('rd') or {}, None))
            for j, (m, (st, v)) in enumerate(zip(jobs, out)):
                if st != 'ok':
                    ctx.fail('decode-failed', 'in a thread: %s %s' % (core.exc_name(v), core.str_exc(v)))
                if j % 2 == 0:
                    if v is None:
                        ctx.fail('not-recognised', 'in a thread: %s' % short(wsp.chars(m['push'])))
                    compare(ctx, look(ctx, v), m['want'])
                else:
                    verify(m, v)
            ctx.stat('threaded')
        else:
            raise PlanInvalid('op')
    # the network and the transport recover; the centre repeats what was not acknowledged
    for f in list(flying):
        receive(f, False)
    del flying[:]
    for i, m in enumerate(msgs):
        if m['tid'] not in known:
            announce(i)
            for f in list(flying):
                receive(f, True)
            del flying[:]
            if m['tid'] not in known:
                ctx.fail('not-recognised', 'message %d was announced and nobody knows' % i)
    for tid in pending('got'):
        if not fetch(tid, {}):
            ctx.fail('decode-failed', 'message %r' % tid)
    for tid in pending('acked'):
        acknowledge(tid, 'Retrieved')
    for m in msgs:
        if m['acks'] != 1:
            ctx.fail('wrong-id', '%r acknowledged %d times' % (m['tid'], m['acks']))
    ctx.stat('nontrivial')
