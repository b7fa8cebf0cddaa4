#!/usr/bin/python3
"""writes sim/meta.json, sim/budgets.json and MANIFEST.json from the tables below"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

RULE = ('one run per seed index; a run is one generated plan executed to its end. A run counts as non-trivial when it '
        'injected at least one fault or went through at least one multi-step exchange; two runs are distinct when the '
        'sequence of operations, message fates and thread switches they went through differs. ')
SMS = ['messaging.sms (SmsSubmit, SmsDeliver, base, pdu, udh, consts, gsm0338)', 'messaging.utils']
MMS = ['messaging.mms (MMSMessage, MMSMessagePage, DataPart, MMSEncoder, MMSDecoder, WSP encoder and decoder, PreviewIterator)',
       'messaging.utils']
NET = 'radio network and service centre: sim/tpdu.py, an independent 3GPP 23.040 model that parses SUBMIT and writes DELIVER and STATUS-REPORT PDUs'
CLK = 'clock and time zone of every host (time module, JVM default zone)'
LCK = 'locks (threading, thread): waiting happens in simulated time'
SCH = 'thread scheduler: real threads, one runs at a time, switches only at points chosen by the plan'
WSP = 'other MMS clients and centres: sim/wsp.py, an independent encoder and strict decoder of WAP-209/WAP-230'
RND = 'random module: seeded for each run'
DSK = 'disk: files in a scratch directory; open, read, write, flush, close and stat go through a seam that fails, shortens or tears them'
MIM = 'mimetypes: the built-in table, not the files of the host'

# id -> (what a run is, real, stubs, level note, quick count, thorough seconds)
P = {
 'S01': ('A run submits one message, carries its parts over a lossy, duplicating, reordering network and receives them.', SMS, [NET, CLK, LCK, RND], 3200),
 'S02': ('A run has several senders and threads submitting up to 99 messages under way at once, whose parts are interleaved, lost, delayed and repeated on the way to one receiver.', SMS, [NET, CLK, LCK, SCH, RND], 1300),
 'S03': ('A run submits messages with and without report requests; the network reports late, twice, out of order or not at all.', SMS, [NET, CLK, LCK, RND], 2500),
 'S04': ('A run submits a message with a validity from a host with some clock and zone; the service centre holds it for an absent receiver until the validity it was given ends.', SMS, [NET, CLK, LCK, RND], 5000),
 'S05': ('A run receives stamped messages on hosts with jumping clocks and changing zones, decoding them at several places and times.', SMS, [NET, CLK, LCK], 2800),
 'S06': ('A run decodes many PDUs of all kinds with fresh and reused receivers, restarts, refused PDUs and repetitions in between.', SMS, [NET, CLK, LCK], 3000),
 'S07': ('A run decodes truncated, bit-flipped and spliced PDUs between intact ones.', SMS, [NET, CLK, LCK], 3000),
 'S08': ('A run edits, submits, retries and interrupts one message object and compares each result with a fresh object.', SMS, [NET, CLK, LCK, RND], 4000),
 'S09': ('A run sends messages, replies and forwards between subscribers over a network that routes by the numbers in the PDUs.', SMS, [NET, CLK, LCK, RND], 3000),
 'W01': ('A run announces MMS messages by WAP push over several short message parts, fetches them over a failing transport and acknowledges them.', SMS + MMS, [NET, WSP, CLK, LCK, RND], 1800),
 'M01': ('A run composes a message, encodes it, carries it over several hops (arrays or files, new processes) with edits between, and reads it at every hop with an independent decoder and with the library.', MMS, [WSP, DSK, CLK, LCK, RND, MIM], 3500),
 'M02': ('A run performs encode, save, render and part listing on one message in any order with failing and interrupted attempts and edits in between.', MMS, [WSP, DSK, CLK, LCK, RND, MIM], 2000),
 'M03': ('A run saves and loads messages on a disk that fails, fills up, tears writes or loses power.', MMS, [WSP, DSK, CLK, LCK, RND, MIM], 2000),
 'M04': ('A run composes messages from files that are changed, replaced, removed and made unreadable between and during the calls.', MMS, [WSP, DSK, CLK, LCK, RND, MIM], 3500),
 'M05': ('A run decodes MMS data that ends, fails or is damaged at some octet.', MMS, [WSP, CLK, LCK, RND], 1100),
 'M06': ('A run decodes messages of other senders with fresh and reused decoders, damage, failures and interruptions in between, and edits the results.', MMS, [WSP, CLK, LCK, RND], 3000),
 'M07': ('A run decodes times on hosts with different clocks, zones and daylight saving rules and follows an expiry from sender to receiver.', MMS, [WSP, CLK, LCK, RND], 3000),
 'M08': ('A run reads, looks ahead and goes back over a source that fails from time to time, against a reference model.', ['messaging.mms.iterator'], ['source of items: fails and goes on as the plan says'], 20000),
 'M09': ('A run saves, loads, composes and encodes messages and reads their parts for a long time in a process that may open few files, on a disk that fails or interrupts the caller anywhere.', MMS, [DSK, CLK, LCK, RND, MIM], 3000),
 'T01': ('A run interleaves threads that encode and decode their own short messages; each must get what it gets alone.', SMS, [NET, CLK, LCK, SCH, RND], 3000),
 'T02': ('A run interleaves threads that compose, encode and decode their own MMS messages or use the protocol tables; each must get what it gets alone.', MMS, [WSP, DSK, CLK, LCK, SCH, RND, MIM], 2500),
 'T03': ('A run abandons a call at a point of the plan, repeats it and compares the result and everything afterwards with a world without the interruption.', SMS + MMS, [NET, WSP, DSK, CLK, LCK, RND, MIM], 1000),
}
NOTE = ('Seeded search over generated runs of the real library code under a simulator that decides scheduling, time, '
        'delivery and failures: it shows violations that it reaches and shows nothing about the ones it does not. Trusts the '
        'independent models in sim/tpdu.py and sim/wsp.py, and Jython 2.7 as the Python 2 runtime.')
PENDING = {}
NA = {
 'N01': 'A function from text to text without time, order, I/O, state or parties: there is no schedule or fault to simulate. The conversions that messages need are exercised by S01 and S06.',
 'N02': 'Argument checking is a function of the arguments alone; no schedule, fault or history changes it. What a refused argument does to an object is part of S08.',
 'N03': 'Layout is a function of the composed message alone; no schedule or fault bears on it. That the layout names the parts of each slide is checked by M01.',
 'N04': 'Interpretation of rare codes is a function of single octets, without order, time or failures; the library leaves several of them unimplemented.',
}


def main():
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'worlds')) if f[0] in 'smwt' and f[1:3].isdigit())
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    meta, bud, checks, na = {}, {}, [], []
    for i in ids:
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
            continue
        rule, real, stubs, n = P[i]
        meta[i] = dict(rule=RULE + rule, real=real, stubs=stubs)
        bud[i] = dict(quick=dict(count=n, seconds=400), thorough=dict(count=10000000, seconds=700))
        if i not in have:
            na.append(dict(property=i, reason='Decidable by simulation; the check is not built yet.'))
            continue
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique='deterministic simulation with fault injection', level='exploration',
                           level_note=rule + ' ' + NOTE))
    m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na,
             notes='See DESIGN.md. ./check --replay FILE repeats a recorded violation; ./check --selftest compares '
                   'repeated executions of the same seeds.')
    for name, v in (('sim/meta.json', meta), ('sim/budgets.json', bud), ('MANIFEST.json', m)):
        with open(os.path.join(ROOT, name), 'w') as f:
            json.dump(v, f, indent=1)
            f.write('\n')


main()
