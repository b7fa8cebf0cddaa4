# One simulation worker (Jython).  argv[1]: JSON configuration file.
import sys, os, json, time, hashlib, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(sys.argv[1]))
sys.path[:0] = [HERE, str(cfg['build'])]
sys.dont_write_bytecode = True
import java.lang.Throwable
import java.lang.System
import core
import SimTrace

core.SRC = str(cfg['src'])
core.MARK = 'simsrc/messaging'
core.install_importer()
core.install_codecs()
core.install_locks()
core.install_clock()
core.install_mimetypes()
import disk
disk.install()
core.SCRATCH = str(cfg['scratch'])
core.tracer = SimTrace(core.MARK)

import _strptime, datetime
datetime.datetime.strptime("00", "%y")
import worlds

PROP = str(cfg['prop'])
world = worlds.get(PROP)


def put(path, obj):
    tmp = path + '.tmp'
    f = open(tmp, 'wb')
    f.write(json.dumps(obj, ensure_ascii=True, default=repr))
    f.close()
    os.rename(tmp, path)


def gen(seed, idx):
    """plan of run idx; passes through JSON so that a replayed plan is the same object"""
    rng = core.Rng(PROP, seed, idx)
    return json.loads(json.dumps(world.gen(rng, cfg.get('tier', 'quick')), ensure_ascii=True))


def tb():
    return traceback.format_exc()[-3000:]


def summary(r):
    return dict(kind=r['kind'], detail=r['detail'], digest=r['digest'],
                log=[e if isinstance(e, unicode) else e.decode('latin-1') for e in r['ctx'].events][-400:])


def is_known(kind, detail):
    for k in cfg.get('known', []):
        if k['kind'] == kind and re.search(k['match'], detail or ''):
            return k['id']
    return None


def explore():
    out = dict(runs=0, calls=0, faults={}, stats={}, shapes=[], simtime=0.0, samples=[], errors=[],
               known={}, violation=None, digests=[], lines=0)
    shapes = set()
    t0 = core.wall()
    idx = cfg['start']
    seed = cfg['seed']
    done = []
    while idx < cfg['count'] and core.wall() - t0 < cfg['seconds'] and not os.path.exists(cfg['stop']):
        f = open(cfg['progress'], 'w')
        f.write('%d' % idx)
        f.close()
        try:
            plan = gen(seed, idx)
            r = core.run_plan(world, plan)
        except Exception:
            out['errors'].append([idx, tb()])
            if len(out['errors']) > 3:
                break
            idx += cfg['stride']
            continue
        except java.lang.Throwable, e:
            out['errors'].append([idx, 'java: ' + repr(e) + tb()])
            break
        ctx = r['ctx']
        out['runs'] += 1
        out['calls'] += ctx.calls
        out['simtime'] += ctx.simtime
        for d, s in ((out['faults'], ctx.faults), (out['stats'], ctx.stats)):
            for k in s:
                d[k] = d.get(k, 0) + s[k]
        if ctx.faults or ctx.stats.get('nontrivial'):
            h = hashlib.sha1('|'.join(ctx.shape)).hexdigest()[:14]
            shapes.add(h)
        if cfg.get('digests'):
            out['digests'].append([idx, r['digest']])
        if len(out['samples']) < 2 and cfg['start'] == 0 and ctx.faults and len(json.dumps(plan)) < 4000:
            out['samples'].append(dict(index=idx, plan=plan, events=[e if isinstance(e, unicode) else e.decode('latin-1')
                                                                     for e in ctx.events[:40]]))
        done.append(idx)
        if r['kind'] is not None:
            kn = is_known(r['kind'], r['detail'])
            if kn:
                out['known'][kn] = out['known'].get(kn, 0) + 1
            else:
                open(cfg['stop'], 'w').close()
                small, tries = core.shrink(world, plan, r['kind'], r['detail'], cfg.get('shrink_s', 40))
                r2 = core.run_plan(world, small)
                if r2['kind'] != r['kind']:
                    small, r2 = plan, core.run_plan(world, plan)
                out['violation'] = dict(index=idx, plan=small, full_plan=plan, shrink_tries=tries,
                                        first=summary(r), result=summary(r2), before=done[:-1])
                break
        idx += cfg['stride']
    out['shapes'] = sorted(shapes)
    out['seconds'] = core.wall() - t0
    put(cfg['out'], out)


def replay():
    """prefix runs (whole seeds), then the plan; report what happened"""
    for i in cfg.get('prefix', []):
        try:
            core.run_plan(world, gen(cfg['seed'], i))
        except Exception:
            pass
    r = core.run_plan(world, cfg['plan'] if cfg.get('plan') is not None else gen(cfg['seed'], cfg['index']))
    put(cfg['out'], summary(r))


def plan_only():
    put(cfg['out'], gen(cfg['seed'], cfg['index']))


try:
    dict(explore=explore, replay=replay, plan=plan_only)[cfg['mode']]()
except Exception:
    put(cfg['out'], dict(crash=tb()))
sys.stdout.flush()
java.lang.System.exit(0)
