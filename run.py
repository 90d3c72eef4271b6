#!/usr/bin/python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the monitors of one property against /repo's working tree and gives the
verdict: exit 0 held on everything observed, exit 1 with a VIOLATION line, any
other exit inconclusive or an error of the check itself."""

import sys
sys.dont_write_bytecode = True
import os, json, time, subprocess, tempfile, shutil, argparse, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')
JYTHON = '/opt/vp/runner/jython.sh'

def registry():
    with open(os.path.join(VERIF, 'checks.json')) as f:
        return json.load(f)

def known(prop):
    """mechanism -> description of the listed (unrepaired) findings"""
    result = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            for e in json.load(f)['findings']:
                if e['property'] == prop:
                    result[e['mechanism']] = e['what']
    except FileNotFoundError:
        pass
    return result

def spawn(cfg, scratch, i, args, deadline):
    out = os.path.join(scratch, 'out%d.json' % i)
    work = os.path.join(scratch, 'w%d' % i)
    os.mkdir(work)
    env = dict(os.environ)
    env.update(JYTHONPATH='%s/pyslet:/opt/vp/runner' % REPO, TMPDIR=work, VERIF_WORK=work, HOME=work,
               PYTHONHASHSEED='0', VERIF_DIR=VERIF, VERIF_REPO=REPO)
    env.pop('PYTHONPATH', None)
    cmd = [JYTHON, os.path.join(VERIF, 'mon', 'shard.py'), cfg['module']] + args[:2] + \
        [str(i), args[2], out, str(deadline)] + args[3:]
    if cfg.get('unprivileged') and os.getuid() == 0:
        os.chmod(scratch, 0o777)
        os.chown(work, 65534, 65534)
        cmd = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', '--no-new-privs'] + cmd
    log = open(os.path.join(scratch, 'log%d' % i), 'wb')
    return subprocess.Popen(cmd, cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=log,
                            stderr=subprocess.STDOUT, start_new_session=True), out, log.name

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int)
    a = ap.parse_args()
    t0 = time.time()
    cfg = registry()[a.property]
    sys.path.insert(0, VERIF)
    n = a.shards or cfg.get('shards', 8)
    tier, seed = a.tier, a.seed
    extra = []
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        tier, seed, n = rp['tier'], rp['seed'], 1
        extra = [rp['family'], str(rp['index'])]
    deadline = cfg.get('deadline', {}).get(tier, 240 if tier == 'quick' else 600)
    hard = deadline + 180
    scratch = tempfile.mkdtemp(prefix='vmon-')
    try:
        procs = [spawn(cfg, scratch, i, [tier, str(seed), str(n)] + extra, deadline) for i in range(n)]
        errors, results = [], []
        for i, (p, out, log) in enumerate(procs):
            try:
                rc = p.wait(max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
                if results[-1].get('error'):
                    errors.append(results[-1]['error'])
            if rc != 0 or not os.path.exists(out):
                with open(log, 'rb') as f:
                    tail = f.read()[-3000:].decode('utf-8', 'replace')
                errors.append('shard %d: exit %s\n%s' % (i, rc, tail))
            elif os.environ.get('VERIF_LOG'):
                with open(log, 'rb') as f:
                    print(f.read()[-20000:].decode('utf-8', 'replace'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # aggregate
    cases, counters, keys, samples, mechs, viols = {}, {}, {}, {}, {}, []
    truncated = 0
    for r in results:
        for k, v in r['cases'].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r['keys'].items():
            keys.setdefault(k, set()).update(v)
        for k, v in r['samples'].items():
            samples.setdefault(k, []).extend(v)
        for k, v in r['mechs'].items():
            mechs[k] = mechs.get(k, 0) + v
        viols.extend(r['violations'])
        truncated += r.get('truncated', 0)
    listed = known(a.property)
    seen, new = {}, {}
    for v in viols:
        (seen if v['mech'] in listed else new).setdefault(v['mech'], v)
    for mech in sorted(seen):
        print('KNOWN-FINDING: property=%s %s [%s, seen %d times]' % (
            a.property, listed[mech], mech, mechs.get(mech, 0)))
    rdir = os.path.join(VERIF, 'replays')
    if not a.replay and os.path.isdir(rdir):
        for name in os.listdir(rdir):
            if name.startswith(a.property + '-'):
                os.unlink(os.path.join(rdir, name))
    if new and not a.replay:
        os.makedirs(rdir, exist_ok=True)
    for i, mech in enumerate(sorted(new)):
        v = new[mech]
        if a.replay:
            path = a.replay
        else:
            path = os.path.join(rdir, '%s-%d.json' % (a.property, i))
            with open(path, 'w') as f:
                json.dump(dict(v, property=a.property), f, indent=1)
        print('%s: %s (%d times)\n  family=%s index=%s\n  %s' % (
            a.property, mech, mechs.get(mech, 0), v['family'], v['index'],
            v['msg'].replace('\n', '\n  ')))
        print('VIOLATION property=%s replay=%s' % (a.property, path))
    # inconclusive?
    short = []
    if not a.replay:
        for k, minimum in cfg.get('need', {}).items():
            if tier == 'thorough' and not cfg.get('need_abs'):
                pass
            if counters.get(k, 0) < minimum:
                short.append('%s=%d (needs %d)' % (k, counters.get(k, 0), minimum))
        sm = []
        for fam in sorted(samples):
            sm.extend({'family': fam, 'case': s} for s in samples[fam][:3])
        ev = dict(
            property=a.property, tier=tier, seed=seed, level='exploration',
            coverage=dict(
                evaluations=sum(cases.values()),
                distinct_nontrivial=sum(len(s) for s in keys.values()),
                rule=cfg['rule'],
                samples=sm[:40],
                cases_per_family=cases,
                distinct_per_family={k: len(s) for k, s in sorted(keys.items())},
                observed=dict(sorted(counters.items())),
                cases_dropped_at_deadline=truncated,
                shards=n,
                known_findings_seen={k: mechs.get(k, 0) for k in sorted(seen)},
            ),
            assumptions=cfg.get('assumptions', []),
            wall_s=round(time.time() - t0, 2),
            violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s seed=%d: %d cases, %d distinct, %d assertions, %.1fs%s' % (
            a.property, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'],
            counters.get('assertions', 0), ev['wall_s'],
            ', %d cases dropped at the deadline' % truncated if truncated else ''))
    if new:
        return 1
    if errors:
        print('ERROR\n' + '\n'.join(errors))
        return 3
    if short:
        print('INCONCLUSIVE ' + ', '.join(short))
        return 2
    return 0

sys.exit(main())
