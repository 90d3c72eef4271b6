"""Monitor runtime shared by all monitors (runs under Jython 2.7).

A monitor module defines PROPERTY, FAMILIES (list of Family) and optionally
setup(m).  Every case is a pure function of (property, family, seed, index), so
a violation is replayed from those four values alone."""

import sys
import os
import json
import time
import random
import hashlib
import traceback
import threading

import java.lang
from java.lang.management import ManagementFactory


class Family(object):

    """A case generator plus its monitor.

    quick/thorough  number of cases per tier (over all shards)
    need            counter name -> minimum over the whole run; below this the
                    run is inconclusive
    serial          run only in shard 0"""

    def __init__(self, name, func, quick, thorough, need=None, serial=False):
        self.name = name
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.need = need or {}
        self.serial = serial


class Violation(Exception):

    def __init__(self, mech, msg):
        Exception.__init__(self, mech)
        self.mech = mech
        self.msg = msg


def text(x, limit=1500):
    """A printable ascii form of anything"""
    if isinstance(x, unicode):
        s = x.encode('ascii', 'backslashreplace')
    elif isinstance(x, str):
        try:
            s = x.decode('ascii').encode('ascii')
        except UnicodeError:
            s = repr(x)
    else:
        try:
            s = repr(x)
        except Exception:
            s = "<unrepresentable %s>" % type(x).__name__
        if isinstance(s, unicode):
            s = s.encode('ascii', 'backslashreplace')
    if len(s) > limit:
        s = s[:limit] + '...(%d)' % len(s)
    return s


def digest(x):
    s = x if isinstance(x, str) else text(x, 1000000)
    return hashlib.md5(s).hexdigest()[:16]


class Monitor(object):

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.counters = {}
        self.keys = {}
        self.samples = {}
        self.violations = []
        self.mechs = {}
        self.family = None
        self.index = None
        self.lock = threading.RLock()
        self.case_started = None
        self.case_key = None
        self.case_sample = None
        self.nontrivial = True
        self.cases = {}

    # -- observation --------------------------------------------------
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def key(self, x, nontrivial=True):
        """Identifies the current case for the distinct count"""
        self.case_key = x
        self.nontrivial = nontrivial

    def sample(self, x):
        self.case_sample = x

    # -- oracles ------------------------------------------------------
    def violate(self, mech, msg):
        with self.lock:
            n = self.mechs.get(mech, 0)
            self.mechs[mech] = n + 1
            if n < 3:
                self.violations.append(dict(
                    mech=text(mech), msg=text(msg, 4000), family=self.family,
                    index=self.index, seed=self.seed, tier=self.tier))

    def check(self, cond, mech, *msg):
        """Records a violation unless cond; returns cond"""
        self.count('assertions')
        if not cond:
            self.violate(mech, ' '.join(text(x) for x in msg))
        return cond

    def eq(self, got, want, mech, *ctx):
        self.count('assertions')
        ok = (got == want)
        if not ok:
            self.violate(mech, "got %s want %s :: %s" % (
                text(got), text(want), ' '.join(text(x) for x in ctx)))
        return ok

    def require(self, cond, mech, *msg):
        """As check but abandons the case"""
        if not self.check(cond, mech, *msg):
            raise Abandon()

    def raises(self, excs, mech, func, *args, **kw):
        """func must raise one of excs (and nothing else)"""
        self.count('assertions')
        ctx = kw.pop('ctx', '')
        try:
            result = func(*args, **kw)
        except excs:
            return True
        except Exception as e:
            self.violate(mech, "wrong exception %s: %s args=%s %s\n%s" % (
                type(e).__name__, text(e), text(args), text(ctx),
                short_tb()))
            return False
        self.violate(mech, "accepted, returned %s: args=%s %s" % (
            text(result), text(args), text(ctx)))
        return False


class Abandon(Exception):
    pass


def short_tb():
    tb = traceback.format_exc().strip().split('\n')
    return '\n'.join(tb[-10:])


def repo_site():
    """(file:function) of the innermost frame in /repo for the current
    exception, or None"""
    site = None
    for fn, line, func, src in traceback.extract_tb(sys.exc_info()[2]):
        if '/pyslet/pyslet/' in fn or '/repo/' in fn:
            site = '%s:%s' % (fn.split('/pyslet/pyslet/')[-1].split('/repo/')[-1], func)
    return site


def case_rng(prop, family, seed, index):
    h = hashlib.md5('%s/%s/%s/%s' % (prop, family, seed, index)).hexdigest()
    return random.Random(int(h[:15], 16))


CPU = ManagementFactory.getThreadMXBean()
CASE_CPU = float(os.environ.get('VERIF_CASE_CPU', '60'))
CASE_WALL = float(os.environ.get('VERIF_CASE_WALL', '200'))


def run_case(m, fam, index):
    m.family = fam.name
    m.index = index
    m.case_key = None
    m.case_sample = None
    m.nontrivial = True
    r = case_rng(m.prop, fam.name, m.seed, index)
    r.index = index
    m.case_started = (time.time(), CPU.getCurrentThreadCpuTime())
    try:
        fam.func(m, r)
    except Abandon:
        pass
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except java.lang.OutOfMemoryError:
        raise
    except java.lang.StackOverflowError:
        m.violate('exception:%s:StackOverflowError' % fam.name, 'stack overflow, case %s' % text(m.case_key))
    except java.lang.Throwable as e:
        m.violate('exception:%s:%s@%s' % (fam.name, e.getClass().getName(), repo_site()),
                  '%s, case %s\n%s' % (text(e.toString()), text(m.case_key), short_tb()))
    except Exception as e:
        m.violate('exception:%s:%s@%s' % (fam.name, type(e).__name__, repo_site()),
                  '%s, case %s\n%s' % (text(e), text(m.case_key), short_tb()))
    m.case_started = None
    m.cases[fam.name] = m.cases.get(fam.name, 0) + 1
    if m.case_key is not None:
        if m.nontrivial:
            m.keys.setdefault(fam.name, set()).add(digest(m.case_key))
        s = m.samples.setdefault(fam.name, [])
        if len(s) < 2 and m.nontrivial:
            s.append(text(m.case_sample if m.case_sample is not None else m.case_key, 400))


def watchdog(m, tid, save):
    while True:
        time.sleep(1)
        st = m.case_started
        if st is None:
            continue
        wall = time.time() - st[0]
        cpu = (CPU.getThreadCpuTime(tid) - st[1]) / 1e9
        if cpu > CASE_CPU:
            what = 'used %.0fs of CPU time without finishing (a case of this family takes milliseconds)' % cpu
        elif wall > CASE_WALL and cpu < 1.0:
            what = 'made no progress for %.0fs using %.2fs of CPU time (blocked)' % (wall, cpu)
        elif wall > CASE_WALL * 2:
            save(error='case %s/%s: wall %.0f cpu %.0f' % (m.family, m.index, wall, cpu))
            java.lang.Runtime.getRuntime().halt(4)
        else:
            continue
        info = CPU.getThreadInfo(tid, 40)
        frames = [str(f) for f in (info.getStackTrace() if info else [])
                  if 'pycode' in str(f) or 'pyslet' in str(f)][:12]
        m.violate('nontermination:' + m.family, 'case %s %s; key %s; stack %s' % (
            m.index, what, text(m.case_key), text(frames)))
        save()
        java.lang.Runtime.getRuntime().halt(0)


def main(module, argv):
    """argv: tier seed shard nshards out deadline [family index]"""
    tier, seed, shard, nshards, out, deadline = argv[:6]
    seed, shard, nshards, deadline = int(seed), int(shard), int(nshards), float(deadline)
    m = Monitor(module.PROPERTY, tier, seed)
    m.shard = shard
    t0 = time.time()

    def save(error=None):
        with m.lock:
            data = dict(cases=m.cases, counters=m.counters,
                        keys=dict((k, sorted(v)) for k, v in m.keys.items()),
                        samples=m.samples, violations=m.violations, mechs=m.mechs,
                        error=error, wall=time.time() - t0, truncated=getattr(m, 'truncated', 0))
            f = open(out + '.tmp', 'wb')
            f.write(json.dumps(data))
            f.close()
            os.rename(out + '.tmp', out)

    w = threading.Thread(target=watchdog, args=(m, java.lang.Thread.currentThread().getId(), save))
    w.setDaemon(True)
    w.start()
    m.family = 'setup'
    if hasattr(module, 'setup'):
        module.setup(m)
    if len(argv) > 6:
        fam = [f for f in module.FAMILIES if f.name == argv[6]][0]
        run_case(m, fam, int(argv[7]))
    else:
        fams = []
        for fam in module.FAMILIES:
            n = fam.quick if tier == 'quick' else fam.thorough
            if fam.serial:
                ids = range(n) if shard == 0 else []
            else:
                ids = range(shard, n, nshards)
            fams.append((fam, list(ids)))
        m.truncated = 0
        # families are interleaved in proportion so that a deadline trims all alike
        total = max([len(ids) for fam, ids in fams] + [1])
        steps = min(total, 20)
        for step in range(steps):
            for fam, ids in fams:
                a = len(ids) * step // steps
                b = len(ids) * (step + 1) // steps
                for i in ids[a:b]:
                    if time.time() - t0 > deadline:
                        m.truncated += 1
                        continue
                    run_case(m, fam, i)
    if hasattr(module, 'finish'):
        m.family, m.index = 'finish', 0
        module.finish(m)
    save()
    sys.stdout.flush()
    java.lang.Runtime.getRuntime().halt(0)
