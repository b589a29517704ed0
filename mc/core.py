"""Exhaustive exploration engine: enumerates units of a bounded space, runs each on the real code in a worker
process with a watchdog, compares with the reference model, and writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TOL = 1e-9


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


class Timeout(BaseException):
    pass


class Ctx:
    """Counters of one unit."""
    MAXFAIL = 3

    def __init__(self):
        self.states = self.transitions = self.replays = 0
        self.evals = self.nontrivial = 0
        self.samples = []
        self.fails = []
        self.nfails = 0
        self.extra = {}

    def fail(self, key, msg):
        self.nfails += 1
        if len(self.fails) < self.MAXFAIL or not any(k == key for k, _ in self.fails):
            if len(self.fails) < 40:
                self.fails.append((key, str(msg)[:1500]))

    def check(self, cond, key, msg, *args):
        if not cond:
            self.fail(key, msg.format(*args) if args else msg)
        return cond

    def same(self, got, want, key, what, *args):
        if got != want:
            self.fail(key, '{}: the code gives {!r}, the model {!r}'.format(what.format(*args) if args else what, got, want))
            return False
        return True

    def close(self, got, want, key, what, *args, tol=TOL):
        import numpy as np
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol * (1 + np.abs(w))))
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(key, '{}: the code gives {!r}, the model {!r}'.format(what.format(*args) if args else what, got, want))
        return ok

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def _alarm(*_):
    raise Timeout()


_tmp = None


def _init():
    global _tmp
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.path.insert(0, REPO)


def _run_unit(job):
    modname, fn, args, limit, root, seed = job
    ctx = Ctx()
    work = tempfile.mkdtemp(dir=root)
    old = os.getcwd()
    os.chdir(work)
    t0 = time.time()
    try:
        import numpy as np
        random.seed(seed)
        np.random.seed(seed)
        signal.setitimer(signal.ITIMER_PROF, limit)          # busy time: a loaded machine raises no alarm
        signal.alarm(min(3 * limit, 840))
        mod = importlib.import_module(modname)
        getattr(mod, fn)(ctx, *args)
    except Timeout:
        ctx.fail('hang', 'no answer within {} s'.format(limit))
    except Violation as e:
        ctx.fail(e.key, str(e))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = ['{}:{}:{}'.format(os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
        where = next((f.name for f in reversed(tb) if f.filename.startswith(REPO)), 'harness')
        ctx.fail('exception:{}:{}'.format(type(e).__name__, where), '{}: {} at {}'.format(type(e).__name__, str(e)[:300], ' > '.join(frames)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        os.chdir(old)
        shutil.rmtree(work, ignore_errors=True)
    return (fn, args, ctx, time.time() - t0)


def load_known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [e for e in json.load(f)['findings'] if e.get('status') == 'open']


def run(prop, tier, seed, only=None):
    t0 = time.time()
    modname = 'mc.checks.' + prop.lower()
    root = tempfile.mkdtemp(prefix='mc-{}-'.format(prop))
    os.environ['MC_DEADLINE'] = str(t0 + (600 if tier == 'quick' else 3600 * 6))
    fails, tot, samples, extra = [], Ctx(), [], {}
    slow = []
    mod = None
    units = []
    try:
        # the check module imports the code under test only inside workers
        mod = importlib.import_module(modname)
        units = [only] if only else list(mod.units(tier))
        limit = getattr(mod, 'UNIT_LIMIT', 240 if tier == 'quick' else 840)
        limit = int(os.environ.get('MC_LIMIT', limit))
        fast = os.environ.get('MC_FAST')                     # stop at the first violation (used to try planted changes)
        known = {e['key'] for e in load_known() if e['property'] == prop} if fast else ()
        jobs = [(modname, fn, args, limit, root, seed) for fn, *args in units]
        ctxmp = mp.get_context('fork')
        from concurrent.futures import ProcessPoolExecutor, as_completed
        with ProcessPoolExecutor(min(8, max(1, len(jobs))), mp_context=ctxmp, initializer=_init) as ex:
            futs = {ex.submit(_run_unit, j): j for j in jobs}
            for f in as_completed(futs):
                j = futs[f]
                try:
                    fn, args, c, dt = f.result()
                except BaseException as e:
                    fails.append(('worker-died', repr(e)[:300], [j[1]] + list(j[2])))
                    continue
                slow.append((round(dt, 1), fn, str(args)[:80]))
                tot.states += c.states
                tot.transitions += c.transitions
                tot.replays += c.replays
                tot.evals += c.evals
                tot.nontrivial += c.nontrivial
                for k, v in c.extra.items():
                    extra[k] = extra.get(k, 0) + v
                samples += [dict(unit='{}{}'.format(fn, args), case=s) for s in c.samples]
                fails += [(k, m, [fn] + list(args)) for k, m in c.fails]
                if any(k == 'hang' for k, _ in c.fails) or (fails and tier == 'quick' and time.time() - t0 > 600) or (fast and any(k not in known for k, _ in c.fails)):
                    for p in list(ex._processes.values()):
                        p.kill()
                    break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return finish(prop, tier, seed, mod, units, tot, samples, extra, fails, time.time() - t0, slow)


def finish(prop, tier, seed, mod, units, tot, samples, extra, fails, wall, slow):
    known = [e for e in load_known() if e['property'] == prop]
    keys = {e['key']: e for e in known}
    new = [f for f in fails if f[0] not in keys]
    hit = {f[0] for f in fails if f[0] in keys}
    for k in sorted(hit):
        print('KNOWN-FINDING: property={} {}'.format(prop, keys[k]['what']))
    for e in known:
        if e['key'] not in hit:
            print('note: known finding not reproduced by this run: {}'.format(e['key']))
    samples.sort(key=lambda s: json.dumps(s, sort_keys=True, default=str))
    step = max(1, len(samples) // 6)
    cov = {'samples': samples[::step][:8] or ['none'], 'units': len(units), 'exhaustive': not any('cut_short' in k for k in extra)}
    if mod.LEVEL == 'model_checking':
        cov.update(states=tot.states, transitions=tot.transitions, traces_validated_against_impl=tot.replays)
    else:
        cov.update(evaluations=tot.evals, distinct_nontrivial=tot.nontrivial, rule=mod.RULE)
    cov.update(extra)
    cov['bounds'] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get('MC_SLOW'):
        for s in sorted(slow, reverse=True)[:8]:
            print('slow', s)
    print('{} {}: {} units, {}, {:.1f} s'.format(
        prop, tier, len(units), ', '.join('{}={}'.format(k, v) for k, v in cov.items() if isinstance(v, int) and k not in ('units', 'exhaustive')), wall))
    if not new:
        return 0
    seen = set()
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for key, msg, unit in new:
        if key in seen or len(seen) >= 5:
            continue
        seen.add(key)
        h = hashlib.sha1(json.dumps([key, unit], default=str).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '{}-{}.json'.format(prop, h))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'key': key, 'what': msg, 'unit': unit,
                       'replay': 'cd /verif && ./check {} --replay {}'.format(prop, path)}, f, indent=1, default=str)
        print('[{}] {}'.format(key, msg))
        print('VIOLATION property={} replay={}'.format(prop, path))
    return 1


def main(argv):
    prop = argv[0]
    tier = 'quick'
    only = None
    if '--thorough' in argv:
        tier = 'thorough'
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            u = json.load(f)['unit']
        only = [tuple(x) if False else x for x in u]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return run(prop, tier, seed, only)
    except BaseException as e:
        traceback.print_exc()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', prop + '-setup.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'what': repr(e)}, f)
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
