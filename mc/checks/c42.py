"""Runs killed at any access to the folder, any number of times, then run again: states of the folder explored to a fixpoint."""
import collections
import hashlib
import itertools
import os
import shutil
import time

import numpy as np

from .. import impl, plots, ref, sched, store
from .c41 import ONE, TWO, FOUR, A, S, RESULTS, computation, files, made, path, picture, saver, warm

LEVEL = 'fault_enumeration'
RULE = 'A fault is the death of a run just after one of its accesses to the folder (every one of them, and with the last write lost in part or whole); it is non-trivial when the run was really stopped before its end and left a folder not seen before.'
BOUNDS = {'quick': 'every folder that deaths of a run can leave (after each of its accesses to files, the last write whole, cut in half or lost, any number of deaths one after another: a fixpoint): whole runs (every configuration computed, then an embedding) of 8 kinds, every configuration computed and all its pictures drawn (one or two deaths), saves of 10 kinds over missing, present and older folders, first pictures of 5 kinds; from each such folder the run is made again, and for 13 pairs either run, with one death',
          'thorough': 'every pair of whole runs with two deaths, every three with one; larger sectors'}
ASSUMPTIONS = ['A killed process loses at most its last write.', 'Runs are deterministic once random numbers and clock are fixed.']
UNIT_LIMIT = 280
WHOLE = [(TWO, 0, S, None), (TWO, 1, S, 'ring'), (TWO, 0, A, 'ring'), (FOUR, 3, A, 'static'), (FOUR, 3, S, 'dynamic'), (ONE, 0, A, None), (TWO, 1, A, 'single'), (FOUR, 3, ('bt', 'bV'), 'from ring')]
SAME = ('configuration', 'bonds', 'restriction', 'interactions', 'selection', 'determinants')


def result(rel):
    try:
        r = impl.iC().load_data(rel)
        return False if r is None else r
    except Exception:
        return None


def agree(r, e):
    """Same result: same request, basis and matrix, energies of the same states."""
    try:
        a, b = store.snapshot(r), store.snapshot(e)
        return all(a[k] == b[k] for k in SAME) and r.hamiltonian.shape == e.hamiltonian.shape and len(r.eigenstates.eigvals) == len(e.eigenstates.eigvals) \
            and np.allclose(r.hamiltonian.toarray(), e.hamiltonian.toarray(), atol=1e-4) and np.allclose(r.eigenstates.eigvals, e.eigenstates.eigvals, atol=1e-4) \
            and np.shape(r.eigenstates.eigvects) == np.shape(e.eigenstates.eigvects)
    except Exception:
        return False


def lay(folder, state):
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    for p, c in state:
        q = os.path.join(folder, p)
        if c is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as g:
                g.write(c)


def key(state):
    return hashlib.sha1(repr(state).encode()).digest()


def alone(task, first, folder):
    """What the run gives from the first folder, uninterrupted (no tracing)."""
    lay(folder, first)
    top = os.getcwd()
    os.chdir(folder)
    try:
        if os.fork() == 0:
            try:
                task()
                code = 0
            except BaseException as e:
                code = 1
            finally:
                os._exit(code)
        _, st = os.wait()
        return st == 0, sched.contents('.')
    finally:
        os.chdir(top)


def deaths(ctx, what, tasks, first, judge, most=None):
    """The fixpoint of the folders left by deaths of any of the tasks [(task, files it delivers)] made one after another (at most so many deaths, if told);
    judge(k, delivered, left) looks at the folder (current directory): k is the run that has just ended, or None."""
    warm()
    top = os.getcwd()
    folder = os.path.join(os.path.realpath(top), 'shared')
    deadline = float(os.environ.get('MC_DEADLINE', 'inf'))
    known = {p for p, _ in first}
    try:
        for task, _ in tasks:       # names that two runs of a task do not share are the run's own
            lay(folder, first)
            a = {p for op, _ in sched.trace(task, folder)[0] for p in op[1] if p}
            lay(folder, first)
            known |= a & {p for op, _ in sched.trace(task, folder)[0] for p in op[1] if p}
    except sched.Unavailable:
        ctx.add('explorations_without_ptrace')       # the machine refuses: nothing is explored, nothing is claimed
        return

    def same(state, delivered):
        """Folders that differ by the names (not shared by two runs) of what dead runs have left are the same."""
        own = [c for p, c in state if p not in known]
        return key(([e for e in state if e[0] in known], sorted(set(own), key=repr), sorted(delivered))), len(own)
    stack, seen = collections.deque([(first, frozenset(), 0)]), {same(first, ())[0]}
    while stack and ctx.nfails < 20:
        if time.time() > deadline:
            ctx.add('explorations_cut_short')
            break
        state, delivered, dead = stack.popleft()
        ctx.states += 1
        left = '{}, from a folder left with {}'.format(what, [(p, 'folder' if c is None else '{} bytes'.format(len(c))) for p, c in state])
        lay(folder, state)
        os.chdir(folder)
        try:
            judge(None, delivered, left)
        finally:
            os.chdir(top)
        for k, (task, gives) in enumerate(tasks):
            lay(folder, state)
            history, out = sched.trace(task, folder)
            ctx.evals += len(history)
            ctx.transitions += len(history)
            ctx.replays += 1
            ended = out is not None and out[0] == 'done'
            if out is None:
                ctx.add('explorations_cut_short')
            elif ctx.check(ended, 'run-fails', '{}: run {} made again fails with {}', left, k, out):
                os.chdir(folder)
                try:
                    judge(k, delivered | gives, left)
                finally:
                    os.chdir(top)
            for i, (op, now) in enumerate(history):
                variants = [now]
                if op[0] == 'write' and isinstance(op[2], int) and op[2] > 0:
                    for m, (p, c) in enumerate(now):
                        if p == op[1][0] and c:
                            n = max(0, len(c) - op[2])
                            variants += [now[:m] + [(p, c[:z])] + now[m + 1:] for z in (n, n + op[2] // 2)]
                for v in variants:
                    alive = ended and i == len(history) - 1 and v is now
                    d = delivered | gives if alive else delivered - gives
                    h, n = same(v, d)
                    if h not in seen and n <= 2 and (most is None or dead + (not alive) <= most):
                        seen.add(h)
                        ctx.nontrivial += 1
                        (stack.appendleft if alive else stack.append)((v, d, dead + (not alive)))
    shutil.rmtree(folder, ignore_errors=True)
    ctx.sample('{}: {} folders'.format(what, len(seen)))


def begun(fill):
    """Contents of a folder once filled."""
    top = os.getcwd()
    os.mkdir('first')
    os.chdir('first')
    try:
        fill()
        return sched.contents('.')
    finally:
        os.chdir(top)
        shutil.rmtree(os.path.join(top, 'first'))


def expected(ctx, task, first):
    """Results of an uninterrupted run."""
    folder = os.path.join(os.path.realpath(os.getcwd()), 'solo')
    ok, c = alone(task, first, folder)
    if not ok:
        raise RuntimeError('a run fails alone')
    top = os.getcwd()
    os.chdir(folder)
    try:
        return {f: result(f) for f in files() if f.endswith('.json')}
    finally:
        os.chdir(top)
        shutil.rmtree(folder)


def judge_results(ctx, wants, kept, older=None):
    """wants: per run, what it delivers; kept: what others had stored before; older: what was there under the same names."""
    def judge(ended, delivered, left):
        for k, want in enumerate(wants):
            for f, e in want.items():
                r = result(f)
                if k == ended:
                    ctx.check(r is not None and agree(r, e), 'not-delivered', '{}: {} is not what an uninterrupted run delivers', left, f)
                elif f in delivered:
                    ctx.check(r is not None and agree(r, e), 'lost', '{}: {}, delivered by a run before, is lost or changed by another', left, f)
                else:
                    ctx.check(r is None or agree(r, e) or bool(older) and f in older and agree(r, older[f]), 'torn', '{}: {} loads as a result no run has made', left, f)
        for f, e in kept.items():
            r = result(f)
            ctx.check(r is not None and store.snapshot(r) == e, 'others', '{}: {}, stored before, is lost or changed', left, f)
    return judge


def bystanders():
    """Results of somebody else (other numbers of sites), stored before."""
    out = {}
    store.prepare('Peripheral_embedding', 'Embedding_blocks')
    I, E = impl.iC(), impl.emb()
    for f in (I.save_data, E.save_data_peripheral_embedding, lambda r: E.save_data_embedding_blocks(r, True, False, True)):
        before = set(files())
        f(store.fabricated(ref.Lat('periodic', 3, 1, 1), 1, 1, impl.OPPOSITE, S, None, 5, True))
        out.update({n: store.snapshot(result(n)) for n in set(files()) - before})
    return out


def whole(ctx, run, start):
    task = computation(*run)
    kept = {}

    def fill():
        store.prepare()
        if start == 'others':
            kept.update(bystanders())
    first = begun(fill)
    warm()
    want = expected(ctx, task, first)
    want = {f: r for f, r in want.items() if f not in kept}
    deaths(ctx, 'run {} ({})'.format(run, start), [(task, frozenset(want))], first, judge_results(ctx, [want], kept))


def several(ctx, runs, most):
    tasks = [computation(*r) for r in runs]
    first = begun(store.prepare)
    warm()
    wants = [expected(ctx, t, first) for t in tasks]
    deaths(ctx, 'runs {}'.format(runs), [(t, frozenset(w)) for t, w in zip(tasks, wants)], first, judge_results(ctx, wants, {}), most)


def saves(ctx, k, start):
    warm()
    r = made(k, 1)
    old = {path(k): made(k, 9)} if start == 'older' else None

    def fill():
        store.prepare(*(() if start == 'missing' else ('Peripheral_embedding', 'Embedding_blocks')))
        if old:
            from .c27 import save
            save(RESULTS[k][0], made(k, 9))
    first = begun(fill)
    task = saver(k, 1, False)
    deaths(ctx, 'save of {} ({})'.format(path(k), start), [(task, frozenset([path(k)]))], first, judge_results(ctx, [{path(k): r}], {}, old))


def pictures(ctx, kind, h, b):
    warm()
    impl.mod('postProcessing')
    task = picture(kind, h, b)

    def fill():
        plots.folders(4)
        for s in ('HolePresenceProbability', 'AmplitudesStaticEmbeddingNeel'):
            plots.missing(4, s)
    first = begun(fill)
    folder = os.path.join(os.path.realpath(os.getcwd()), 'solo')
    ok, c = alone(task, first, folder)
    if not ok:
        raise RuntimeError('a picture fails alone')
    shutil.rmtree(folder)

    def judge(ended, delivered, left):
        if ended is not None:
            now = dict(sched.contents('.'))
            for p, x in c:
                if x is not None:
                    ctx.check(now.get(p) == x, 'picture', '{}: the picture {} is not what an uninterrupted run draws', left, p)
    deaths(ctx, 'picture {} of {} holes, {} down'.format(kind, h, b), [(task, frozenset())], first, judge)


def workflow(ctx, h, sel, most):
    """Every configuration computed, then all their pictures drawn."""
    warm()
    impl.mod('postProcessing')
    compute = computation(FOUR, h, sel, None)

    def task():
        import matplotlib.figure as F
        P = impl.mod('postProcessing')

        def savefig(fig, fname, *a, **k):
            with open(fname, 'w') as g:
                g.write('picture')
        F.Figure.savefig = savefig
        F.Figure.tight_layout = lambda *a, **k: None
        compute()
        P.generate_plots(store.data(ref.Lat(*FOUR), h, 0, impl.PHYSICAL, sel), P.InputPlotting(1, 1, bool_spectrum=True, bool_holes=True, bool_electrons=True, bool_determinants=True))
        return True

    def fill():
        store.prepare()
        plots.folders(4, range(1))
    first = begun(fill)
    folder = os.path.join(os.path.realpath(os.getcwd()), 'solo')
    ok, c = alone(task, first, folder)
    if not ok:
        raise RuntimeError('a workflow fails alone')
    shutil.rmtree(folder)
    want = expected(ctx, task, first)
    judge = judge_results(ctx, [want], {})
    drawn = [p for p, x in c if x == b'picture']

    def both(ended, delivered, left):
        judge(ended, delivered, left)
        if ended is not None:
            now = dict(sched.contents('.'))
            bad = [p for p in drawn if now.get(p) != b'picture']
            ctx.check(not bad, 'pictures', '{}: pictures {} are missing', left, bad)
    deaths(ctx, 'everything for {} holes, terms {}'.format(h, sel), [(task, frozenset(want))], first, both, most)


def units(tier):
    q = tier == 'quick'
    u = [('whole', r, s) for r in WHOLE for s in ('empty', 'others')]
    if not q:
        u += [('whole', (FOUR, 2, S, t), 'empty') for t in (None, 'ring', 'static', 'single')]
    P = [p for n in ((2,) if q else (2, 3)) for p in itertools.combinations(WHOLE, n) if len({repr(r[:3]) for r in p}) == n]
    u += [('several', p, 1 if q or len(p) > 2 else 2) for p in (P[::2] if q else P)]
    u += [('workflow', h, sel, m) for h, m in (((3, 1), (4, 2)) if q else ((0, 1), (2, 1), (3, 2), (4, 3))) for sel in (A, S)]
    u += [('saves', k, s) for k in range(len(RESULTS)) for s in ('missing', 'present', 'older')]
    u += [('pictures', k, h, b) for k in ('spectrum', 'holes', 'spins', 'amplitudes', 'embedding') for h, b in ((1, 1), (2, 1))]
    return u
