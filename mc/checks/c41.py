"""Runs at the same time over one folder: every order of their accesses to the files, on real processes."""
import itertools
import os

import numpy as np

from .. import impl, plots, ref, sched, store
from .c27 import blocks_name, save

LEVEL = 'model_checking'
BOUNDS = {'quick': 'real processes stopped before each access to the folder: every order of the accesses of two runs saving any two of 10 results then loading theirs (folders missing, present, or holding older results), of three such runs for 12 choices, of a run saving and one or two loading, of two runs saving the same result (equal or different contents) with a reader, of two runs computing every configuration then embedding (first 12 pairs), of two runs drawing a first picture (5 kinds)',
          'thorough': 'every choice of three runs among 10 results; two readers; four runs; larger results; more pairs of whole runs and of pictures'}
ASSUMPTIONS = ['An access to a file (one system call) is atomic.', 'The folder of results itself exists.', 'Runs are processes: they share files only.']
UNIT_LIMIT = 280

ONE, TWO, FOUR = ['periodic', 1, 1, 1], ['periodic', 2, 1, 1], ['periodic', 2, 2, 1]
A, S = impl.ALL, ('bt', 'bij')
# how it is saved, lattice, holes, spins down, selection
RESULTS = [('plain', TWO, 1, 0, S), ('plain', TWO, 1, 1, S), ('plain', TWO, 1, 0, A), ('peripheral', TWO, 1, 0, S), ('peripheral', TWO, 0, 1, A),
           ((False, False, False), TWO, 1, 0, S), ((True, False, False), TWO, 1, 0, S), ((False, True, True), TWO, 1, 1, S), ((True, True, True), TWO, 0, 1, A), ('plain', ONE, 1, 0, A)]


def made(k, tag):
    how, spec, h, b, sel = RESULTS[k]
    r = store.fabricated(ref.Lat(*spec), h, b, impl.GENERIC, sel, None, tag, how == 'plain', 1)
    r.data.diagonalization.initial_guess = None
    return r


def path(k):
    how, spec, h, b, sel = RESULTS[k]
    n = ref.Lat(*spec).n
    if how == 'plain':
        return store.name(n, n - h - b, b, sel)
    if how == 'peripheral':
        return 'Peripheral_embedding/' + store.name(n, n - h - b, b, sel)
    return 'Embedding_blocks/' + blocks_name(n, n - h - b, b, sel, how)


def load(k):
    try:
        r = impl.iC().load_data(path(k))
    except Exception:
        return None
    try:
        return store.snapshot(r)
    except Exception:
        return 'not a result'


def warm():
    import matplotlib
    matplotlib.use('Agg')
    impl.iC(), impl.emb()


def start(how, keep=()):
    """Fills the folder: 'missing' (no folders of embeddings), 'present', 'older' (an older content of every file)."""
    store.prepare(*(() if how == 'missing' else ('Peripheral_embedding', 'Embedding_blocks')))
    if how == 'older':
        for k in keep:
            save(RESULTS[k][0], made(k, 9))


def files():
    return sorted(os.path.relpath(os.path.join(b, f), store.FOLDER) for b, _, fs in os.walk('.') for f in fs)


def saver(k, tag, back=True):
    r = made(k, tag)

    def task():
        save(RESULTS[k][0], r)
        return load(k) if back else True
    return task


def order(schedule, history):
    return 'order {} of {}'.format(''.join(str(k) for k in schedule), [[(o, p[-1], g if isinstance(g, int) and g < 0 else 'ok') for o, p, g in h] for h in history])


def distinct(ctx, ks, how):
    """Different results saved at the same time: each is there in the end, whole, as if it had been saved alone."""
    warm()
    snaps = [store.snapshot(made(k, 1 + i)) for i, k in enumerate(ks)]
    back = len(ks) == 2

    def judge(outcomes, schedule, history):
        what = 'saving {} ({}) in {}'.format([path(k) for k in ks], how, order(schedule, history))
        for k, o, s in zip(ks, outcomes, snaps):
            ctx.check(o[0] == 'done', 'run-fails', '{}: saving {} fails with {}', what, path(k), o[1:])
            if o[0] == 'done':
                ctx.check(not back or o[1] == s, 'own-result', '{}: the run that saved {} loads {}', what, path(k), 'an error' if o[1] is None else 'another result')
                ctx.check(load(k) == s, 'final', '{}: {} does not hold its result in the end', what, path(k))
        ctx.same(files(), sorted(path(k) for k in ks), 'files', '{}: files in the end', what)
    n = sched.explore(ctx, lambda: start(how, ks), [saver(k, 1 + i, back) for i, k in enumerate(ks)], judge)
    ctx.sample('saves of {} ({}): {} final states'.format([path(k) for k in ks], how, n))


def readers(ctx, k, how, same, other):
    """Loading while the file (or another one) is being saved: a whole result saved under that name, or an error."""
    warm()
    new, old = store.snapshot(made(k, 1)), store.snapshot(made(k, 9))
    good = [None, new] + ([old] if how == 'older' else [])
    wat = k if same else other
    mine = store.snapshot(made(other, 9))

    def judge(outcomes, schedule, history):
        what = 'loading {} while {} is saved ({}) in {}'.format(path(wat), path(k), how, order(schedule, history))
        ctx.check(outcomes[0][0] == 'done', 'run-fails', '{}: the saving run fails with {}', what, outcomes[0][1:])
        ctx.check(load(k) == new, 'final', '{}: {} does not hold its result in the end', what, path(k))
        for o in outcomes[1:]:
            ctx.check(o[0] == 'done' and (o[1] in good if same else o[1] == mine), 'reader', '{}: the reader gets {}', what, o[0] if o[0] != 'done' else 'a mixed or partial result' if o[1] else 'an error')

    def prepare():
        start(how, (k,))
        if not same:
            save(RESULTS[other][0], made(other, 9))
    n = sched.explore(ctx, prepare, [saver(k, 1, False), lambda: load(wat), lambda: load(wat)], judge)
    ctx.sample('{} read during the save of {} ({}): {} final states'.format(path(wat), path(k), how, n))


def twice(ctx, k, how, tags, reader):
    """The same file saved by two runs: in the end one of their results or an error, the result itself when equal."""
    warm()
    snaps = [store.snapshot(made(k, t)) for t in tags]
    old = [store.snapshot(made(k, 9))] if how == 'older' else []

    def judge(outcomes, schedule, history):
        what = '{} saved by two runs ({}, {}) in {}'.format(path(k), how, 'equal' if tags[0] == tags[1] else 'different', order(schedule, history))
        for o in outcomes[:2]:
            ctx.check(o[0] == 'done', 'run-fails', '{}: a run fails with {}', what, o[1:])
            ctx.check(o[0] != 'done' or reader or o[1] is None or o[1] in snaps, 'mixed', '{}: a run loads a mixed result', what)
        for o in outcomes[2:]:
            ctx.check(o[0] == 'done' and (o[1] is None or o[1] in snaps + old), 'reader', '{}: the reader gets {}', what, 'a mixed result' if o[0] == 'done' else o)
        end = load(k)
        ctx.check(end in snaps or (end is None and tags[0] != tags[1]), 'final', '{}: the file holds {}', what, 'no result' if end is None else 'a mixed result')
        ctx.same(files(), [path(k)], 'files', '{}: files in the end', what)
    n = sched.explore(ctx, lambda: start(how, (k,)), [saver(k, t, not reader) for t in tags] + ([lambda: load(k)] if reader else []), judge)
    ctx.sample('two saves of {} ({}): {} final states'.format(path(k), how, n))


def forget(s):
    """A result but for the times."""
    return s and {k: v for k, v in s.items() if k != 'times'}


def computation(spec, h, sel, then):
    """A whole run: every configuration computed and saved, then an embedding."""
    def f():
        import time
        time.time = itertools.count(1.).__next__        # the same file whatever the schedule
        np.random.seed(3)
        L = ref.Lat(*spec)
        d = store.data(L, h, 0, impl.PHYSICAL, sel, None, False, 1, tol=1e-6)
        impl.iC().perform_configurations_computations(d)
        if then:
            b = (L.n - h) // 2
            d = store.data(L, h, b, impl.PHYSICAL, sel, None, False, 1, tol=1e-6)
            if then in ('ring', 'from ring'):
                impl.emb().embedding_neel(d, 1e-2, 2, 1)
            if then != 'ring':
                impl.emb().embedding_blocks(d, 1e-2, 2, then == 'dynamic', then == 'from ring', then == 'single')
        return True
    return f


def whole(ctx, runs):
    """Whole runs: every configuration computed and saved, then the embedding in a ring or next to a copy of one."""
    warm()
    np.random.seed(1)

    expected = {}
    top = os.getcwd()
    tasks = [computation(*r) for r in runs]
    for i, t in enumerate(tasks):
        os.mkdir('solo{}'.format(i))
        os.chdir('solo{}'.format(i))
        store.prepare()
        if os.fork() == 0:
            try:
                t()
            except BaseException as e:
                with open('failed', 'w') as g:
                    g.write(repr(e))
            finally:
                os._exit(0)
        os.wait()
        if os.path.exists('failed'):
            raise RuntimeError('a run fails alone: ' + open('failed').read())
        for f in files():
            expected[f] = forget(store.snapshot(impl.iC().load_data(f)))
        os.chdir(top)

    def judge(outcomes, schedule, history):
        what = 'runs {} in {}'.format(runs, ''.join(str(k) for k in schedule))
        for o in outcomes:
            ctx.check(o[0] == 'done', 'run-fails', '{}: a run fails with {}', what, o[1:])
        if ctx.same(files(), sorted(expected), 'files', '{}: files in the end', what):
            for f, s in expected.items():
                try:
                    got = forget(store.snapshot(impl.iC().load_data(f)))
                except Exception as e:
                    got = None
                ctx.check(got == s, 'final', '{}: {} is not what the run gives alone', what, f)
    n = sched.explore(ctx, store.prepare, tasks, judge)
    ctx.sample('{}: {} final states'.format(runs, n))


PICTURES = ('spectrum', 'holes', 'spins', 'amplitudes', 'embedding')


def picture(kind, h, b):
    L = ref.Lat(*FOUR)
    r, _ = plots.result(L, h, b, 1, A)
    e, _ = plots.result(L, h, b, 1, A, True)

    def f():
        import matplotlib.figure as F
        P = impl.mod('postProcessing')

        def savefig(fig, fname, *a, **k):
            with open(fname, 'w') as g:
                g.write(repr(plots.read(fig)))
        F.Figure.savefig = savefig
        F.Figure.tight_layout = lambda *a, **k: None
        if kind == 'spectrum':
            P.save_spectrum(r)
        elif kind == 'holes':
            P.save_hole_probability_lattice(r, 1)
        elif kind == 'spins':
            P.save_electron_probability_lattice(r, 0)
        elif kind == 'amplitudes':
            P.plot_determinants_amplitude_repartition(r, 1)
        else:
            P.plot_embedding_effect_on_determinants(r, e, 2)
        return True
    return f


def pictures(ctx, one, two):
    warm()
    impl.mod('postProcessing')
    drawn = {}
    top = os.getcwd()
    tasks = [picture(*one), picture(*two)]

    def prepare():
        plots.folders(4)
        for s in ('HolePresenceProbability', 'AmplitudesStaticEmbeddingNeel'):
            plots.missing(4, s)
    for i, t in enumerate(tasks):
        os.mkdir('solo{}'.format(i))
        os.chdir('solo{}'.format(i))
        prepare()
        if os.fork() == 0:
            try:
                t()
            finally:
                os._exit(0)
        os.wait()
        drawn.update({f: c for f, c in sched.contents('.') if c is not None})
        os.chdir(top)

    def judge(outcomes, schedule, history):
        what = 'pictures {} in {}'.format((one, two), order(schedule, history))
        for o in outcomes:
            ctx.check(o[0] == 'done', 'picture-fails', '{}: a run fails with {}', what, o[1:])
        got = {f: c for f, c in sched.contents('.') if c is not None}
        ctx.check(got == drawn, 'pictures', '{}: the pictures are not those the runs draw alone, in {}', what, [f for f in set(got) | set(drawn) if got.get(f) != drawn.get(f)])
    n = sched.explore(ctx, prepare, tasks, judge)
    ctx.sample('pictures {}: {} final states'.format((one, two), n))


def units(tier):
    q = tier == 'quick'
    N = len(RESULTS)
    u = []
    pics = [(k, h, b) for k in PICTURES for h, b in ((1, 1), (2, 1))]
    for i, a in enumerate(pics):
        for b in pics[i + 1:]:
            if a[0] == b[0] or not q:
                u.append(('pictures', a, b))
    starts = ('missing', 'present', 'older')
    trios = [(a, b, c) for a in range(N) for b in range(a + 1, N) for c in range(b + 1, N)]
    for ks in trios[::10] if q else trios:
        u.append(('distinct', ks, 'missing' if q or sum(ks) % 2 else 'older'))
    for a in range(N):
        for b in range(a + 1, N):
            for how in starts:
                u.append(('distinct', (a, b), how))
        for how in starts:
            for tags in ((1, 1), (1, 2)):
                u.append(('twice', a, how, tags, not q or a in (0, 3, 5)))
            u.append(('readers', a, how, True, (a + 1) % N))
            u.append(('readers', a, how, False, (a + 1) % N))
    W = [(TWO, 0, S, None), (TWO, 1, S, 'ring'), (TWO, 0, A, 'ring'), (FOUR, 3, A, 'static'), (FOUR, 3, S, 'dynamic'), (ONE, 0, A, None), (TWO, 1, A, 'single'), (FOUR, 3, ('bt', 'bV'), 'from ring')]
    duos = [(a, b) for i, a in enumerate(W) for b in W[:i] if a[:3] != b[:3]]
    for d in duos[:12] if q else duos:
        u.append(('whole', d))
    return u
