"""Accesses to the folder refused by the machine (full, forbidden, broken): reported or overcome, never hidden."""
import errno
import itertools
import os
import shutil
import time

from .. import impl, plots, sched, store
from .c41 import A, RESULTS, S, computation, made, path, picture, warm
from .c42 import FOUR, ONE, TWO, WHOLE, agree, alone, begun, bystanders, expected, lay, result

LEVEL = 'fault_enumeration'
RULE = 'A fault is one access of a real run to the folder answered with an error by the system (and, for saves and loads, a second one later); it is non-trivial when the refused access really took place, each set of refusals counted once.'
BOUNDS = {'quick': 'every access (one system call) of every run refused with each of the errors that its kind admits (questions about names apart): one or two refusals in a run for saves of 10 kinds (folders missing, present, holding an older result and those of others), and their loads, one (or two) for pictures of 5 kinds, one for whole computations of 8 kinds (every configuration, then an embedding); the run is then made again in the same process',
          'thorough': 'three refusals for saves and loads, two for pictures and whole computations'}
ASSUMPTIONS = ['A refused access changes nothing.']
UNIT_LIMIT = 280
ERRORS = {'open': (errno.EACCES, errno.EMFILE, errno.ENOSPC), 'write': (errno.ENOSPC, errno.EIO), 'read': (errno.EIO,), 'mkdir': (errno.EACCES, errno.ENOSPC), 'rename': (errno.EACCES, errno.EIO),
          'unlink': (errno.EACCES,), 'rmdir': (errno.EACCES,), 'truncate': (errno.EIO,), 'list': (errno.EIO,), 'link': (errno.EIO,), 'symlink': (errno.EIO,), 'lock': (errno.ENOLCK,)}


def attempts(task, n):
    """The task made again in the same process until it succeeds, at most n times; what each time gave."""
    def f():
        out = []
        for _ in range(n):
            try:
                out.append(('done', task()))
                break
            except Exception as e:
                out.append((type(e).__name__, str(e)[:100]))
        return out
    return f


def refusals(ctx, what, task, first, most, judge):
    """Every set of at most so many refusals; judge(what each attempt gave, text) looks at the folder (current directory)."""
    warm()
    top = os.getcwd()
    folder = os.path.join(os.path.realpath(top), 'shared')
    deadline = float(os.environ.get('MC_DEADLINE', 'inf'))
    stack = [{}]
    made = attempts(task, most + 1)
    while stack and ctx.nfails < 20:
        if time.time() > deadline:
            ctx.add('explorations_cut_short')
            break
        refused = stack.pop()
        lay(folder, first)
        try:
            history, out = sched.trace(made, folder, 2000, refused, False)
        except sched.Unavailable:
            ctx.add('explorations_without_ptrace')       # the machine refuses: nothing is explored, nothing is claimed
            return
        text = '{} refused {}'.format(what, [history[i][0][:2] + (errno.errorcode[e],) for i, e in sorted(refused.items()) if i < len(history)])
        ctx.evals += 1
        ctx.replays += 1
        ctx.nontrivial += bool(refused)
        os.chdir(folder)
        try:
            if out is None:
                ctx.add('explorations_cut_short')
            elif ctx.check(out[0] == 'done', 'dies', '{}: the process ends with {}', text, out):
                judge(out[1], text)
        finally:
            os.chdir(top)
        if len(refused) < most:
            for i in range(max(refused, default=-1) + 1, len(history)):
                for e in ERRORS.get(history[i][0][0], ()):
                    stack.append({**refused, i: e})
    shutil.rmtree(folder, ignore_errors=True)
    ctx.sample('{}: {} runs'.format(what, ctx.evals))


def saves(ctx, k, start, most):
    warm()
    r, kept = made(k, 1), {}

    def fill():
        store.prepare(*(() if start == 'missing' else ('Peripheral_embedding', 'Embedding_blocks')))
        if start == 'others':
            kept.update(bystanders())
        if start == 'older':
            from .c27 import save
            save(RESULTS[k][0], made(k, 9))
    first = begun(fill)

    def task():
        from .c27 import save
        save(RESULTS[k][0], made(k, 1))
        return True

    def judge(tries, text):
        ctx.check(tries[-1][0] == 'done', 'not-again', '{}: the save made again fails: {}', text, tries)
        now = result(path(k))
        ctx.check(now is not None and store.snapshot(now) == store.snapshot(r), 'hidden', '{}: the save ended well without leaving its result ({})', text, tries)
        for f, e in kept.items():
            x = result(f)
            ctx.check(x is not None and store.snapshot(x) == e, 'others', '{}: {}, stored before, is lost or changed', text, f)
    refusals(ctx, 'save of {} ({})'.format(path(k), start), task, first, most, judge)


def loads(ctx, k, most):
    warm()
    want = store.snapshot(made(k, 1))

    def fill():
        from .c27 import save
        store.prepare('Peripheral_embedding', 'Embedding_blocks')
        save(RESULTS[k][0], made(k, 1))
    first = begun(fill)

    def task():
        r = impl.iC().load_data(path(k))
        try:
            return store.snapshot(r)
        except Exception:
            return 'not a result'

    def judge(tries, text):
        ctx.check(tries[-1][0] == 'done', 'not-again', '{}: the load made again fails: {}', text, tries)
        ctx.check(tries[-1][-1] == want, 'partial', '{}: the load gives another result', text)
        ctx.check(dict(sched.contents('.')) == dict(first), 'changed', '{}: loading changes the folder', text)
    refusals(ctx, 'load of {}'.format(path(k)), task, first, most, judge)


def whole(ctx, run, most):
    task = computation(*run)
    first = begun(store.prepare)
    warm()
    want = expected(ctx, task, first)

    def judge(tries, text):
        ctx.check(tries[-1][0] == 'done', 'not-again', '{}: the run made again fails: {}', text, tries)
        for f, e in want.items():
            r = result(f)
            ctx.check(r is not None and agree(r, e), 'hidden', '{}: the run ended well without leaving {}', text, f)
    refusals(ctx, 'run {}'.format(run), task, first, most, judge)


def pictures(ctx, kind, h, b, start, most):
    warm()
    impl.mod('postProcessing')
    task = picture(kind, h, b)

    def fill():
        plots.folders(4, range(2))
        for s in ('HolePresenceProbability', 'AmplitudesStaticEmbeddingNeel') if start == 'missing' else ():
            plots.missing(4, s)
    first = begun(fill)
    folder = os.path.join(os.path.realpath(os.getcwd()), 'solo')
    ok, c = alone(task, first, folder)
    if not ok:
        raise RuntimeError('a picture fails alone')
    shutil.rmtree(folder)
    if start == 'older':
        first = first + [(p, b'an older picture') for p, x in c if x is not None]

    def judge(tries, text):
        ctx.check(tries[-1][0] == 'done', 'not-again', '{}: the picture drawn again fails: {}', text, tries)
        now = dict(sched.contents('.'))
        bad = [p for p, x in c if x is not None and now.get(p) != x]
        ctx.check(not bad, 'hidden', '{}: drawing ended well without the picture {}', text, bad)
    refusals(ctx, 'picture {} of {} holes, {} down ({})'.format(kind, h, b, start), task, first, most, judge)


def units(tier):
    q = tier == 'quick'
    u = [('whole', r, 1 if q else 2) for r in WHOLE]
    u += [('saves', k, s, 2 if q else 3) for k in range(len(RESULTS)) for s in ('missing', 'present', 'older', 'others')]
    u += [('loads', k, 2 if q else 3) for k in range(len(RESULTS))]
    u += [('pictures', k, h, b, s, (2 if h == 2 and s == 'present' else 1) if q else 2) for k in ('spectrum', 'holes', 'spins', 'amplitudes', 'embedding') for h, b in ((1, 1), (2, 1)) for s in ('missing', 'present', 'older')]
    return u
