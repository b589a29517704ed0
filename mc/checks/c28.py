"""Interrupted saves: whatever the point where a save stops, a later load gives a whole result or an error."""
import builtins
import io
import os

import numpy as np

from .. import impl, ref, store

LEVEL = 'fault_enumeration'
RULE = 'The fault is injected at byte k of what the save writes, for every k from 0 to the last byte; a fault counts as non-trivial when the save was really stopped by it with at least one file left incomplete, replaced or missing.'
BOUNDS = {'quick': 'every strict prefix of 12 saved files given to the loader; every byte of plain, peripheral and block saves of two small results, over an empty store, over the same file from another result and over a first save into a missing folder, with the process killed or the disk full at that byte; then the save is repeated',
          'thorough': 'every strict prefix of 40 saved files; every byte of larger results as well'}
ASSUMPTIONS = ['A file cut by a crash is a prefix of what was written.']
KINDS = ('plain', 'peripheral', (False, False, False), (True, True, True))


class Crash(BaseException):
    pass


class Limited:
    """A file that takes a number of bytes, then fails."""

    def __init__(self, f, left, error):
        self._f, self._left, self._error = f, left, error

    def write(self, s):
        n = self._left[0]
        if len(s) > n:
            self._f.write(s[:n])
            self._left[0] = 0
            self._f.flush()
            raise self._error
        self._left[0] -= len(s)
        return self._f.write(s)

    def writelines(self, l):
        for s in l:
            self.write(s)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)


def units(tier):
    u = []
    full = tier != 'quick'
    for how in range(len(KINDS)):
        for spec, h, b in ((['periodic', 1, 1, 1], 0, 1), (['periodic', 2, 1, 1], 1, 0)) + (((['periodic', 2, 2, 1], 1, 1),) if full else ()):
            for error in ('killed', 'disk full'):
                for start in ('empty', 'older', 'no folder'):
                    if start == 'no folder' and how == 0:
                        continue
                    u.append(('crash', how, spec, h, b, error, start))
    for spec, h, b in ((['periodic', 1, 1, 1], 0, 0), (['periodic', 1, 1, 1], 1, 0), (['periodic', 2, 1, 1], 0, 1), (['periodic', 3, 1, 1], 1, 1)) + (((['periodic', 2, 2, 1], 1, 1), (['peripheral', 1, 1, 1], 1, 1), (['clusters', 1, 1, 1], 0, 1)) if full else ()):
        for sel in (impl.ALL, ('bt',), ()):
            for times in (True, False):
                u.append(('prefixes', spec, h, b, sel, times))
    return u


def writes(how, r, folder=True):
    from .c27 import save
    save(KINDS[how], r)


def path(how, L, h, b, sel):
    from .c27 import blocks_name
    n = store.name(L.n, L.n - h - b, b, sel)
    k = KINDS[how]
    return n if k == 'plain' else 'Peripheral_embedding/' + n if k == 'peripheral' else 'Embedding_blocks/' + blocks_name(L.n, L.n - h - b, b, sel, k)


def load(rel):
    """The loaded result, or None when loading reports an error."""
    try:
        r = impl.iC().load_data(rel)
    except Exception:
        return None
    try:
        return store.snapshot(r)
    except Exception:
        return 'not a result'


def prefixes(ctx, spec, h, b, sel, times):
    L = ref.Lat(*spec)
    store.prepare()
    r = store.fabricated(L, h, b, impl.PHYSICAL, sel, None, 1, times)
    r.data.diagonalization.initial_guess = None
    impl.iC().save_data(r)
    f = path(0, L, h, b, sel)
    p = os.path.join(store.FOLDER, f)
    whole = open(p, 'rb').read()
    ctx.check(load(f) == store.snapshot(r), 'whole', '{}: the whole file does not load'.format(f))
    tails = [b'', b'\n', b'\x00' * 16]
    for k in range(len(whole)):
        for t in tails:
            with open(p, 'wb') as g:
                g.write(whole[:k] + t)
            ctx.evals += 1
            ctx.nontrivial += 1
            got = load(f)
            if got is not None and got != store.snapshot(r):
                ctx.fail('prefix-loads', '{}: {} first bytes of {} (then {}) load as a result, different in {}'.format(f, k, len(whole), t, store.diff(store.snapshot(r), got)))
            elif got is not None and k < len(whole):
                ctx.fail('prefix-loads', '{}: {} first bytes of {} load'.format(f, k, len(whole)))
    ctx.sample('{} cut at each of {} bytes'.format(f, len(whole)))


def crash(ctx, how, spec, h, b, error, start):
    L = ref.Lat(*spec)
    sel = ('bt', 'bij')
    rel = path(how, L, h, b, sel)
    old = store.fabricated(L, h, b, impl.OPPOSITE, sel, None, 1, how == 0)
    other = store.fabricated(L, h, b, impl.OPPOSITE, ('bt',), None, 4, how == 0)
    new = store.fabricated(L, h, b, impl.PHYSICAL, sel, None, 2, how == 0)
    for r in (old, other, new):
        r.data.diagonalization.initial_guess = None
    snap = {'old': store.snapshot(old), 'new': store.snapshot(new), 'other': store.snapshot(other)}
    orel = path(how, L, h, b, ('bt',))
    top = os.getcwd()
    k, reached = 0, False
    total = 0
    while not reached and k < 200000:
        d = 'w{}'.format(k)
        os.mkdir(d)
        os.chdir(d)
        try:
            store.prepare()
            if start == 'older':
                writes(how, old)
                writes(how, other)
            orig = builtins.open
            left = [k]
            e = Crash() if error == 'killed' else OSError(28, 'No space left on device')
            armed = []

            def spy(f, mode='r', *a, **kw):
                g = orig(f, mode, *a, **kw)
                if set(mode) & set('wax+') and isinstance(f, (str, os.PathLike)) and os.path.abspath(f).startswith(os.path.join(top, d)):
                    armed.append(f)
                    return Limited(g, left, e)
                return g
            builtins.open = io.open = spy
            stopped = None
            try:
                writes(how, new)
            except BaseException as x:
                stopped = x
            finally:
                builtins.open = io.open = orig
            ctx.evals += 1
            got = load(rel)
            what = '{} ({}) {} at byte {}'.format(rel, start, error, k)
            if not armed:
                ctx.add('saves_without_a_file_object')
                break
            if stopped is None:
                ctx.check(got == snap['new'], 'saved', '{}: the save ended but its result does not load'.format(what))
                reached = True
            else:
                ctx.nontrivial += 1
                ctx.check(got is None or got == snap['new'] or (start == 'older' and got == snap['old']), 'torn-result', '{}: a mixed or partial result loads'.format(what))
                if start == 'older':
                    ctx.check(load(orel) == snap['other'], 'other-file', '{}: another file is damaged'.format(what))
                writes(how, new)
                ctx.check(load(rel) == snap['new'], 'recovery', '{}: saving again does not give a loadable result'.format(what))
            total = k
        finally:
            os.chdir(top)
            import shutil
            shutil.rmtree(os.path.join(top, d))
        k += 1
    ctx.sample('{} ({}): {} at each of {} bytes'.format(rel, start, error, total))
