"""Spin numbers and names of multiplicities."""
import numpy as np

from .. import impl, ref, space
from .c21 import s2_matrix

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every eigenvector of S2 (in two bases of its degenerate spaces, scaled by 1, -3.5, 1e-9 and up to 60 states 1e-40 and 1e30, flat and as a column) of every sector up to 6 sites; the highest and lowest spins of sectors of 7 and 8 sites up to 420 states, of 9 to 13 sites up to 90 and of 14 to 20 sites up to 25; names of every spin from 0 to 8',
          'thorough': 'every eigenvector up to 7 sites; sectors of 8 and 9 sites up to 1000 states'}
NAMES = {0: 'singlet', .5: 'doublet', 1: 'triplet', 1.5: 'quartet', 2: 'quintet'}


def units(tier):
    q = tier == 'quick'
    u = [('names',)]
    for n in range(1, 10):
        for h, b in ref.sectors(n):
            d = ref.binom(n, h) * ref.binom(n - h, b)
            if n <= (6 if q else 7):
                u.append(('run', n, h, b, 0))
            elif n <= (8 if q else 9) and d <= (420 if q else 1000):
                u.append(('run', n, h, b, 6))
    for n in range(9 if q else 10, 21):
        for h, b in ref.sectors(n):
            if ref.binom(n, h) * ref.binom(n - h, b) <= (90 if n < 14 else 25 if q else 80):
                u.append(('run', n, h, b, 4))
    u.sort(key=lambda x: -(ref.binom(x[1], x[2]) * ref.binom(x[1] - x[2], x[3]) if len(x) > 3 else 0))
    return u


def run(ctx, n, h, b, cap):
    I = impl.itr()
    c = impl.conf(ref.Lat('periodic', n, 1, 1), h, b)
    sts, idx = ref.sector(n, h, b), ref.index(n, h, b)
    S2 = s2_matrix(sts, idx).toarray()
    d = len(sts)
    cols = []
    # two different bases of the eigenspaces: S2 alone, and S2 perturbed by a commuting hole label
    for shift in (0, 1):
        if shift and not h:
            continue
        label = np.diag([1e-3 * shift * sum((i + 1) ** 2 for i, x in enumerate(o) if x == 0) for o in sts])
        val, vec = np.linalg.eigh(S2 + label)
        real = np.array([vec[:, k] @ S2 @ vec[:, k] for k in range(d)])
        ks = range(d) if not cap else sorted(set(list(range(cap)) + list(range(d - cap, d))) & set(range(d)))
        cols += [(real[k], vec[:, k]) for k in ks]
    for x, v in cols:
        s = (np.sqrt(1 + 4 * max(x, 0)) - 1) / 2
        twice = round(2 * s)
        assert abs(2 * s - twice) < 1e-4
        ctx.states += 1
        ctx.transitions += 1
        for w in [v.reshape(-1, 1), v * -3.5, v.reshape(-1, 1) * 1e-9, v * 1e-40, v * 1e30][:3 if cap or d > 60 else 5]:
            got = I.compute_spin_number(c, w.copy())
            ctx.replays += 1
            if not ctx.close(got, twice / 2, 'spin', '{} sites holes={} down={}: spin of an eigenvector with S2 = {}', n, h, b, round(x, 6)):
                continue
            name = I.compute_spin_multiplicity(got)
            ctx.same(name, NAMES.get(twice / 2, 'multiplet'), 'name', '{} sites holes={} down={} spin {}', n, h, b, twice / 2)
    # all of them at once
    if cols:
        basis = impl.bC().Basis(c, [ref.det(o) for o in sts])
        V = np.array([v for _, v in cols]).T
        spins, names = impl.dav().compute_spin_and_multiplicity(basis, V)
        want = [round(np.sqrt(1 + 4 * max(x, 0)) - 1) / 2 for x, _ in cols]
        ctx.replays += 1
        if ctx.close(spins, want, 'spins-together', '{} sites holes={} down={}: spins of {} eigenvectors together', n, h, b, len(cols)):
            ctx.same(list(names), [NAMES.get(s, 'multiplet') for s in want], 'names-together', '{} sites holes={} down={}', n, h, b)
    ctx.sample('{} sites holes={} down={}: {} eigenvectors'.format(n, h, b, len(cols)))


def names(ctx):
    I = impl.itr()
    for twice in range(17):
        ctx.states += 1
        ctx.replays += 1
        ctx.same(I.compute_spin_multiplicity(twice / 2), NAMES.get(twice / 2, 'multiplet'), 'name', 'spin {}', twice / 2)
    ctx.same(I.compute_spin_multiplicity('-'), '-', 'name', 'unknown spin')
    ctx.transitions += 17
    ctx.sample('names of spins 0 to 8')
