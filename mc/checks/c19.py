"""Probabilities of presence: diagonal quadratic forms decided on unit vectors, pairs of states and a full vector."""
from fractions import Fraction
from itertools import combinations

import numpy as np

from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every sector of every lattice up to 5 sites: every unit vector, every pair of states with three weightings, one vector with every amplitude, five uniform scales from 1e-100 to 1e9 and two with amplitudes of very different sizes; the same vectors per sector of up to 300 states up to 9 sites; the three particles, both orientations of spins, the rectangular map; refused arguments',
          'thorough': 'all unit vectors and pairs up to 6 sites; sectors up to 1500 states up to 10 sites'}
ASSUMPTIONS = ['Amplitudes are real, as the diagonaliser returns them.']


def units(tier):
    q = tier == 'quick'
    u = []
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, 5 if q else 6):
            n = ref.Lat(*s).n
            u += [('sector', s, h, b, 'pairs') for h, b in ref.sectors(n)]
        for s in space.all_specs(kind, 6 if q else 7, 9 if q else 10):
            n = ref.Lat(*s).n
            u += [('sector', s, h, b, 'one') for h, b in ref.sectors(n) if ref.binom(n, h) * ref.binom(n - h, b) <= (300 if q else 1500)]
    u.append(('refused',))
    u.sort(key=lambda x: -ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3]) if len(x) > 2 else 0)
    return u


def sector(ctx, spec, h, b, which):
    L = ref.Lat(*spec)
    B = impl.bC()
    c = impl.conf(L, h, b)
    sts = ref.sector(L.n, h, b)
    basis = B.Basis(c, [ref.det(o) for o in sts])
    d = len(sts)
    vects = []
    if which == 'pairs':
        vects += [{i: 1.} for i in range(d)] + [{i: -3.} for i in range(min(d, 6))]
        pairs = list(combinations(range(d), 2))
        step = 1 if len(pairs) <= 120 else len(pairs) // 120
        vects += [w for k, (i, j) in enumerate(pairs) if k % step == 0 for w in ({i: 1., j: 1.}, {i: 2., j: -1.}, {i: -.125, j: .5})]
    vects.append({i: (-1) ** (i // 2) * (1 + .37 * i) for i in range(d)})
    vects += [{i: f * (1 + i % 3) for i in range(d)} for f in (1e-6, 1e-9, 1e-30, 1e-100, 1e9)]
    vects.append({i: 3e-9 if i % 2 else -7. for i in range(d)} if d > 1 else {0: 3e-9})
    vects.append({i: 10. ** (-i % 12) for i in range(d)})
    for w in vects:
        v = np.zeros((d, 1))
        for i, x in w.items():
            v[i] = x
        keep = v.copy()
        nrm = sum(x * x for x in w.values())
        want = {s: [sum(x * x for i, x in w.items() if sts[i][k] == s) / nrm for k in range(L.n)] for s in (-1, 0, 1)}
        ctx.states += 1
        ctx.transitions += len(w)
        what = '{} holes={} down={} vector {}'.format(L, h, b, list(w.items())[:4])
        for reverse in (False, True):
            got = B.get_spins_probabilitites_lattice(basis, v, reverse_spins=reverse)
            ctx.replays += 1
            if not ctx.same(set(got), {-1, 0, 1}, 'particles', what):
                continue
            for s in (-1, 0, 1):
                ctx.close(got[s], want[-s if reverse else s], 'probabilities' + ('-reversed' if reverse else ''), '{}: particle {}', what, s)
        if len(w) <= 2 or which == 'one':
            ctx.close(B.get_probability_spin_lattice(basis, v, 1), want[1], 'probability', what)
        if L.kind == 'periodic' and (len(w) == 1 or len(w) == d):
            for s in (-1, 0, 1):
                grid = [[want[s][L.at[(x, y)]] for x in range(L.W)] for y in reversed(range(L.H))]
                ctx.close(B.get_probability_spin_rectangular_lattice(basis, v, s), grid, 'map', '{}: particle {}', what, s)
        ctx.same(v.tolist(), keep.tolist(), 'argument-changed', what)
    ctx.sample('{} holes={} down={}: {} vectors'.format(L, h, b, len(vects)))


def refused(ctx):
    B = impl.bC()
    for kind in ('periodic', 'clusters', 'peripheral'):
        L = ref.Lat(kind, 1, 2, 1)
        c = impl.conf(L, 1, 1)
        basis = B.Basis(c, [ref.det(o) for o in ref.sector(L.n, 1, 1)])
        v = np.ones((len(basis.determinants), 1))
        for s in (-2, 2, .5, -.5, 3, None, 'a'):
            for f in (B.get_probability_spin_lattice, B.get_probability_spin_rectangular_lattice):
                ctx.states += 1
                ctx.replays += 1
                try:
                    r = f(basis, v, s)
                except ValueError:
                    continue
                ctx.fail('refused', '{}: particle {!r} accepted: {}'.format(L, s, r))
        if kind != 'periodic':
            ctx.replays += 1
            try:
                B.get_probability_spin_rectangular_lattice(basis, v, 0)
                ctx.fail('refused', '{}: a rectangular map of a lattice not indexed row by row'.format(L))
            except ValueError:
                pass
    ctx.transitions += 1
    ctx.sample('unknown particles and lattices refused')
