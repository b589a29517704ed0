"""Dominant states of a vector."""
from itertools import product

import numpy as np

from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every vector with amplitudes in {-2,-1,0,1,2} of every sector of up to 4 states, in {-1,0,1} of sectors of 5 to 7 states, ordered, tied and widely scaled (1e-200 to 1e160) patterns of sectors up to 60 states; every requested number from 0 to two more than there are',
          'thorough': 'five amplitudes up to 6 states, three up to 9 states, patterns up to 300 states'}


def units(tier):
    q = tier == 'quick'
    u, seen = [], set()
    for n in range(1, 7):
        for h, b in ref.sectors(n):
            d = ref.binom(n, h) * ref.binom(n - h, b)
            five, three, top = (4, 7, 60) if q else (6, 9, 300)
            spec = ['periodic', n, 1, 1]
            if d <= five:
                u.append(('run', spec, h, b, 'five'))
            elif d <= three:
                u.append(('run', spec, h, b, 'three'))
            if d <= top:
                u.append(('run', spec, h, b, 'patterns'))
    return u


def patterns(d):
    base = [((i * 7919) % 101) / 10. - 5 for i in range(d)]
    out = [base, base[::-1], [1.] * d, [(-1.) ** i for i in range(d)], [float(i % 3) for i in range(d)], [-float(i) for i in range(d)],
           [float(d - i) for i in range(d)], [0.] * d, [1. if i % 2 else -1. - 1e-12 for i in range(d)],
           [1e-200 * x for x in base], [1e-12 * x for x in base[::-1]], [1e160 * x for x in base], [(-1.) ** i * 10. ** (-3 * i % 40) for i in range(d)]]
    for i in range(min(d, 12)):
        e = [0.] * d
        e[i] = -.5
        out.append(e)
    return out


def run(ctx, spec, h, b, which):
    L = ref.Lat(*spec)
    B, I = impl.bC(), impl.iC()
    c = impl.conf(L, h, b)
    sts = ref.sector(L.n, h, b)
    dets = [ref.det(o) for o in sts]
    idx = {tuple(x): i for i, x in enumerate(dets)}
    basis = B.Basis(c, [list(x) for x in dets])
    d = len(sts)
    vects = patterns(d) if which == 'patterns' else product((-2., -1., 0., 1., 2.) if which == 'five' else (-1., 0., 1.), repeat=d)
    for w in vects:
        w = list(w)
        ctx.states += 1
        for nb in range(d + 3) if d <= 9 else (0, 1, 2, 3, 5, d // 2, d - 1, d, d + 1):
            k = min(nb, d)
            best = sorted((abs(x) for x in w), reverse=True)[:k]
            for shape in ('column', 'flat'):
                v = np.array(w).reshape(-1, 1) if shape == 'column' else np.array(w)
                coeffs, got = B.get_dominant_determinants(basis, v, nb)
                ctx.replays += 1
                ctx.transitions += k
                what = '{} holes={} down={}: {} dominant states of {}'.format(L, h, b, nb, w if d < 10 else w[:8])
                if not ctx.same([abs(x) for x in coeffs], best, 'amplitudes', what):
                    continue
                pos = [idx.get(tuple(x)) for x in got]
                if len(set(pos)) != k or None in pos or [w[p] for p in pos] != list(coeffs):
                    ctx.fail('states', '{}: {} with {}'.format(what, got, coeffs))
                ctx.same(v.reshape(-1).tolist(), w, 'argument-changed', what)
            m = I.get_most_dominant_determinants(dets, np.array(w), nb)
            ctx.replays += 1
            what = '{} holes={} down={}: {} most dominant states of {}'.format(L, h, b, nb, w if d < 10 else w[:8])
            if ctx.same(sorted((abs(x) for _, x in m), reverse=True), best, 'dictionary', what):
                for (i, x), det in m.items():
                    if w[i] != x or list(det) != dets[i]:
                        ctx.fail('dictionary', '{}: state {} at {} with {}'.format(what, det, i, x))
    ctx.sample('{} holes={} down={}: {}'.format(L, h, b, which))
