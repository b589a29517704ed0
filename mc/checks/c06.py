"""Colinear or orthogonal: every path of three sites; every other triple refused."""
from itertools import permutations, product

from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every ordered triple of sites of every rectangular lattice up to 12 sites, every joined lattice up to 18 sites, every block with ring up to 14 sites; every path of three sites of rectangular lattices up to 36, joined up to 50 and ringed up to 33 sites, in all six orders',
          'thorough': 'every ordered triple up to 24 sites; every path of three sites up to 64 sites, in all six orders'}


def units(tier):
    q = tier == 'quick'
    tri = {'periodic': 12, 'clusters': 18, 'peripheral': 14} if q else {'periodic': 24, 'clusters': 24, 'peripheral': 24}
    path = {'periodic': 36, 'clusters': 50, 'peripheral': 33} if q else {'periodic': 64, 'clusters': 64, 'peripheral': 56}
    u = []
    for k in tri:
        for s in space.all_specs(k, 2, path[k]):
            u.append(('triples' if ref.Lat(*s).n <= tri[k] else 'paths', s))
    u.sort(key=lambda x: -ref.Lat(*x[1]).n)
    return u


def ask(c, t):
    try:
        r = impl.bC().is_bond_linear(c, *t)
    except ValueError:
        return 'refused'
    if r not in (True, False):
        return r
    return bool(r)


def answer(L, t):
    if len(set(t)) < 3:
        return 'refused'
    a, b, c = t
    for m, x, y in ((a, b, c), (b, a, c), (c, a, b)):
        if L.adjacent(m, x) and L.adjacent(m, y):
            return L.colinear(x, m, y)
    return 'refused'


def triples(ctx, spec):
    L = ref.Lat(*spec)
    c = impl.conf(L, 0, 0)
    for t in product(range(L.n), repeat=3):
        compare(ctx, L, c, t)
    ctx.sample('{}: all triples'.format(L))


def paths(ctx, spec):
    L = ref.Lat(*spec)
    c = impl.conf(L, 0, 0)
    for m in range(L.n):
        for x in L.nb[m]:
            for y in L.nb[m]:
                if x < y:
                    for t in permutations((x, m, y)):
                        compare(ctx, L, c, t)
    ctx.sample('{}: all paths'.format(L))


def compare(ctx, L, c, t):
    want = answer(L, t)
    got = ask(c, t)
    ctx.states += 1
    ctx.replays += 1
    ctx.transitions += want != 'refused'
    if got != want or type(got) is not type(want):
        ctx.fail('colinear', '{}: sites {} at {}: {} instead of {}'.format(L, t, [L.pts[i] for i in t], got, want))
