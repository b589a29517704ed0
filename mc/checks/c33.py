"""Printed states: every site shown at its place with what it holds."""
import numpy as np

from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular lattice up to 9 sites, and those with at most 2 holes and 2 minority spins of 10 to 12 sites; every state of every block with ring up to 8 sites, at most 1 hole and 1 minority spin up to 21; periodic patterns of up to 4 letters on every rectangle of 13 to 25 sites and every ring up to 27; every pair of states of two blocks up to 3 sites each, patterns and states of one electron on five pairs of larger ones; dominant states of every unit vector and one full vector of every sector up to 5 sites',
          'thorough': 'every state up to 10 sites (9 with ring); pairs of blocks up to 4 sites each; sparse states up to 25 sites'}
ASSUMPTIONS = ['The first row of a lattice is printed at the bottom, as its documentation draws it.']
ARROW = {0: '0', 1: '\u2191', -1: '\u2193'}


def units(tier):
    q = tier == 'quick'
    u = []
    for s in space.all_specs('periodic', 1, 9 if q else 10):
        u += [('plain', s, ['full', h]) for h in range(ref.Lat(*s).n + 1)]
    for s in space.all_specs('periodic', 10 if q else 11, 12 if q else 25):
        u += [('plain', s, ['few', h, 2 if ref.Lat(*s).n < 13 else 1]) for h in (0, 1, 2)]
    for s in space.all_specs('peripheral', 1, 21 if q else 25):
        n = ref.Lat(*s).n
        u += [('ring', s, ['full', h]) for h in range(n + 1)] if n <= (8 if q else 9) else [('ring', s, ['few', h, 1]) for h in (0, 1)]
    sizes = [(a, b, h) for a in range(1, 4 if q else 5) for b in range(1, 4 if q else 5) for h in range(1, 4 if q else 5)]
    u += [('pair', a, b, h) for a, b, h in sizes if a * h <= (3 if q else 4) and b * h <= (3 if q else 4)]
    u += [('plain', s, ['words', 4]) for s in space.all_specs('periodic', 13, 25 if q else 36)] + [('ring', s, ['words', 4 if q else 5]) for s in space.all_specs('peripheral', 9, 27 if q else 36)]
    u += [('big_pair', s1, s2) for s1, s2 in (([3, 3, 1], [3, 3, 1]), ([1, 1, 3], [1, 3, 1]), ([5, 2, 1], [1, 2, 1]), ([1, 1, 4], [2, 2, 2]), ([2, 5, 1], [3, 5, 1]))]
    u += [('lists', s) for s in space.all_specs('periodic', 1, 5 if q else 6)]
    return u


def rows(W, H, at):
    """Lines of a W x H lattice, first row at the bottom."""
    out = []
    for y in reversed(range(H)):
        out.append('--'.join(ARROW[at(x, y)] for x in range(W)))
        if y:
            out.append('  '.join('|' for _ in range(W)))
    return out


def plain_text(L, o):
    return '\n'.join(rows(L.W, L.H, lambda x, y: o[L.at[(x, y)]]))


def ring_text(L, o):
    """The block framed by its ring: above, below, and at both ends of each row."""
    W, H = L.W, L.H
    top = '   ' + '--'.join(ARROW[o[L.at[(x, H)]]] for x in range(W))
    low = '   ' + '--'.join(ARROW[o[L.at[(x, -1)]]] for x in range(W))
    mid = []
    for y in reversed(range(H)):
        mid.append(ARROW[o[L.at[(-1, y)]]] + '  ' + '--'.join(ARROW[o[L.at[(x, y)]]] for x in range(W)) + '  ' + ARROW[o[L.at[(W, y)]]])
        if y:
            mid.append('  '.join('|' for _ in range(W + 2)))
    return '\n'.join([top, ''] + mid + ['', low])


def plain(ctx, spec, mode):
    L = ref.Lat(*spec)
    B = impl.bC()
    M = L.matrix()
    for o in space.states(L, mode):
        h, b = sum(x == 0 for x in o), sum(x == -1 for x in o)
        c = impl.conf(L, h, b, None, M)
        d = ref.det(o)
        ctx.states += 1
        ctx.transitions += 1
        ctx.replays += 1
        ctx.same(B.get_displayable_rectangular_lattice(c, d), plain_text(L, o), 'lattice', '{} state {}', L, o)
        ctx.same(B.get_displayable_determinant(c, d), [{0: '0', 1: '+', -1: '-'}[x] for x in o], 'state', '{} state {}', L, o)
    ctx.sample('{} {}'.format(L, mode))


def ring(ctx, spec, mode):
    L = ref.Lat(*spec)
    B = impl.bC()
    M = L.matrix()
    for o in space.states(L, mode):
        h, b = sum(x == 0 for x in o), sum(x == -1 for x in o)
        ctx.states += 1
        ctx.transitions += 1
        ctx.replays += 1
        ctx.same(B.get_displayable_outer_embedding_lattice(impl.conf(L, h, b, None, M), ref.det(o)), ring_text(L, o), 'ring', '{} state {}', L, o)
    ctx.sample('{} {}'.format(L, mode))


def pair(ctx, a, b, height):
    A, C = ref.Lat('periodic', a, height, 1), ref.Lat('periodic', b, height, 1)
    B = impl.bC()
    MA, MC = A.matrix(), C.matrix()
    for o in space.full(A):
        ca = impl.conf(A, sum(x == 0 for x in o), sum(x == -1 for x in o), None, MA)
        for p in space.full(C):
            cc = impl.conf(C, sum(x == 0 for x in p), sum(x == -1 for x in p), None, MC)
            ctx.states += 1
            ctx.transitions += 1
            ctx.replays += 1
            want = [x + ' ' + y for x, y in zip(plain_text(A, o).split('\n'), plain_text(C, p).split('\n'))]
            got = B.get_displayable_neighbor(ca, cc, ref.det(o), ref.det(p))
            ctx.same(got.rstrip('\n').split('\n'), want, 'neighbours', '{} next to {}', o, p)
    ctx.sample('{} next to {}: every pair of states'.format(A, C))


def big_pair(ctx, s1, s2):
    A, C = ref.Lat('periodic', *s1), ref.Lat('periodic', *s2)
    B = impl.bC()
    MA, MC = A.matrix(), C.matrix()
    for o in list(space.words(A, 3)) + list(space.dilute(A, 1)):
        ca = impl.conf(A, o.count(0), o.count(-1), None, MA)
        for p in list(space.words(C, 2)) + list(space.dilute(C, 1)):
            ctx.states += 1
            ctx.transitions += 1
            ctx.replays += 1
            want = [x + ' ' + y for x, y in zip(plain_text(A, o).split('\n'), plain_text(C, p).split('\n'))]
            got = B.get_displayable_neighbor(ca, impl.conf(C, p.count(0), p.count(-1), None, MC), ref.det(o), ref.det(p))
            ctx.same(got.rstrip('\n').split('\n'), want, 'neighbours', '{} next to {}', o, p)
    ctx.sample('{} next to {}: patterns'.format(A, C))


def lists(ctx, spec):
    L = ref.Lat(*spec)
    B = impl.bC()
    M = L.matrix()
    for h, b in ref.sectors(L.n):
        basis = B.construct_basis(impl.conf(L, h, b, None, M))
        st = ref.sector(L.n, h, b)
        ctx.same([list(x) for x in B.get_displayable_basis(basis)], [[{0: '0', 1: '+', -1: '-'}[x] for x in o] for o in st], 'basis', '{} holes={} down={}', L, h, b)
        d = len(st)
        vects = [np.eye(d)[:, [i]] for i in range(d)] + [np.array([[(-1.) ** i * (1 + (i * 7) % 31 + i / 100)] for i in range(d)])]
        for v in vects[:40] + vects[-1:]:
            ctx.states += 1
            ctx.transitions += 1
            ctx.replays += 1
            k = 1 if np.count_nonzero(v) == 1 else min(d, 5)
            order = sorted(range(d), key=lambda i: -abs(v[i, 0]))[:k]
            co, texts = B.get_displayable_dominant_determinants(basis, v, k)
            ctx.same(list(texts), [plain_text(L, st[i]) for i in order], 'dominant', '{} holes={} down={}', L, h, b)
            ctx.close(co, [v[i, 0] for i in order], 'dominant', '{} holes={} down={}', L, h, b)
    ctx.sample('{}: bases and dominant states'.format(L))
