"""Joining the states of two lattices."""
from .. import impl, ops, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every pair of states of two chains with 7 sites or less in all; every pair of states of two chains with 4 sites or less in all under every pair of restrictions; pairs of 2x2 blocks, and of a 2x2 block and its ring with one hole or none; periodic patterns of up to 3 letters (2 under restrictions) and states of one electron of pairs of lattices of 8 to 16 sites each',
          'thorough': 'every pair of states up to 9 sites in all'}


def units(tier):
    top = 7 if tier == 'quick' else 9
    u = []
    for n1 in range(1, top):
        for n2 in range(1, top - n1 + 1):
            for h1 in range(n1 + 1):
                u.append(('pairs', [n1, 1, 1], [n2, 1, 1], h1, 'none'))
                if n1 + n2 <= 4:
                    u.append(('pairs', [n1, 1, 1], [n2, 1, 1], h1, 'subsets'))
    for h1 in range(5):
        u.append(('pairs', [2, 2, 1], [2, 2, 1], h1, 'none'))
        u.append(('pairs', [1, 1, 2], [1, 1, 2], h1, 'structured'))
    for h1 in (0, 1):
        u.append(('pairs', [2, 2, 1], [8, 1, 1], h1, 'none1'))
    for s1, s2 in (([3, 3, 1], [3, 3, 1]), ([1, 1, 3], [12, 1, 1]), ([12, 1, 1], [2, 2, 1]), ([1, 1, 4], [1, 1, 4]), ([4, 3, 1], [4, 3, 1])):
        for r in ('none', 'structured'):
            u.append(('patterns', s1, s2, r))
    return u


def patterns(ctx, s1, s2, mode):
    L1, L2 = ref.Lat('periodic', *s1), ref.Lat('periodic', *s2)
    B = impl.bC()
    k = 3 if mode == 'none' else 2
    first, second = list(space.words(L1, k)) + list(space.dilute(L1, 1)), list(space.words(L2, k)) + list(space.dilute(L2, 1))
    for r1 in [[]] if mode == 'none' else ops.restrictions(L1, mode):
        for r2 in [[]] if mode == 'none' else ops.restrictions(L2, mode):
            con = {}
            for L, r, some in ((L1, r1, first), (L2, r2, second)):
                for o in some:
                    if (id(L), o.count(0), o.count(-1)) not in con:
                        con[id(L), o.count(0), o.count(-1)] = impl.conf(L, o.count(0), o.count(-1), r)
            for o1 in first:
                c1 = con[id(L1), o1.count(0), o1.count(-1)]
                for o2 in second:
                    c2 = con[id(L2), o2.count(0), o2.count(-1)]
                    got = B.extend_determinant(c1, c2, ref.det(o1), ref.det(o2))
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.replays += 1
                    ctx.same(list(got), ref.det(o1 + o2), 'join', '{} {} with {} {}', L1, o1, L2, o2)
    ctx.sample('{} joined with {}: patterns'.format(L1, L2))


def pairs(ctx, s1, s2, h1, mode):
    L1, L2 = ref.Lat('periodic', *s1), ref.Lat('periodic', *s2)
    B = impl.bC()
    r1s = [[]] if mode.startswith('none') else ops.restrictions(L1, mode)
    r2s = [[]] if mode.startswith('none') else ops.restrictions(L2, mode)
    second = [(h, b) for h, b in ref.sectors(L2.n) if mode != 'none1' or h <= 1]
    for r1 in r1s:
        for r2 in r2s:
            for b1 in range(L1.n - h1 + 1):
                c1 = impl.conf(L1, h1, b1, r1)
                for h2, b2 in second:
                    c2 = impl.conf(L2, h2, b2, r2)
                    for o1 in ref.sector(L1.n, h1, b1):
                        d1 = ref.det(o1)
                        for o2 in ref.sector(L2.n, h2, b2):
                            d2 = ref.det(o2)
                            got = B.extend_determinant(c1, c2, d1, d2)
                            ctx.states += 1
                            ctx.transitions += 1
                            ctx.replays += 1
                            if list(got) != ref.det(o1 + o2):
                                ctx.fail('join', '{} {} (holes={}, down={}, restriction {}) with {} {} (holes={}, down={}, restriction {}): {} instead of {}'.format(
                                    L1, d1, h1, b1, r1, L2, d2, h2, b2, r2, got, ref.det(o1 + o2)))
                            if d1 != ref.det(o1) or d2 != ref.det(o2):
                                ctx.fail('argument-changed', '{} {} and {} {}'.format(L1, ref.det(o1), L2, ref.det(o2)))
                                return
    ctx.sample('{} holes={} joined with {}: every pair of states'.format(L1, h1, L2))
