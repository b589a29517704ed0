"""Quarter turns of square blocks."""
from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of the square blocks of 1, 4 and 9 sites (every way to give their dimensions), quarter turns -5 to 9; states with at most 2 holes and 2 minority spins of 16 sites, one hole and one minority spin up to 36 sites; periodic patterns of up to 4 letters of 16 to 49 sites, every state of 2 electrons of 16 and 25',
          'thorough': 'also every state with at most 3 holes and 3 minority spins of 16 sites, 2 and 2 of 25 sites'}
SQ = {1: [(1, 1, 1)], 2: [(2, 2, 1), (1, 1, 2)], 3: [(3, 3, 1), (1, 1, 3)], 4: [(4, 4, 1), (2, 2, 2), (1, 1, 4)], 5: [(5, 5, 1), (1, 1, 5)], 6: [(6, 6, 1), (3, 3, 2), (2, 2, 3), (1, 1, 6)], 7: [(7, 7, 1), (1, 1, 7)]}


def units(tier):
    u = []
    for w in (1, 2, 3):
        for s in SQ[w]:
            u += [('run', ['periodic'] + list(s), ['full', h]) for h in range(w * w + 1)]
    for s in SQ[4]:
        u += [('run', ['periodic'] + list(s), ['few', h, k]) for h, k in ((0, 2), (1, 2), (2, 1))]
        if tier == 'thorough':
            u += [('run', ['periodic'] + list(s), ['few', h, k]) for h, k in ((0, 4), (1, 3), (2, 2), (3, 1))]
    for w in (5, 6):
        for s in SQ[w]:
            u += [('run', ['periodic'] + list(s), ['few', h, 1]) for h in (0, 1)]
            if tier == 'thorough' and w == 5:
                u.append(('run', ['periodic'] + list(s), ['few', 1, 2]))
    u += [('run', ['periodic'] + list(s), ['words', 4 if tier == 'quick' else 5]) for w in (4, 5, 6, 7) for s in SQ[w]]
    u += [('run', ['periodic'] + list(s), ['dilute', 2]) for w in (4, 5) for s in SQ[w]]
    return u


def run(ctx, spec, mode):
    L = ref.Lat(*spec)
    B = impl.bC()
    M = L.matrix()
    confs = {}
    for o in space.states(L, mode):
        k = (o.count(0), o.count(-1))
        if k not in confs:
            confs[k] = impl.conf(L, k[0], k[1], None, M)
        c = confs[k]
        turned = [ref.det(ref.rotate(L, o, t)) for t in range(4)]
        ctx.states += 1
        for t in range(-5, 10):
            d = ref.det(o)
            got = B.rotate_determinant(t, c, d)
            ctx.replays += 1
            ctx.transitions += 1
            ctx.same(list(got), turned[t % 4], 'rotation', '{} {} turned {} times (holes={}, down={})', L, ref.det(o), t, k[0], k[1])
            ctx.same(d, ref.det(o), 'argument-changed', '{} {} turned {} times', L, ref.det(o), t)
        # a turned state can be turned again: four turns come back
        d = ref.det(o)
        for _ in range(4):
            d = B.rotate_determinant(1, c, d)
        ctx.same(list(d), ref.det(o), 'four-turns', '{} {} (holes={}, down={})', L, ref.det(o), k[0], k[1])
    ctx.sample('{} {}'.format(L, mode))
