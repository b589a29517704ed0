"""Neighbour queries and bond lists, with and without restrictions."""
from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every site of every lattice (rectangular up to 25 sites, joined up to 18, with ring up to 21); every subset of sites as restriction up to 7 sites; every pair (starting subset, target subset) up to 4 sites; rows, columns, blocks and frontiers on 9 to 18 sites',
          'thorough': 'every site of every lattice up to 36 sites; every subset up to 10 sites; every pair of subsets up to 5 sites'}
ASSUMPTIONS = ['A two-part restriction admits a bond from its first part to its second part in increasing site order, the order in which the embeddings pass it; single-part restrictions admit every bond inside the part.']


def units(tier):
    q = tier == 'quick'
    top = {'periodic': 25, 'clusters': 18, 'peripheral': 21} if q else {'periodic': 36, 'clusters': 36, 'peripheral': 33}
    sub, pair = (7, 4) if q else (10, 5)
    u = []
    for kind in top:
        for s in space.all_specs(kind, 1, top[kind]):
            u.append(('queries', s, 'none'))
            n = ref.Lat(*s).n
            if n <= sub:
                u.append(('queries', s, 'subsets'))
            elif n >= 8:
                u.append(('queries', s, 'structured'))
            if n <= pair:
                u.append(('queries', s, 'pairs'))
    return u


def restrictions(L, mode):
    if mode == 'none':
        return [[]]
    if mode == 'subsets':
        return [r for r in space.subsets(L.n) if r]
    if mode == 'pairs':
        subs = space.subsets(L.n)
        return [(a, b) for a in subs for b in subs]
    left, right = list(range(L.nblock)), list(range(L.nblock, L.n))
    rows = [[i for i, p in enumerate(L.pts) if p[1] == y] for y in sorted({p[1] for p in L.pts})]
    cols = [[i for i, p in enumerate(L.pts) if p[0] == x] for x in sorted({p[0] for p in L.pts})]
    parts = [r for r in rows + cols + [left, right] if r]
    out = parts + [list(reversed(r)) for r in parts[:2]]
    out += [(a, b) for a in parts for b in parts if a != b]
    return out


def queries(ctx, spec, mode):
    L = ref.Lat(*spec)
    M = L.matrix()
    f = impl.lF()
    everything = set(range(L.n))
    for r in restrictions(L, mode):
        S, T = (everything, everything) if not r else (set(r[0]), set(r[1])) if isinstance(r, tuple) else (set(r), set(r))
        c = impl.conf(L, 0, 0, r, M)
        for s in range(L.n):
            for name, got, want in (
                    ('neighbors', f.get_neighbors(s, M, r), L.nbset[s] & T),
                    ('second-neighbors', f.get_second_neighbors(s, M, r), L.second(s) & T),
                    ('diagonal-neighbors', f.get_diagonal_second_neighbors(c, s), L.diagonal(s) & T)):
                ctx.replays += 1
                ctx.transitions += len(want)
                got = [int(x) for x in got]
                if sorted(got) != sorted(want):
                    ctx.fail(name, '{} restriction {}: {} of site {} at {}: {} instead of {}'.format(L, r, name, s, L.pts[s], sorted(got), sorted(want)))
            ctx.states += 1
        got = [tuple(int(x) for x in b) for b in f.build_bond_list(M, r if isinstance(r, tuple) or not r else (r, r))]
        want = ref.restricted_bonds(L, S, T)
        ctx.replays += 1
        if sorted(tuple(sorted(b)) for b in got) != sorted(want):
            ctx.fail('bonds', '{} restriction {}: bonds {} instead of {}'.format(L, r, sorted(got), sorted(want)))
    ctx.sample('{} restrictions {}'.format(L, mode))
