"""Index <-> determinant bijection."""
from .. import impl, ref

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every sector up to 8 sites, and of 9 sites with at most 4 holes, each in three orders of listing; up to 40 sites: every sector with at most 3 holes and 3 spins down (or up) walked at both ends and around every change of the holes; 30 to 64 sites (every second size): balanced sectors of 0, 1, 2, n/4, n/3, n/2 holes around every third power of two, at both ends and around changes of the holes; all subsets for n <= 10',
          'thorough': 'every state of every sector up to 11 sites; up to 64 sites: sectors with at most 4 holes and 4 minority spins; balanced sectors of every size from 30 to 64; all subsets for n <= 13'}


def units(tier):
    q = tier == 'quick'
    u = [('all_states', n, h, h) for n in range(1, 9 if q else 12) for h in range(n + 1)]
    if q:
        u += [('all_states', 9, h, h) for h in range(5)]
    m, k = (40, 3) if q else (64, 4)
    u += [('big', n, h, k) for n in range(10, m + 1, 3 if q else 2) for h in range(k + 1)]
    u += [('huge', n) for n in range(30, 65, 2 if q else 1)]
    u += [('subsets', n) for n in range(1, 11 if q else 14)]
    return u


def one(ctx, c, o, i, inverse=True):
    b = impl.bC()
    d = ref.det(o)
    h, nb = c.nholes, c.nbeta
    ctx.states += 1
    ctx.same(int(b.compute_hash_table(c, list(d))), i, 'index', 'index of {} (holes={}, beta={})', d, h, nb)
    H, B, A = d[:h], d[h:h + nb], d[h + nb:]
    for v in (d, H[::-1] + B[::-1] + A[::-1], H[1:] + H[:1] + B[1:] + B[:1] + A[1:] + A[:1]):
        ctx.same(int(b.get_index_in_basis(c, list(v))), i, 'index-unordered', 'index of {} (holes={}, beta={})', v, h, nb)
        ctx.same(list(b.reorder_basis_element(c, list(v))), d, 'reorder', 'ordering of {} (holes={}, beta={})', v, h, nb)
        ctx.transitions += 1
    ctx.replays += 4
    if inverse:
        ctx.same(list(b.get_hash_basis(h, c.nalpha, nb, i)), d, 'determinant', 'determinant {} of (holes={}, alpha={}, beta={})', i, h, c.nalpha, nb)
        ctx.replays += 1


def all_states(ctx, n, h, _):
    L = ref.Lat('periodic', n, 1, 1)
    M = L.matrix()
    for b in range(n - h + 1):
        c = impl.conf(L, h, b, matrix=M)
        for i, o in enumerate(ref.sector(n, h, b)):
            one(ctx, c, o, i)
        ctx.sample('n={} holes={} beta={}: {} states'.format(n, h, b, i + 1))


def big(ctx, n, h, k):
    L = ref.Lat('periodic', n, 1, 1)
    M = L.matrix()
    for b in sorted(set(list(range(k + 1)) + list(range(max(0, n - h - k), n - h + 1)))):
        c = impl.conf(L, h, b, matrix=M)
        per = ref.binom(n - h, b)
        dim = ref.binom(n, h) * per
        ctx.same(int(c.nb_conf), dim, 'dimension', 'n={} holes={} beta={}', n, h, b)
        pos = set(range(min(dim, 12))) | set(range(max(0, dim - 12), dim))
        nh = ref.binom(n, h)
        edge = range(nh) if nh <= 40 else list(range(20)) + list(range(nh - 20, nh))
        for e in edge:                                       # both sides of every change of the holes
            pos |= {x for x in (e * per - 1, e * per, e * per + per // 2) if 0 <= x < dim}
        for i in sorted(pos):
            o = ref.unrank(n, h, b, i)
            assert ref.rank(o) == i
            one(ctx, c, o, i, inverse=per <= 20000 and nh <= 20000)
        ctx.sample('n={} holes={} beta={}: {} of {} indices'.format(n, h, b, len(pos), dim))


def huge(ctx, n):
    """Balanced sectors whose dimension exceeds machine integers and floats: exact ranks."""
    L = ref.Lat('periodic', n, 1, 1)
    M = L.matrix()
    for h in sorted({0, 1, 2, n // 4, n // 3, n // 2}):
        m = n - h
        for b in sorted({m // 4, m // 2, (m + 1) // 2, m - m // 4}):
            c = impl.conf(L, h, b, matrix=M)
            per, nh = ref.binom(m, b), ref.binom(n, h)
            dim = nh * per
            ctx.same(int(c.nb_conf), dim, 'dimension', 'n={} holes={} beta={}', n, h, b)
            pos = set(range(4)) | set(range(dim - 4, dim))
            for p in range(20, dim.bit_length(), 3):
                pos |= {(1 << p) - 1, 1 << p, (1 << p) + 1, dim - (1 << p) - 1}
            for e in sorted({0, 1, nh // 3, nh // 2, nh - 1}):
                pos |= {e * per - 1, e * per, e * per + 1, e * per + per // 2, e * per + per // 3}
            for i in sorted(x for x in pos if 0 <= x < dim):
                o = ref.unrank(n, h, b, i)
                assert ref.rank(o) == i
                one(ctx, c, o, i, inverse=False)
    ctx.sample('n={}: balanced sectors up to dimension {}'.format(n, dim))


def subsets(ctx, n):
    """The subset codes underneath: rank and unrank of every subset, and of every disjoint pair."""
    from itertools import combinations
    b = impl.bC()
    for k in range(n + 1):
        for i, sub in enumerate(combinations(range(n), k)):
            ctx.states += 1
            ctx.replays += 2
            ctx.same(list(b.get_target_hash(n, k, i)), list(sub), 'subset', 'subset {} of size {} of {}', i, k, n)
            ctx.same(int(b.get_distance_hash(n, [], list(sub))), i, 'subset-rank', 'rank of {} in {}', sub, n)
    m = min(n, 7)
    if n > m:
        return
    for k in range(m + 1):
        for hs in combinations(range(m), k):
            rest = [s for s in range(m) if s not in hs]
            for j in range(len(rest) + 1):
                for i, sub in enumerate(combinations(range(len(rest)), j)):
                    real = [rest[x] for x in sub]
                    ctx.transitions += 1
                    ctx.replays += 3
                    ctx.same(sorted(b.fusion_hash(list(hs), list(sub))), sorted(list(hs) + real), 'fusion', 'holes {} and free positions {}', hs, sub)
                    ctx.same([int(x) for x in b.project_hash(list(hs), real)], [sum(x < r for x in hs) for r in real], 'projection', 'holes {} and sites {}', hs, real)
                    ctx.same(int(b.get_distance_hash(m, list(hs), real)), i, 'pair-rank', 'rank of {} around {} in {}', real, hs, m)
