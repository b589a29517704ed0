"""Shared driver of the operator checks: enumerate states of lattices and compare one operator's images."""
from collections import Counter

from . import impl, ref, space


# larger lattices, walked through periodic patterns of any contents and nearly empty states
LONG = (['periodic', 11, 1, 1], ['periodic', 1, 12, 1], ['periodic', 5, 2, 1], ['periodic', 3, 4, 1], ['periodic', 7, 2, 1], ['periodic', 1, 1, 4], ['periodic', 2, 1, 3], ['periodic', 5, 5, 1],
        ['clusters', 5, 1, 1], ['clusters', 2, 3, 1], ['clusters', 1, 1, 3], ['clusters', 4, 3, 1], ['peripheral', 2, 2, 1], ['peripheral', 3, 1, 1], ['peripheral', 2, 3, 1], ['peripheral', 1, 1, 3])


def op_units(tier, fn, full_quick, full_thorough, few, restr=(4, 5), structured=True):
    """full_*: {kind: highest number of sites explored exhaustively}; few: list of (spec, mode)."""
    top = full_quick if tier == 'quick' else full_thorough
    u = []
    for kind, m in top.items():
        for s in space.all_specs(kind, 1, m):
            n = ref.Lat(*s).n
            if n <= 6:
                u.append((fn, s, ['full', None], 'none'))
            else:
                u += [(fn, s, ['full', h], 'none') for h in range(n + 1)]
    u += [(fn, s, m, 'none') for s, m in few]
    lo = restr[0] if tier == 'quick' else restr[1]
    for kind in top:
        for s in space.all_specs(kind, 1, lo + 1):
            u.append((fn, s, ['full', None], 'subsets'))
        for s in space.all_specs(kind, 1, lo):
            u.append((fn, s, ['full', None], 'pairs'))
    if structured:
        for s in (['clusters', 1, 2, 1], ['clusters', 2, 2, 1], ['clusters', 1, 3, 1], ['peripheral', 1, 1, 1], ['peripheral', 2, 1, 1], ['periodic', 3, 2, 1]):
            L = ref.Lat(*s)
            for h in (1, 2, 3):
                u.append((fn, s, ['full', h], 'structured'))
        # beyond eight sites the hash order of sets of sites is no longer increasing
        for s in (['periodic', 3, 3, 1], ['clusters', 3, 2, 1], ['peripheral', 2, 2, 1]):
            for h in (1, 2):
                u.append((fn, s, ['few', h, 1], 'structured'))
    for s in LONG:
        u.append((fn, s, ['words', 4 if tier == 'quick' else 6], 'none'))
        u.append((fn, s, ['dilute', 1 if tier == 'quick' and ref.Lat(*s).n > 16 else 2], 'none'))
        if structured and ref.Lat(*s).n < 20:
            u.append((fn, s, ['words', 2 if tier == 'quick' else 4], 'structured'))
    if tier == 'thorough':
        rank = lambda x: -(3 ** min(ref.Lat(*x[1]).n, 11))
        u.sort(key=rank)
    return u


def restrictions(L, mode, symmetric=False):
    if mode == 'none':
        return [[]]
    subs = [r for r in space.subsets(L.n) if r] if L.n <= 6 else None
    if mode == 'subsets':
        return subs
    if mode == 'pairs':
        if symmetric:
            return [(a, a) for a in subs]
        return [(a, b) for a in subs for b in subs]
    left, right = list(range(L.nblock)), list(range(L.nblock, L.n))
    front = [a for a in left if any(b in right for b in L.nb[a])] or left[:2]
    frontb = [a for a in right if any(b in left for b in L.nb[a])]
    evens = list(range(0, L.n, 2))
    out = [left, evens, list(reversed(front))]
    if right:
        out += [right]
        if not symmetric:
            out += [(left, right), (right, left), (front, frontb), (frontb, front), (evens, right)]
    elif not symmetric:
        odds = list(range(1, L.n, 2))
        out += [(evens, odds), (odds, evens), (left[: L.n // 2], left[L.n // 2:])]
    return [r for r in out if r]


def parts(r):
    if not r:
        return None, None
    if isinstance(r, tuple):
        return r
    return r, r


def explore(ctx, spec, mode, rmode, body, symmetric=False):
    """body(L, c, inter-free state) is called on every state of the space."""
    L = ref.Lat(*spec)
    M = L.matrix()
    confs = {}
    for r in restrictions(L, rmode, symmetric):
        S, T = parts(r)
        confs.clear()
        n = 0
        for o in space.states(L, mode):
            k = (o.count(0), o.count(-1))
            if k not in confs:
                confs[k] = impl.conf(L, k[0], k[1], r, M)
            ctx.states += 1
            n += 1
            body(ctx, L, confs[k], o, S, T, r)
            if n == 7:
                ctx.sample({'lattice': repr(L), 'restriction': r, 'state': ref.det(o), 'holes': k[0], 'down': k[1]})


def multiset(dets):
    return Counter(tuple(d) for d in dets)


def images(states):
    return Counter(tuple(ref.det(o)) for o in states)


def diff(ctx, key, L, r, o, got, want):
    """Compare multisets of images."""
    if got == want:
        return
    extra, miss = got - want, want - got
    ctx.fail(key, '{} restriction {}: on {} (holes={}, down={}): unexpected images {}, missing images {}'.format(
        L, r, ref.det(o), o.count(0), o.count(-1), dict(list(extra.items())[:4]), dict(list(miss.items())[:4])))
