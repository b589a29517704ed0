"""Bounded state spaces."""
from itertools import combinations, product

from . import ref


def lat(spec):
    return ref.Lat(*spec)


def all_specs(kind, lo, hi):
    """Every lattice of a kind whose total number of sites lies in [lo, hi]."""
    out = []
    for nb in range(1, hi + 1):
        for s in ref.shapes(nb):
            L = ref.Lat(kind, *s)
            if lo <= L.n <= hi:
                out.append(L.spec())
    return out


def full(L, nholes=None):
    for h, b in ref.sectors(L.n):
        if nholes is None or h == nholes:
            for o in ref.sector(L.n, h, b):
                yield o


def few(L, nholes, maxminor):
    """States with nholes holes and at most maxminor spins of the rarer kind (both choices of it)."""
    for holes in combinations(range(L.n), nholes):
        hs = set(holes)
        rest = [s for s in range(L.n) if s not in hs]
        for k in range(min(maxminor, len(rest)) + 1):
            for minor in combinations(rest, k):
                m = set(minor)
                o = tuple(0 if s in hs else -1 if s in m else 1 for s in range(L.n))
                yield o
                if len(rest) > 2 * k:
                    yield tuple(-x for x in o)


def dilute(L, nelec):
    """States with nelec electrons of any spins."""
    for sites in combinations(range(L.n), nelec):
        for spins in product((1, -1), repeat=nelec):
            o = [0] * L.n
            for s, x in zip(sites, spins):
                o[s] = x
            yield tuple(o)


def words(L, length):
    """Periodic patterns of any contents: every word over hole, up and down read along the sites, the columns, the rows, the diagonals and knight moves."""
    seen = set()
    for k in range(2, length + 1):
        for w in product((0, 1, -1), repeat=k):
            for at in (lambda i, x, y: i, lambda i, x, y: x, lambda i, x, y: y, lambda i, x, y: x + y, lambda i, x, y: x + 2 * y):
                o = tuple(w[at(i, int(x), int(y)) % k] for i, (x, y) in enumerate(L.pts))
                if o not in seen:
                    seen.add(o)
                    yield o


def neel(L, nholes, ndefects=0):
    """Neel background with nholes holes and ndefects reversed spins: every spin is antiparallel to its neighbours."""
    base = [1 if (x + y) % 2 == 0 else -1 for x, y in L.pts]
    for holes in combinations(range(L.n), nholes):
        rest = [s for s in range(L.n) if s not in holes]
        for flip in combinations(rest, ndefects):
            yield tuple(0 if s in holes else -base[s] if s in flip else base[s] for s in range(L.n))


def states(L, mode):
    """mode: ['full', nholes] | ['few', nholes, k] | ['neel', nholes, k] | ['dilute', k] | ['words', k]."""
    if mode[0] == 'full':
        return full(L, mode[1])
    if mode[0] == 'few':
        return few(L, mode[1], mode[2])
    if mode[0] == 'dilute':
        return dilute(L, mode[1])
    if mode[0] == 'words':
        return words(L, mode[1])
    return neel(L, mode[1], mode[2])


def subsets(n):
    return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]
