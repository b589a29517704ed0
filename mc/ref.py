"""Reference model of the extended t-J lattice, written from the documentation alone.

A lattice is a list of points of the plane; two sites are linked when their points are at
distance 1.  A state is one symbol per site: 0 (hole), -1 (spin down), +1 (spin up).
Nothing here imports the code under test or shares a formula with it.
"""
from collections import Counter
from fractions import Fraction
from functools import lru_cache
from itertools import combinations, product


class Lat:
    """kind: 'periodic' (one block, row by row), 'clusters' (two such blocks side by side, the
    left one first), 'peripheral' (a block, then its ring counter-clockwise from the bottom)."""

    def __init__(self, kind, nbh, nbv, side):
        self.kind, self.nbh, self.nbv, self.side = kind, nbh, nbv, side
        W, H = nbh * side, nbv * side
        self.W, self.H = W, H
        block = [(x, y) for y in range(H) for x in range(W)]
        self.nblock = len(block)
        pts = list(block)
        if kind == 'clusters':
            pts += [(x + W, y) for x, y in block]
        elif kind == 'peripheral':
            pts += [(x, -1) for x in range(W)]
            pts += [(W, y) for y in range(H)]
            pts += [(x, H) for x in reversed(range(W))]
            pts += [(-1, y) for y in reversed(range(H))]
        self.pts = pts
        self.n = len(pts)
        at = {p: i for i, p in enumerate(pts)}
        self.at = at
        self.nb = [sorted(at[(x + dx, y + dy)] for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)) if (x + dx, y + dy) in at)
                   for x, y in pts]
        self.nbset = [set(s) for s in self.nb]

    def __repr__(self):
        return '{}({},{},{})'.format(self.kind, self.nbh, self.nbv, self.side)

    def spec(self):
        return [self.kind, self.nbh, self.nbv, self.side]

    # geometry -----------------------------------------------------------------------------
    def adjacent(self, a, b):
        (x, y), (u, v) = self.pts[a], self.pts[b]
        return abs(x - u) + abs(y - v) == 1

    def colinear(self, a, m, b):
        """a - m - b is a path: are the two bonds aligned?"""
        (x, y), (p, q), (u, v) = self.pts[a], self.pts[m], self.pts[b]
        return x + u == 2 * p and y + v == 2 * q

    def second(self, s):
        """Sites two bonds away."""
        return {c for b in self.nb[s] for c in self.nb[b]} - {s} - self.nbset[s]

    def diagonal(self, s):
        """Sites two bonds away around a corner."""
        return {c for b in self.nb[s] for c in self.nb[b] if c != s and not self.colinear(s, b, c)} - self.nbset[s]

    def bonds(self):
        return [(a, b) for a in range(self.n) for b in self.nb[a] if a < b]

    def matrix(self):
        import numpy as np
        m = np.zeros((self.n, self.n))
        for a in range(self.n):
            for b in self.nb[a]:
                m[a, b] = 1
        return m

    def symmetries(self):
        """Permutations of sites induced by the isometries of the plane that map the points onto themselves
        and keep the bonds."""
        xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
        cx, cy = min(xs) + max(xs), min(ys) + max(ys)           # twice the centre
        out = []
        for a, b, c, d in ((1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1),
                           (0, 1, 1, 0), (0, -1, 1, 0), (0, 1, -1, 0), (0, -1, -1, 0)):
            perm = []
            for x, y in self.pts:
                X, Y = 2 * x - cx, 2 * y - cy
                u, v = a * X + b * Y + cx, c * X + d * Y + cy
                if u % 2 or v % 2 or (u // 2, v // 2) not in self.at:
                    break
                perm.append(self.at[(u // 2, v // 2)])
            else:
                if perm not in out:
                    out.append(perm)
        return out


# states ---------------------------------------------------------------------------------------
def det(occ):
    """Encoding of a state: holes, then spins down, then spins up, each in increasing order."""
    return [i for i, o in enumerate(occ) if o == 0] + [i for i, o in enumerate(occ) if o == -1] + [i for i, o in enumerate(occ) if o == 1]


def occ_of(d, nholes, nbeta):
    occ = [None] * len(d)
    for k, s in enumerate(d):
        occ[s] = 0 if k < nholes else -1 if k < nholes + nbeta else 1
    return tuple(occ)


@lru_cache(maxsize=None)
def sector(n, nholes, nbeta):
    """States with given numbers of holes and spins down, in lexicographic order of their encodings."""
    out = []
    for holes in combinations(range(n), nholes):
        hs = set(holes)
        rest = [s for s in range(n) if s not in hs]
        for betas in combinations(rest, nbeta):
            bs = set(betas)
            out.append(tuple(0 if s in hs else -1 if s in bs else 1 for s in range(n)))
    return tuple(out)


@lru_cache(maxsize=64)
def index(n, nholes, nbeta):
    return {o: i for i, o in enumerate(sector(n, nholes, nbeta))}


def sectors(n):
    return [(h, b) for h in range(n + 1) for b in range(n - h + 1)]


def binom(n, k):
    if k < 0 or k > n:
        return 0
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def rank(occ):
    """Position of a state in its sector, by counting the states before it one at a time-free:
    walks the encoding and adds the sizes of the skipped subtrees."""
    n = len(occ)
    holes = [i for i, o in enumerate(occ) if o == 0]
    nh, nb = len(holes), sum(o == -1 for o in occ)
    rest = [o for o in occ if o != 0]
    betas = [i for i, o in enumerate(rest) if o == -1]

    def comb_rank(m, sub):
        r, prev = 0, -1
        for k, s in enumerate(sub):
            for c in range(prev + 1, s):
                r += binom(m - c - 1, len(sub) - k - 1)
            prev = s
        return r
    return comb_rank(n, holes) * binom(n - nh, nb) + comb_rank(n - nh, betas)


def unrank(n, nh, nb, ind):
    def comb_unrank(m, k, r):
        sub, c = [], 0
        while len(sub) < k:
            size = binom(m - c - 1, k - len(sub) - 1)
            if r < size:
                sub.append(c)
            else:
                r -= size
            c += 1
        return sub
    per = binom(n - nh, nb)
    holes = comb_unrank(n, nh, ind // per)
    rest = [s for s in range(n) if s not in set(holes)]
    betas = {rest[i] for i in comb_unrank(n - nh, nb, ind % per)}
    return tuple(0 if s in set(holes) else -1 if s in betas else 1 for s in range(n))


def put(occ, *changes):
    o = list(occ)
    for s, v in changes:
        o[s] = v
    return tuple(o)


def swap(occ, a, b):
    return put(occ, (a, occ[b]), (b, occ[a]))


# operators --------------------------------------------------------------------------------------
# Each returns what one application of the term does to a state.  S: starting sites, T: target sites
# (all the sites when there is no restriction).

def hopping(L, occ, S=None, T=None):
    S = range(L.n) if S is None else S
    T = set(range(L.n)) if T is None else set(T)
    return [swap(occ, h, e) for h in sorted(set(S)) if occ[h] == 0 for e in L.nb[h] if occ[e] != 0 and e in T]


def next_hopping(L, occ, S=None, T=None):
    """(images along a line, images around a corner): each reachable electron once per hole."""
    S = range(L.n) if S is None else S
    T = set(range(L.n)) if T is None else set(T)
    col, orth = [], []
    for h in sorted(set(S)):
        if occ[h] != 0:
            continue
        for e in sorted({c for b in L.nb[h] for c in L.nb[b]} - {h}):
            if occ[e] == 0 or e not in T:
                continue
            (x, y), (u, v) = L.pts[h], L.pts[e]
            (col if x == u or y == v else orth).append(swap(occ, h, e))
    return col, orth


def coupling_kind(L, occ, a, b, S=None):
    """Which exchange constant a pair of neighbouring spins uses: 'par' when a hole next to one of them lies on
    their axis, 'per' when the holes next to them are all off axis, 'J' without a hole next to them."""
    S = set(range(L.n)) if S is None else set(S)
    near = [(h, a, b) for h in L.nb[a] if h != b and occ[h] == 0 and h in S] + [(h, b, a) for h in L.nb[b] if h != a and occ[h] == 0 and h in S]
    if any(L.colinear(h, m, e) for h, m, e in near):
        return 'par'
    return 'per' if near else 'J'


def restricted_bonds(L, S=None, T=None):
    S = set(range(L.n)) if S is None else set(S)
    T = set(range(L.n)) if T is None else set(T)
    return [(a, b) for a, b in L.bonds() if a in S and b in T]


def static_exchange(L, occ, S=None, T=None):
    """Counter kind -> number of antiparallel pairs; each weighs -1/2 (S_z.S_z - 1/4), parallel pairs weigh 0."""
    c = Counter()
    for a, b in restricted_bonds(L, S, T):
        if occ[a] * occ[b] == -1:
            c[coupling_kind(L, occ, a, b, S)] += 1
    return c


def flips(L, occ, S=None, T=None):
    out = {'par': [], 'per': [], 'J': []}
    for a, b in restricted_bonds(L, S, T):
        if occ[a] * occ[b] == -1:
            out[coupling_kind(L, occ, a, b, S)].append(swap(occ, a, b))
    return out


def singlet(L, occ, S=None, T=None):
    """Pairs (image weighed +h, image weighed -h), along a line and around a corner.  The hole exchanges place with
    the far electron; the pair either moves rigidly (+) or comes out exchanged (-)."""
    S = range(L.n) if S is None else S
    T = set(range(L.n)) if T is None else set(T)
    par, per = [], []
    for h in sorted(set(S)):
        if occ[h] != 0:
            continue
        for e in L.nb[h]:
            if occ[e] == 0 or e not in T:
                continue
            for f in L.nb[e]:
                if f == h or f not in T or occ[f] != -occ[e]:
                    continue
                plus = put(occ, (f, 0), (h, occ[e]), (e, occ[f]))
                minus = put(occ, (f, 0), (h, occ[f]))
                (par if L.colinear(h, e, f) else per).append((plus, minus))
    return par, per


def repulsion(L, occ, R=None):
    """(pairs of holes on a bond, pairs of holes across a tile) among the sites R."""
    R = set(range(L.n)) if R is None else set(R)
    hs = [s for s in range(L.n) if occ[s] == 0 and s in R]
    nn = sum(1 for a, b in combinations(hs, 2) if L.adjacent(a, b))
    dg = sum(1 for a, b in combinations(hs, 2) if b in L.diagonal(a))
    return nn, dg


NAMES = ('t', 'J', 'Jhpar', 'Jhper', 'hSDpar', 'hSDper', 'tNNN', 'tnNNN', 'VNN', 'VNNNper')
FLAGS = ('bt', 'bz', 'bij', 'bSD', 'btN', 'bV')


def row(L, occ, inter, flags, S=None, T=None):
    """Row of the Hamiltonian: {state: matrix element}.  inter: dict of couplings, flags: set of selected terms."""
    r = Counter()
    if 'bt' in flags:
        for o in hopping(L, occ, S, T):
            r[o] += inter['t']
    if 'btN' in flags:
        col, orth = next_hopping(L, occ, S, T)
        for o in col:
            r[o] += inter['tnNNN']
        for o in orth:
            r[o] += inter['tNNN']
    J = {'J': inter['J'], 'par': inter['Jhpar'], 'per': inter['Jhper']}
    if 'bz' in flags:
        for k, m in static_exchange(L, occ, S, T).items():
            r[occ] -= m * J[k] / 2
    if 'bij' in flags:
        for k, l in flips(L, occ, S, T).items():
            for o in l:
                r[o] += J[k] / 2
    if 'bSD' in flags:
        par, per = singlet(L, occ, S, T)
        for l, h in ((par, inter['hSDpar']), (per, inter['hSDper'])):
            for p, m in l:
                r[p] += h
                r[m] -= h
    if 'bV' in flags:
        nn, dg = repulsion(L, occ, S)
        r[occ] += nn * inter['VNN'] + dg * inter['VNNNper']
    return r


def hamiltonian(L, nholes, nbeta, inter, flags, S=None, T=None):
    import numpy as np
    states = sector(L.n, nholes, nbeta)
    idx = index(L.n, nholes, nbeta)
    H = np.zeros((len(states), len(states)))
    for i, o in enumerate(states):
        for p, v in row(L, o, inter, flags, S, T).items():
            H[i, idx[p]] += v
    return H


# spin operators -----------------------------------------------------------------------------------
def s_plus_minus(occ, p, m):
    """S+_p S-_m on a state, p != m."""
    if occ[p] == -1 and occ[m] == 1:
        return put(occ, (p, 1), (m, -1))
    return None


def S2(occ):
    """S^2 |occ> with quarters as unit: {state: 4 * coefficient}, from S^2 = S-S+ + Sz(Sz+1)."""
    r = Counter()
    n = len(occ)
    na, nb = sum(o == 1 for o in occ), sum(o == -1 for o in occ)
    twice_m = na - nb
    r[occ] += twice_m * (twice_m + 2)                    # 4 m (m + 1)
    for p in range(n):
        if occ[p] == -1:                                 # S+ raises p ...
            up = put(occ, (p, 1))
            for m in range(n):                           # ... S- lowers any up spin
                if up[m] == 1:
                    r[put(up, (m, -1))] += 4
    return Counter({k: v for k, v in r.items() if v})


# rotation -------------------------------------------------------------------------------------------
def rotate(L, occ, k):
    """The state turned k quarter turns clockwise (square block)."""
    N = L.W
    for _ in range(k % 4):
        new = [None] * L.n
        for i, (x, y) in enumerate(L.pts):
            new[L.at[(y, N - 1 - x)]] = occ[i]
        occ = tuple(new)
    return tuple(occ)


SHAPES = {}


def shapes(n):
    """Every (nbh, nbv, side) giving n sites."""
    if n not in SHAPES:
        SHAPES[n] = [(a, b, s) for s in range(1, n + 1) for a in range(1, n + 1) for b in range(1, n + 1) if a * b * s * s == n]
    return SHAPES[n]
