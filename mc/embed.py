"""Reference of the self-consistent embeddings: dense matrices, every iterate."""
import numpy as np

from . import ham, impl, ref, store

GAP = 1e-3
SELS = [impl.ALL, ('bt', 'bz', 'bij'), ('bt', 'bij', 'btN'), ('bt', 'bz', 'bij', 'bSD', 'bV')]


def probabilities(L, h, b, v):
    """Per site: probability of a spin up, of a spin down, of a hole."""
    w = np.asarray(v).ravel() ** 2
    w = w / w.sum()
    st = np.array(ref.sector(L.n, h, b))
    return [w @ (st == s) for s in (1, -1, 0)]


def lowest(H):
    e, v = np.linalg.eigh(H)
    gap = e[1] - e[0] if len(e) > 1 else 9.
    return e, v, gap


def isolated(H):
    """A state coupled to no other one, with differing diagonal energies: out of the range of the diagonaliser."""
    o = H - np.diag(np.diag(H))
    return len(H) > 1 and np.ptp(np.diag(H)) > 0 and not np.all(np.any(o, axis=1))


def field(L, E, h, b, inter, outer, shift):
    """Diagonal energy of every state of the block in the field of outer sites: E, the lattice of block and
    surroundings; outer, its sites out of the block; shift, (up, down, hole) probabilities per outer site."""
    up, dn, ho = shift
    out = []
    for o in ref.sector(L.n, h, b):
        x = 0.
        for s in range(L.n):
            for r in E.nb[s]:
                if r in outer:
                    k = outer[r]
                    x += -inter['J'] / 2 * ((o[s] == 1) * dn[k] + (o[s] == -1) * up[k]) + inter['VNN'] * (o[s] == 0) * ho[k]
            for r in E.diagonal(s):
                if r in outer:
                    x += inter['VNNNper'] * (o[s] == 0) * ho[outer[r]]
        out.append(x)
    return np.array(out)


def change(a, b):
    """Smallest change between two unit vectors, whatever their signs."""
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    return min(np.linalg.norm(a - b), np.linalg.norm(a + b))


def neel(spec, h, b, inter, sel, iterations):
    """Iterates of the embedding in a ring: (energies, states, gap, change of the ground state, field) of each."""
    L = ref.Lat(*spec)
    E = ref.Lat('peripheral', *spec[1:])
    H = ref.hamiltonian(L, h, b, inter, sel)
    n = L.n
    outer = {s: s - n for s in range(n, E.n)}
    # alternating ring: its first site is ... the spin of each ring site is opposite to that of its neighbours around the
    # whole ring, corners counted as sites
    W, Hh = L.W, L.H
    cycle = [(x, -1) for x in range(W)] + [(W, -1)] + [(W, y) for y in range(Hh)] + [(W, Hh)] + [(x, Hh) for x in reversed(range(W))] + [(-1, Hh)] + [(-1, y) for y in reversed(range(Hh))]
    up, dn = np.zeros(E.n - n), np.zeros(E.n - n)
    for k, p in enumerate(cycle):
        if p in E.at:
            (dn if k % 2 == 0 else up)[E.at[p] - n] = 1
    shift = (up, dn, np.zeros(E.n - n))
    e0, v0, g0 = lowest(H)
    prev = v0[:, 0]
    out = []
    for _ in range(iterations):
        f = field(L, E, h, b, inter, outer, shift)
        A = H + np.diag(f)
        e, v, gap = lowest(A)
        out.append(dict(A=A, e=e, v=v, gap=gap, change=change(v[:, 0], prev), f=f))
        prev = v[:, 0]
        pu, pd, ph = probabilities(L, h, b, prev)
        new = [np.zeros(E.n - n) for _ in range(3)]
        for s in range(n):
            for r in E.nb[s]:
                if r >= n:
                    new[0][r - n], new[1][r - n], new[2][r - n] = pd[s], pu[s], ph[s]
        shift = new
    return H, out


def blocks(spec, h, b, inter, sel, iterations, neighbor, reverse, start=None):
    """Iterates of the embedding next to copies of the block (one on the right, or one on each side)."""
    L = ref.Lat(*spec)
    E = ref.Lat('clusters', *spec[1:])
    H = ref.hamiltonian(L, h, b, inter, sel)
    n = L.n
    outer = {s: s - n for s in range(n, E.n)}
    idx = ref.index(n, h, b)
    sts = ref.sector(n, h, b)
    prev = lowest(H)[1][:, 0] if start is None else start
    out = []
    for _ in range(iterations):
        pu, pd, ph = probabilities(L, h, b, prev)
        f = field(L, E, h, b, inter, outer, (pd, pu, ph) if reverse else (pu, pd, ph))
        if not neighbor:
            g = np.zeros(len(f))
            for i, o in enumerate(sts):
                for k in range(4):
                    g[idx[ref.rotate(L, o, k)]] += f[i]
            f = g
        A = H + np.diag(f)
        e, v, gap = lowest(A)
        out.append(dict(A=A, e=e, v=v, gap=gap, change=change(v[:, 0], prev), f=f))
        prev = v[:, 0]
    return H, out


def compute_and_save(spec, h, b, inter, sel, nb_val=3, peripheral=False):
    """Exact results of the block saved where the embeddings look for them."""
    import scipy.sparse as sp
    L = ref.Lat(*spec)
    H = ref.hamiltonian(L, h, b, inter, sel)
    e, v, _ = lowest(H)
    k = min(nb_val, len(e))
    dt = store.data(L, h, b, inter, sel)
    r = impl.iC().DataComputations(dt, [ref.det(o) for o in ref.sector(L.n, h, b)], sp.csr_matrix(H),
                                   impl.dav().Eigenstates(e[:k].tolist(), [], v[:, :k]), None)
    store.prepare()
    if peripheral:
        impl.emb().save_data_peripheral_embedding(r)
    else:
        impl.iC().save_data(r)
    return r


def dressing(spec, h, b, inter, prev, energy, neighbor, reverse, threshold):
    """Second order dressing of the block by a copy of itself on its right, through the states where a hole has moved
    into the copy: every pair of states of both blocks that such a state leads back to is coupled by the product of
    the two amplitudes and the two weights in the ground state of the copy over the energy difference."""
    L = ref.Lat(*spec)
    E = ref.Lat('clusters', *spec[1:])
    n = L.n
    sts = ref.sector(n, h, b)
    idx = ref.index(n, h, b)
    hb = (h, n - h - b) if reverse else (h, b)
    weight = {(tuple(-x for x in o) if reverse else o): prev[i] for i, o in enumerate(sts)}
    copies = ref.sector(n, *hb)
    # sites near the boundary: those with a bond across it, and the sites bound to them
    edge = {s for s in range(E.n) if any((s < n) != (r < n) for r in E.nb[s])}
    near = {r for s in edge for r in E.nb[s]}
    fa, fb = {s for s in near if s < n}, {s for s in near if s >= n}
    D = np.zeros((len(sts), len(sts)))
    smallest = 9.
    memo = {}
    for a in sts:
        seen = set()
        for s in fa:
            if a[s] != 0:
                continue                      # only a hole going to the copy leads back
            targets = [r for r in fb if r in E.nbset[s] or r in E.second(s)]
            for c in copies:
                for r in targets:
                    if c[r - n] == 0:
                        continue
                    p = ref.put(a, (s, c[r - n])) + ref.put(c, (r - n, 0))
                    if p in seen:
                        continue
                    seen.add(p)
                    key = (p, c[r - n])
                    if key not in memo:
                        up = c[r - n]
                        S = {x for x in fb if p[x] == 0}
                        T = {x for x in fa if p[x] == up}
                        back = {}
                        for o, w in ref.row(E, p, inter, ('bt', 'btN', 'bSD'), S, T).items():
                            back[o] = w
                        diag = ref.row(E, p, inter, ('bz', 'bV')).get(p, 0.)
                        memo[key] = (back, diag)
                    back, diag = memo[key]
                    gap = 2 * energy - diag
                    smallest = min(smallest, abs(gap))
                    items = list(back.items())
                    for i, (o1, w1) in enumerate(items):
                        for o2, w2 in items[i + 1:]:
                            x = weight[o1[n:]] * weight[o2[n:]] * w1 * w2 / gap
                            if abs(abs(x) - threshold) < 1e-9 and threshold:
                                return None, 0.
                            if abs(x) < threshold:
                                continue
                            for k in ((0,) if neighbor else range(4)):
                                i1, i2 = idx[ref.rotate(L, o1[:n], k)], idx[ref.rotate(L, o2[:n], k)]
                                D[i1, i2] += x
                                D[i2, i1] += x
    return D, smallest
