"""Term-resolved Hamiltonians: one reference matrix per coupling constant and selected term, and the code's own."""
import numpy as np

from . import impl, ref

# (selected term, coupling constant) -> linear contributions
PARTS = [('bt', 't'), ('btN', 'tNNN'), ('btN', 'tnNNN')] + [(f, k) for f in ('bz', 'bij') for k in ('J', 'Jhpar', 'Jhper')] \
    + [('bSD', 'hSDpar'), ('bSD', 'hSDper'), ('bV', 'VNN'), ('bV', 'VNNNper')]


def parts(L, h, b, S=None, T=None):
    """{(flag, coupling): dense matrix for that coupling equal to one}."""
    states = ref.sector(L.n, h, b)
    idx = ref.index(L.n, h, b)
    d = len(states)
    out = {p: np.zeros((d, d)) for p in PARTS}
    J = {'J': 'J', 'par': 'Jhpar', 'per': 'Jhper'}
    for i, o in enumerate(states):
        for p in ref.hopping(L, o, S, T):
            out['bt', 't'][i, idx[p]] += 1
        col, orth = ref.next_hopping(L, o, S, T)
        for p in col:
            out['btN', 'tnNNN'][i, idx[p]] += 1
        for p in orth:
            out['btN', 'tNNN'][i, idx[p]] += 1
        for k, m in ref.static_exchange(L, o, S, T).items():
            out['bz', J[k]][i, i] -= m / 2
        for k, l in ref.flips(L, o, S, T).items():
            for p in l:
                out['bij', J[k]][i, idx[p]] += .5
        par, per = ref.singlet(L, o, S, T)
        for l, name in ((par, 'hSDpar'), (per, 'hSDper')):
            for p, m in l:
                out['bSD', name][i, idx[p]] += 1
                out['bSD', name][i, idx[m]] -= 1
        nn, dg = ref.repulsion(L, o, S)
        out['bV', 'VNN'][i, i] += nn
        out['bV', 'VNNNper'][i, i] += dg
    return out


def combine(P, inter, sel):
    H = None
    for (f, k), m in P.items():
        if f in sel:
            H = inter[k] * m if H is None else H + inter[k] * m
    return np.zeros_like(next(iter(P.values()))) if H is None else H


def build(L, h, b, inter, sel, restr=None, arg=None, matrix=None):
    """The code's own Hamiltonian of a sector, from its own basis."""
    c = impl.conf(L, h, b, restr, matrix)
    basis = impl.bC().construct_basis(c)
    kw = {} if arg is None else {'sites_restriction': arg}
    return impl.hC().build_hamiltonian(c, impl.interactions(inter), basis, impl.flags(sel), **kw)


def compare(ctx, key, what, ham, want):
    import scipy.sparse as sp
    ctx.replays += 1
    ctx.transitions += int(np.count_nonzero(want))
    if not sp.isspmatrix_csr(ham) and not (sp.issparse(ham) and ham.format == 'csr'):
        ctx.fail('format', '{}: {} instead of a csr matrix'.format(what, type(ham)))
        return
    got = ham.toarray()
    if got.shape != want.shape:
        ctx.fail(key, '{}: shape {} instead of {}'.format(what, got.shape, want.shape))
        return
    bad = np.argwhere(np.abs(got - want) > 1e-9 * (1 + np.abs(want)))
    if len(bad):
        i, j = bad[0]
        ctx.fail(key, '{}: {} wrong elements, first <{}|H|{}> = {} instead of {}'.format(what, len(bad), i, j, got[i, j], want[i, j]))
