"""Pictures: everything drawn is read from the figure itself when it is saved, whatever calls drew it."""
import os

import numpy as np

from . import ref


class Pictures:
    """While active, saving a figure records its contents (and creates an empty file) instead of rendering it."""

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure as F
        import matplotlib.pyplot as plt
        self.F, self.plt, self.saved = F, plt, []
        self.keep = (F.Figure.savefig, F.Figure.tight_layout)
        box = self

        def savefig(fig, fname, *a, **k):
            with open(fname, 'wb'):
                pass
            box.saved.append((os.path.normpath(str(fname)), read(fig)))
        F.Figure.savefig = savefig
        F.Figure.tight_layout = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        self.F.Figure.savefig, self.F.Figure.tight_layout = self.keep
        self.plt.close('all')

    def one(self, name):
        """Content of the last picture saved under a name."""
        for f, c in reversed(self.saved):
            if f == os.path.normpath(name):
                return c


def read(fig):
    """Every set of axes: its lines, coloured meshes (centres, values), scattered points and bars."""
    out = []
    for ax in fig.axes:
        d = {'title': ax.get_title(), 'lines': [], 'meshes': [], 'points': [], 'bars': []}
        for l in ax.lines:
            d['lines'].append((np.asarray(l.get_xdata(), dtype=float).tolist(), np.asarray(l.get_ydata(), dtype=float).tolist()))
        for c in ax.collections:
            if type(c).__name__ == 'QuadMesh':
                z = np.asarray(c.get_array(), dtype=float)
                xy = np.asarray(c.get_coordinates(), dtype=float)
                ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
                z = z.reshape(ny, nx) if z.size == ny * nx else None
                d['meshes'].append(((xy[0, :-1, 0] + xy[0, 1:, 0]) / 2, (xy[:-1, 0, 1] + xy[1:, 0, 1]) / 2, z))
            elif type(c).__name__ == 'PathCollection':
                d['points'].append(np.asarray(c.get_offsets(), dtype=float).tolist())
        for p in ax.patches:
            if hasattr(p, 'get_height'):
                d['bars'].append((p.get_x() + p.get_width() / 2, p.get_height(), tuple(p.get_facecolor())))
        out.append(d)
    return out


def at(mesh, x, y):
    """Value of a mesh at the cell that contains a point."""
    X, Y, Z = mesh
    return Z[int(np.argmin(np.abs(Y - y))), int(np.argmin(np.abs(X - x)))]


def folders(n, states=()):
    for s in ('Spectrum', 'HolePresenceProbability', 'SpinDistribution', 'DeterminantsAmplitude', 'AmplitudesStaticEmbeddingNeel'):
        os.makedirs(os.path.join('tJ-HamCsr', 'tJ-H{}'.format(n), s), exist_ok=True)
    for k in states:
        os.makedirs(os.path.join('tJ-HamCsr', 'tJ-H{}'.format(n), 'SpinDistribution', 'Excited{}'.format(k) if k else 'GroundState'), exist_ok=True)


def missing(n, *names):
    """The first picture finds no folder."""
    for s in names:
        p = os.path.join('tJ-HamCsr', 'tJ-H{}'.format(n), s)
        if os.path.isdir(p):
            os.rmdir(p)


def vectors(d, k):
    """k vectors with amplitudes that tell every state apart."""
    return np.array([[(-1.) ** (i + j) * (1 + ((i * (2 * j + 3) + j) % (d + 1)) * .5) for j in range(k)] for i in range(d)])


def result(L, h, b, k, sel, emb=False, vects=None, vals=None):
    """A result as loading gives it: lists of energies, full list of states."""
    import scipy.sparse as sp
    from . import impl, store
    I = impl.iC()
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    dt = store.data(L, h, b, impl.GENERIC, sel)
    dt.bool_interactions.bV_embedding = emb
    v = vectors(d, k) if vects is None else vects
    v = v / np.linalg.norm(v, axis=0)
    E = impl.dav().Eigenstates([float(i) for i in range(k)] if vals is None else list(vals), [0.] * k, v)
    return I.DataComputations(dt, [ref.det(o) for o in ref.sector(L.n, h, b)], sp.csr_matrix((d, d)), E, None), v
