"""Linear algebra helpers: lowest pairs, orthonormalisation, projection off a subspace."""
from itertools import combinations, product

import numpy as np

from .. import impl

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every list of 1 to 5 values in {-1,0,0.5,2} and three sets of nearly equal, huge or tiny values with every number of pairs asked; every matrix with entries in {-1,0,2} and independent columns, 2x1 to 3x3, and 4x2 over {-1,0,1}, each in three scalings of its columns (down to 1e-10); projections of every symmetric 3x3 matrix over {-1,0,2} along every pair or single vector of two orthonormal bases',
          'thorough': 'lists of 6 values, 4x3 matrices, symmetric 4x4 matrices over {0,1}'}


VALUES = ((-1., 0., .5, 2.), (1., 1. + 1e-13, 1. + 1e-9, -1e-12), (1e8, -1e8, 1e-9, 0.), (-3., -3. - 4e-16, -3. + 1e-6, 1e-30))


def units(tier):
    q = tier == 'quick'
    u = [('lowest', n, k) for n in range(1, 6 if q else 7) for k in range(len(VALUES))]
    u += [('columns', n, m, (-1., 0., 2.), f) for n, m in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3)) for f in (-1., 0., 2.)]
    u += [('columns', 4, 2, (-1., 0., 1.), f) for f in (-1., 0., 1.)]
    u += [('project', 3, (-1., 0., 2.), f) for f in (-1., 0., 2.)]
    if not q:
        u += [('columns', 4, 3, (-1., 0., 1.), f) for f in (-1., 0., 1.)] + [('project', 4, (0., 1.), f) for f in (0., 1.)]
    return u


def lowest(ctx, n, which):
    f = impl.dav().get_lowests_eig
    vects = np.array([[10. * i + j for j in range(n)] for i in range(n)])
    for vals in product(VALUES[which], repeat=n):
        for kind in ('list', 'array'):
            for k in range(n + 2):
                arg = list(vals) if kind == 'list' else np.array(vals)
                got, vec = f(arg, vects, k)
                ctx.states += 1
                ctx.replays += 1
                m = min(k, n)
                what = '{} lowest of {}'.format(k, vals)
                if not ctx.same([float(x) for x in got], sorted(vals)[:m], 'values', what):
                    continue
                cols = [int(round(c[0])) for c in np.asarray(vec).T]
                ctx.transitions += m
                if np.asarray(vec).shape != (n, m) or len(set(cols)) != m or [vals[c] for c in cols] != sorted(vals)[:m]:
                    ctx.fail('vectors', '{}: columns {}'.format(what, cols))
                ctx.check(list(arg) == list(vals), 'argument-changed', what)
    ctx.sample('every list of {} values'.format(n))


def columns(ctx, n, m, values, first):
    D = impl.dav()
    for e in product(values, repeat=n * m - 1):
        V = np.array((first,) + e).reshape(n, m)
        if np.linalg.matrix_rank(V) < m:
            continue
        for scale in ([1.], [1e-9], [1e7]) if m == 1 else ([1.] * m, [10. ** (-5 * j) for j in range(m)], [1e-9] * m):
            ortho(ctx, D, V * np.array(scale), n, m)
    ctx.sample('independent {}x{} matrices starting with {}'.format(n, m, first))


def ortho(ctx, D, V, n, m):
    unit = V / np.linalg.norm(V, axis=0)
    for name in ('perform_modified_gram_schmidt', 'gramSchmidt'):
        keep = V.copy()
        Q = np.asarray(getattr(D, name)(V))
        ctx.states += 1
        ctx.replays += 1
        what = '{} of {}'.format(name, V.tolist())
        if Q.shape != (n, m):
            ctx.fail('shape', '{}: {}'.format(what, Q.shape))
            continue
        ctx.check(np.abs(Q.T @ Q - np.eye(m)).max() < 1e-9, 'orthonormal', what)
        for k in range(1, m + 1):
            ctx.transitions += 1
            P = Q[:, :k] @ Q[:, :k].T
            ctx.check(np.abs(P @ unit[:, :k] - unit[:, :k]).max() < 1e-8, 'span', '{}: the first {} columns leave their span', what, k)
        ctx.check(np.array_equal(V, keep), 'argument-changed', what)


def project(ctx, n, values, first):
    f = impl.dav().perform_matrix_orthogonal_projection
    a = .7
    rot = np.eye(n)
    for i in range(n - 1):
        g = np.eye(n)
        g[i, i] = g[i + 1, i + 1] = np.cos(a + i)
        g[i, i + 1], g[i + 1, i] = -np.sin(a + i), np.sin(a + i)
        rot = rot @ g
    pos = [(i, j) for i in range(n) for j in range(i, n)]
    for e in product(values, repeat=len(pos) - 1):
        A = np.zeros((n, n))
        for (i, j), x in zip(pos, (first,) + e):
            A[i, j] = A[j, i] = x
        for basis in (np.eye(n), rot):
            keep = A.copy()
            for k in range(1, n):
                for c in combinations(range(n), k):
                    S, R = basis[:, list(c)], basis[:, [i for i in range(n) if i not in c]]
                    S0 = S.copy()
                    got = np.asarray(f(A, S))
                    ctx.check(np.array_equal(A, keep) and np.array_equal(S, S0), 'argument-changed', 'projection of {}', keep.tolist())
                    ctx.states += 1
                    ctx.transitions += n - k
                    ctx.replays += 1
                    what = '{} off columns {} of {}'.format(A.tolist(), c, 'the axes' if basis is not rot else 'a turned basis')
                    if got.shape != (n - k, n - k):
                        ctx.fail('projection', '{}: shape {}'.format(what, got.shape))
                        continue
                    ctx.check(np.abs(got - got.T).max() < 1e-9, 'projection', '{}: not symmetric', what)
                    ctx.close(np.linalg.eigvalsh((got + got.T) / 2), np.linalg.eigvalsh(R.T @ A @ R), 'projection', what, tol=1e-8)
    ctx.sample('symmetric {}x{} matrices over {} starting with {}'.format(n, n, values, first))
