"""Soundness of the diagonaliser: whatever the matrix, guess, budget and tolerance, what it returns are Ritz pairs."""
from itertools import combinations, product

import numpy as np

from .. import impl, ref, space

LEVEL = 'model_checking'
BOUNDS = {'quick': 'all symmetric 2x2 matrices over {-1,0,1,2} and 3x3 over {-1,0,2}; Hamiltonians of every sector of 2 to 16 states of the lattices of 2 to 4 sites and the 5 site ring for 5 selections of terms and two coupling vectors (on 2 to 4 sites also times 1e-4 and 1e4); every unit-vector, tied, dependent and mixed guess of a list, every number of requested states, the iterates of 1, 2, 3, 5, 8 and 300 steps, three limits of the search space',
          'thorough': 'also 3x3 over {-1,0,1,2}, sectors up to 90 states up to 6 sites, all 64 selections up to 3 sites'}
ASSUMPTIONS = ['Guesses have at least as many columns as requested states, none of them zero when alone.', 'A state of the explored system is the iterate after a number of steps (the same call with that budget), a transition one more step.']
MIXED = [('bt',), ('bz', 'bij'), ('bt', 'bz', 'bij', 'bSD', 'btN', 'bV'), ('bz',), ('bt', 'btN')]


def units(tier):
    q = tier == 'quick'
    u = [('grid', 2, (-1, 0, 1, 2), 0)]
    u += [('grid', 3, (-1, 0, 2) if q else (-1, 0, 1, 2), k) for k in range(3 if q else 4)]
    done = set()
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 2, 5 if q else 6):
            n = ref.Lat(*s).n
            if q and (n == 5 and kind != 'peripheral' or kind == 'periodic' and s[1] < s[2] or s == ['clusters', 1, 1, 1]):
                continue
            for h, b in ref.sectors(n):
                d = ref.binom(n, h) * ref.binom(n - h, b)
                if 1 < d <= (16 if q else 90):
                    u.append(('lattice', s, h, b, tier))
    u.sort(key=lambda x: -(1000 if x[0] == 'grid' else ref.binom(ref.Lat(*x[1]).n, x[2]) * ref.binom(ref.Lat(*x[1]).n - x[2], x[3])))
    return u


def guesses(d, k, rich):
    """Guess matrices with at least k columns."""
    eye = np.eye(d)
    out = []
    if k == 1:
        out += [eye[:, [i]] for i in range(min(d, 6))] + [np.ones((d, 1)), np.array([[(-1.) ** i] for i in range(d)]), 1e-3 * np.array([[1. + i] for i in range(d)])]
    subs = list(combinations(range(d), k)) if k > 1 else []
    out += [eye[:, list(c)] for c in subs[:4 if not rich else 12]]
    gen = np.array([[np.cos(1. + i * (j + 1)) for j in range(k)] for i in range(d)])
    out += [gen, np.abs(gen)]
    if k > 1:
        same = np.ones((d, k))
        out.append(same)                                     # dependent columns
    if k < d:
        out.append(np.array([[np.sin(2. + i * (j + 1.5)) for j in range(k + 1)] for i in range(d)]))
    return out


def judge(ctx, H, k, guess, stp, tol, dim_max, what):
    import scipy.sparse as sp
    d = H.shape[0]
    A = sp.csr_matrix(H)
    g = None if guess is None else guess.copy()
    E = impl.dav().modified_davidson_algorithm(A, k, initial_guess=g, stp=stp, tol=tol, dim_max=dim_max)
    ctx.states += 1
    ctx.replays += 1
    kk = min(k, d, dim_max or d)
    val, vec = np.array(E.eigvals, dtype=float), np.asarray(E.eigvects)
    if val.shape != (kk,) or vec.shape != (d, kk):
        ctx.fail('shape', '{}: {} values and vectors of shape {} instead of {}'.format(what, val.shape, vec.shape, kk))
        return
    if not (np.all(np.isfinite(val)) and np.all(np.isfinite(vec))):
        ctx.fail('finite', '{}: {}'.format(what, val))
        return
    ctx.check(np.all(np.diff(val) >= -1e-9), 'order', '{}: {} not increasing', what, val.tolist())
    ctx.check(np.abs(vec.T @ vec - np.eye(kk)).max() < 1e-8, 'orthonormal', '{}: vectors not orthonormal', what)
    R = vec.T @ H @ vec
    ctx.check(np.abs(R - np.diag(val)).max() < 1e-8 * (1 + np.abs(H).max()), 'ritz', '{}: values {} are not those of the vectors, {}', what, val.tolist(), np.diag(R).tolist())
    true = np.linalg.eigvalsh(H)
    ctx.check(np.all(val >= true[:kk] - 1e-8 * (1 + np.abs(true).max())), 'variational', '{}: {} below the lowest {}', what, val.tolist(), true[:kk].tolist())
    res = np.linalg.norm(H @ vec - vec * val, axis=0)
    if stp >= 300:
        if np.all(res <= tol + 1e-9):
            ctx.add('converged')
        elif not dim_max or dim_max >= d:
            ctx.fail('converges', '{}: residuals {} although the search space was not limited'.format(what, res.tolist()))
        else:
            ctx.add('stopped_by_the_limit')
    if guess is not None and guess.shape[1] == kk and np.linalg.matrix_rank(guess) == kk:
        q = np.linalg.qr(guess)[0]
        start = np.linalg.eigvalsh(q.T @ H @ q)
        ctx.check(np.all(val <= start + 1e-8 * (1 + np.abs(H).max())), 'monotone', '{}: {} above the values of the guess {}', what, val.tolist(), start.tolist())
    return val, res


def sweep(ctx, H, name, rich, scale=1):
    d = H.shape[0]
    top = 1e-8 * (1 + np.abs(H).max())
    for k in range(1, min(d, 4) + 2):
        for gi, g in enumerate(guesses(d, min(k, d), rich)):
            for dim_max in (0, d + 3) if gi % 3 else (0, max(1, min(k, d) - 1), d + 3):
                last = None
                for stp in (1, 2, 3, 5, 8, 300) if d > 3 else (1, 2, 300):
                    if stp > 1 and dim_max == d + 3 and stp < 300:
                        continue
                    tol = (1e-6 if gi % 2 else 1e-3) * scale
                    what = '{}, {} states, guess {}, {} steps, tolerance {}, limit {}'.format(name, k, gi, stp, tol, dim_max)
                    r = judge(ctx, H, k, g, stp, tol, dim_max, what)
                    if r is None:
                        break
                    if last is not None:
                        ctx.transitions += 1
                        ctx.check(np.all(r[0] <= last + top), 'steps', '{}: {} above {} obtained with fewer steps', what, r[0].tolist(), last.tolist())
                    last = r[0]


def grid(ctx, n, values, first):
    pos = [(i, j) for i in range(n) for j in range(i, n)]
    for entries in product(values, repeat=len(pos)):
        if n == 3 and entries[0] != values[first]:
            continue
        H = np.zeros((n, n))
        for (i, j), x in zip(pos, entries):
            H[i, j] = H[j, i] = x
        if n == 3:
            for k in (1, 2, 3):
                gs = guesses(3, k, False)
                for gi, g in enumerate(gs):
                    judge(ctx, H, k, g, 1 if gi % 2 else 40, 1e-4, 0, 'matrix {}, {} states, guess {}'.format(H.tolist(), k, gi))
        else:
            sweep(ctx, H, 'matrix {}'.format(H.tolist()), True)
    ctx.sample('all symmetric {}x{} matrices over {}'.format(n, n, values))


def lattice(ctx, spec, h, b, tier):
    from .. import ham
    L = ref.Lat(*spec)
    P = ham.parts(L, h, b)
    sels = MIXED if tier == 'quick' or L.n > 3 else impl.subsets(impl.ALL)
    for sel in sels:
        for name, v in (('generic', impl.GENERIC), ('physical', impl.PHYSICAL)):
            H = ham.combine(P, v, sel)
            sweep(ctx, H, '{} holes={} down={} terms={} {} couplings'.format(L, h, b, sel, name), tier == 'thorough')
            if L.n <= 4 and len(sel) in (1, 6):
                for scale in (1e-4, 1e4):
                    sweep(ctx, H * scale, '{} holes={} down={} terms={} {} couplings times {}'.format(L, h, b, sel, name, scale), False, scale)
    ctx.sample('{} holes={} down={}: {} selections'.format(L, h, b, len(sels)))
