"""Queries are pure: they leave what they are given as it was and answer the same again, whatever was asked before."""
import copy
import hashlib
import itertools
import os
import pickle

import numpy as np

from .. import impl, ref, space, store

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every query of geometry, states, operators, bases and vectors on every state of every lattice up to 4 sites and the 5 site ring, asked twice, and again after the first answer has been written over; every ordered pair of two different queries on shared arguments on three lattices (a history of two queries, the second answer compared with the one on fresh arguments); whole computations of every sector up to 4 sites; every ordered pair of situations (24 of 4 sites, 7 of 5, 10 of 6: the same but for shape, kind, state, restriction, couplings or terms), all queries of the first then of the second in a process of its own, against a fresh process',
          'thorough': 'every state of lattices up to 6 sites; every ordered triple of queries on one lattice'}
ASSUMPTIONS = ['What a user reads of an object is listed in FIELDS; private caches may change.']


# what a user reads of each object (private caches may change)
FIELDS = {'Configuration': store.CONF + ('bond_matrix', 'sites_restriction'), 'Basis': ('configuration', 'determinants'), 'Interactions': ref.NAMES,
          'BoolInteractions': store.FLAG, 'Diagonalization': store.DIAG, 'Eigenstates': ('eigvals', 'spins', 'eigvects'),
          'Data': ('configuration', 'interactions', 'diagonalization', 'bool_interactions')}


def freeze(x):
    """A value that compares by content."""
    import scipy.sparse as sp
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.dtype.kind, [repr(e) for e in x.ravel().tolist()])
    if sp.issparse(x):
        m = x.tocsr()
        m.sum_duplicates()
        return ('sparse', m.shape, [repr(e) for e in m.toarray().ravel().tolist()])
    if isinstance(x, dict):
        return ('dict', [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, range)):
        return (type(x).__name__, [freeze(e) for e in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if hasattr(x, '__dict__') and not callable(x):
        known = FIELDS.get(type(x).__name__)
        return (type(x).__name__, freeze({k: getattr(x, k) for k in (known or sorted(vars(x)))}))
    return repr(x)


def queries(L):
    """name -> (arguments it uses, call)"""
    B, F, I, D, C = impl.bC(), impl.lF(), impl.itr(), impl.dav(), impl.hC()
    q = {}
    n = L.n

    def add(name, args, f):
        q[name] = (args, f)
    for s in sorted({0, n // 2, n - 1}):
        add('neighbours {}'.format(s), ('M',), lambda a, s=s: F.get_neighbors(s, a['M']))
        add('restricted neighbours {}'.format(s), ('M', 'R'), lambda a, s=s: F.get_neighbors(s, a['M'], a['R']))
        add('second neighbours {}'.format(s), ('M',), lambda a, s=s: F.get_second_neighbors(s, a['M']))
        add('diagonal neighbours {}'.format(s), ('conf',), lambda a, s=s: F.get_diagonal_second_neighbors(a['conf'], s))
        add('site {}'.format(s), ('conf', 'det'), lambda a, s=s: B.get_spin_site(a['conf'], a['det'], s))
    add('bonds', ('M',), lambda a: F.build_bond_list(a['M']))
    add('restricted bonds', ('M', 'R2'), lambda a: F.build_bond_list(a['M'], a['R2']))
    add('rank', ('conf', 'det'), lambda a: B.get_index_in_basis(a['conf'], a['det']))
    add('reversed state', ('conf', 'det'), lambda a: B.reverse_spins(a['conf'], a['det']))
    add('reordered state', ('conf', 'det'), lambda a: B.reorder_basis_element(a['conf'], a['det']))
    for k in (-1, 0, 1):
        add('sites of {}'.format(k), ('conf', 'det'), lambda a, k=k: B.get_indexes_of(a['conf'], a['det'], k))
    add('printed state', ('conf', 'det'), lambda a: B.get_displayable_determinant(a['conf'], a['det']))
    if L.kind == 'periodic':
        add('printed lattice', ('conf', 'det'), lambda a: B.get_displayable_rectangular_lattice(a['conf'], a['det']))
    if L.kind == 'periodic' and L.W == L.H:
        for k in (0, 1, 3):
            add('turned {}'.format(k), ('conf', 'det'), lambda a, k=k: B.rotate_determinant(k, a['conf'], a['det']))
    add('joined', ('conf', 'det'), lambda a: B.extend_determinant(a['conf'], a['conf'], a['det'], a['det']))
    for name in ('hopping_integral', 'next_hopping_integral', 'static_spin_interaction', 'spin_flip', 'singlet_displacement', 'hole_repulsion', 'energy'):
        f = getattr(I, 'compute_' + name)
        add(name, ('conf', 'inter', 'det'), lambda a, f=f: f(a['conf'], a['inter'], a['det']))
        add('restricted ' + name, ('rconf', 'inter', 'det'), lambda a, f=f: f(a['rconf'], a['inter'], a['det']))
    add('couplings', ('conf', 'inter', 'flags', 'det'), lambda a: I.compute_dynamic_interactions(a['conf'], a['inter'], a['flags'], a['det']))
    if n > 1:
        add('S+S-', ('conf', 'det'), lambda a: I.compute_S_plus_S_minus_det(a['conf'], a['det'], 0, n - 1))
        add('SzSz', ('conf', 'det'), lambda a: I.compute_spins_z_two_bodies_det(a['conf'], a['det'], 0, n - 1))
        add('S+S- of vector', ('conf', 'vect'), lambda a: I.compute_S_plus_S_minus(a['conf'], a['vect'], n - 1, 0))
        add('SzSz of vector', ('conf', 'vect'), lambda a: I.compute_spins_z_two_bodies(a['conf'], a['vect'], 0, n - 1))
    add('S2', ('conf', 'vect'), lambda a: I.compute_S2(a['conf'], a['vect']))
    add('spin z', ('conf', 'vect'), lambda a: I.compute_spin_z(a['conf'], a['vect']))
    add('basis', ('conf',), lambda a: B.construct_basis(a['conf']).determinants)
    add('printed basis', ('basis',), lambda a: B.get_displayable_basis(a['basis']))
    add('reversed basis', ('basis',), lambda a: B.reverse_spins_basis(a['basis']).determinants)
    add('reversed vector', ('basis', 'vect'), lambda a: B.reverse_spins_vect(a['basis'], a['vect']))
    for k in (0, 1, -1):
        for r in (False, True):
            add('probability {} {}'.format(k, r), ('basis', 'vect'), lambda a, k=k, r=r: B.get_probability_spin_lattice(a['basis'], a['vect'], k, r))
    add('probabilities', ('basis', 'vect'), lambda a: B.get_spins_probabilitites_lattice(a['basis'], a['vect']))
    add('dominant', ('basis', 'vect'), lambda a: B.get_dominant_determinants(a['basis'], a['vect'], 3))
    add('printed dominant', ('basis', 'vect'), lambda a: B.get_displayable_dominant_determinants(a['basis'], a['vect'], 2) if L.kind == 'periodic' else 0)
    add('hamiltonian', ('conf', 'inter', 'basis', 'flags'), lambda a: C.build_hamiltonian(a['conf'], a['inter'], a['basis'], a['flags']))
    add('hamiltonian with list', ('conf', 'inter', 'basis', 'flags', 'R'), lambda a: C.build_hamiltonian(a['conf'], a['inter'], a['basis'], a['flags'], sites_restriction=a['R']))
    add('hamiltonian with pair', ('conf', 'inter', 'basis', 'flags', 'R2'), lambda a: C.build_hamiltonian(a['conf'], a['inter'], a['basis'], a['flags'], sites_restriction=a['R2']))
    add('hamiltonian of restricted', ('rconf', 'inter', 'basis', 'flags'), lambda a: C.build_hamiltonian(a['rconf'], a['inter'], a['basis'], a['flags']))
    add('diagonaliser', ('ham', 'guess'), lambda a: D.modified_davidson_algorithm(a['ham'], 1, a['guess'], 30, 1e-9, 0))
    add('orthonormalisation', ('guess2',), lambda a: D.perform_modified_gram_schmidt(a['guess2']))
    add('file form', ('conf',), lambda a: a['conf'].__to_json__())
    return q


def arguments(L, o, restr=None, inter=impl.GENERIC, sel=impl.ALL):
    import scipy.sparse as sp
    B = impl.bC()
    h, b = sum(x == 0 for x in o), sum(x == -1 for x in o)
    d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
    half = list(range(0, L.n, 2))
    conf = impl.conf(L, h, b)
    c2 = impl.conf(L, h, b)
    R2 = restr if isinstance(restr, tuple) else (restr or half[:], list(range(L.n)))
    return {'M': L.matrix(), 'R': list(R2[0]), 'R2': R2, 'conf': conf, 'rconf': impl.conf(L, h, b, restr or R2),
            'det': ref.det(o), 'inter': impl.interactions(inter), 'flags': impl.flags(sel),
            'basis': B.Basis(c2, [ref.det(p) for p in ref.sector(L.n, h, b)]), 'vect': np.array([[np.cos(1. + 2 * i)] for i in range(d)]),
            'ham': sp.csr_matrix(ref.hamiltonian(L, h, b, inter, sel)), 'guess': np.array([[1. / (1 + i)] for i in range(d)]),
            'guess2': np.array([[np.cos(1. + i * (j + 1)) for j in range(min(2, d))] for i in range(d)])}


# Situations that agree in all but a few respects: a history of two of them is asked in a process of its own
def situations(group):
    A, N = impl.ALL, ('bt', 'bz', 'bij')
    if group == 4:
        base = (['periodic', 2, 2, 1], (1, 0, -1, 1), None, 'GENERIC', A)
        out = [base]
        for s in (['periodic', 1, 1, 2], ['periodic', 4, 1, 1], ['periodic', 1, 4, 1], ['clusters', 1, 2, 1], ['clusters', 2, 1, 1]):
            out.append((s,) + base[1:])
        for o in ((0, 1, -1, 1), (1, 0, 1, -1), (-1, 0, 1, -1), (1, 0, 0, -1), (1, 1, -1, 1), (0, 0, 0, 0)):
            out.append((base[0], o) + base[2:])
        for r in ([0, 1], [1, 2], [2, 0], [0, 1, 2, 3], ([0, 1], [2, 3]), ([2, 3], [0, 1]), ([0, 1], [0, 1, 2])):
            out.append(base[:2] + (r,) + base[3:])
        out += [base[:3] + (v, A) for v in ('PHYSICAL', 'OPPOSITE')] + [base[:4] + (x,) for x in (N, ('bt',), ())]
        return out
    if group == 5:
        o = (1, 0, -1, 1, -1)
        return [(s, o, None, 'GENERIC', A) for s in (['peripheral', 1, 1, 1], ['periodic', 5, 1, 1], ['periodic', 1, 5, 1])] \
            + [(['peripheral', 1, 1, 1], p, r, v, A) for p, r, v in ((o[::-1], None, 'GENERIC'), (o, [0], 'GENERIC'), (o, [1, 2], 'GENERIC'), (o, None, 'PHYSICAL'))]
    o = (1, 0, -1, 1, -1, 1)
    return [(s, o, None, 'GENERIC', A) for s in (['periodic', 3, 2, 1], ['periodic', 2, 3, 1], ['periodic', 6, 1, 1], ['periodic', 1, 6, 1], ['clusters', 3, 1, 1], ['clusters', 1, 3, 1])] \
        + [(['periodic', 3, 2, 1], p, r, v, A) for p, r, v in ((o[::-1], None, 'GENERIC'), (o, [0, 1, 2], 'GENERIC'), (o, [3, 4, 5], 'GENERIC'), (o, None, 'PHYSICAL'))]


def answers(sit):
    """Every query on one situation: name -> digest of the answer."""
    spec, o, r, v, sel = sit
    L = ref.Lat(*spec)
    v = getattr(impl, v)
    a = arguments(L, o, copy.deepcopy(r), v, sel)
    out = {}
    for name, (_, f) in queries(L).items():
        out[name] = hashlib.sha1(repr(freeze(f(a))).encode()).hexdigest()
    a = arguments(L, o, copy.deepcopy(r), v, sel)
    H = impl.hC().build_hamiltonian(a['rconf'], a['inter'], a['basis'], a['flags'])
    out['restricted hamiltonian'] = hashlib.sha1(repr(freeze(H)).encode()).hexdigest()
    H = impl.hC().build_hamiltonian(a['conf'], a['inter'], a['basis'], a['flags'], sites_restriction=copy.deepcopy(r) or [])
    out['hamiltonian with restriction'] = hashlib.sha1(repr(freeze(H)).encode()).hexdigest()
    dt = store.data(L, o.count(0), o.count(-1), v, sel, copy.deepcopy(r), True, 1, guess=a['guess'])
    res = impl.iC().perform_initial_computations(dt)
    out['computation'] = hashlib.sha1(repr((freeze(res.determinants), freeze(res.hamiltonian), freeze(np.round(res.eigenstates.eigvals, 7) + 0.))).encode()).hexdigest()
    return out


def apart(history):
    """Answers to the last situation of a history asked in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            for sit in history:
                out = answers(sit)
            data = pickle.dumps(out)
        except BaseException as e:
            data = pickle.dumps('{}: {}'.format(type(e).__name__, e))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else 'died'


def across(ctx, group, part, parts):
    impl.pristine()
    sits = situations(group)
    fresh = [apart([s]) for s in sits]
    for i, a in enumerate(sits):
        if i % parts != part:
            continue
        for j, b in enumerate(sits):
            got = apart([a, b])
            ctx.states += 1
            ctx.replays += 1
            ctx.transitions += len(fresh[j])
            if isinstance(got, str) or isinstance(fresh[j], str):
                ctx.check(got == fresh[j], 'across-exception', '{} after {}: {} instead of {}', b, a, got if isinstance(got, str) else 'answers', fresh[j] if isinstance(fresh[j], str) else 'answers')
                continue
            bad = [k for k in fresh[j] if got.get(k) != fresh[j][k]]
            ctx.check(not bad, 'across', '{} after {}: {} answer otherwise than in a fresh process', b, a, bad[:6])
    ctx.sample('{} situations, every ordered pair in a process of its own'.format(len(sits)))


def units(tier):
    q = tier == 'quick'
    u = [('across', 4, k, 8) for k in range(8)] + [('across', 5, k, 2) for k in range(2)] + [('across', 6, k, 8) for k in range(8)]
    for kind in ('periodic', 'clusters', 'peripheral'):
        for s in space.all_specs(kind, 1, (5 if kind == 'peripheral' else 4) if q else 6):
            n = ref.Lat(*s).n
            u += [('once', s, h) for h in range(n + 1)]
            u += [('owned', s, h) for h in range(n + 1) if n <= 4 or not q]
            if n <= (4 if q else 5):
                u += [('whole', s, h) for h in range(n + 1)]
    for s, o in ((['periodic', 2, 2, 1], (1, 0, -1, 1)), (['clusters', 1, 2, 1], (0, -1, 1, 0)), (['peripheral', 1, 1, 1], (1, -1, 0, -1, 1))):
        u += [('pairs', s, o, k) for k in range(8)]
    if not q:
        u += [('triples', ['periodic', 2, 2, 1], (1, 0, -1, 1), k) for k in range(64)]
    return u


def once(ctx, spec, h):
    L = ref.Lat(*spec)
    qs = queries(L)
    for o in space.full(L, h):
        a = arguments(L, o)
        before = {k: freeze(v) for k, v in a.items()}
        for name, (used, f) in qs.items():
            first = freeze(f(a))
            bad = [k for k in used if freeze(a[k]) != before[k]]
            ctx.states += 1
            ctx.transitions += 2
            ctx.replays += 2
            ctx.check(not bad, 'argument-changed', '{} state {}: {} changes {}'.format(L, o, name, bad))
            ctx.check(freeze(f(a)) == first, 'second-answer', '{} state {}: {} answers otherwise the second time'.format(L, o, name))
            if bad:
                a = arguments(L, o)
        bad = [k for k in a if freeze(a[k]) != before[k]]
        ctx.check(not bad, 'argument-changed', '{} state {}: {} changed in the end'.format(L, o, bad))
    ctx.sample('{} holes={}: {} queries'.format(L, h, len(qs)))


def scribble(x, depth=0):
    """Write over everything of an answer that can be written over."""
    import scipy.sparse as sp
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for e in x.ravel().tolist():
                scribble(e, depth + 1)
        if x.size and x.flags.writeable:
            x[...] = np.asarray(7).astype(x.dtype)
    elif sp.issparse(x):
        for part in ('data', 'indices', 'rows'):
            if hasattr(x, part):
                scribble(getattr(x, part), depth + 1)
    elif isinstance(x, list):
        for e in x:
            scribble(e, depth + 1)
        x[:] = [7] + x[:1]
    elif isinstance(x, dict):
        for e in x.values():
            scribble(e, depth + 1)
        for k in x:
            x[k] = 7
        x['scribbled'] = 7
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for e in x:
            scribble(e, depth + 1)
    elif hasattr(x, '__dict__') and not callable(x) and depth < 6:
        for e in vars(x).values():
            scribble(e, depth + 1)


def owned(ctx, spec, h):
    """An answer belongs to whoever asked: writing over it changes no later answer."""
    L = ref.Lat(*spec)
    qs = queries(L)
    for o in space.full(L, h):
        for name, (used, f) in qs.items():
            answer = f(arguments(L, o))
            first = freeze(answer)
            scribble(answer)
            ctx.states += 1
            ctx.transitions += 2
            ctx.replays += 2
            ctx.check(freeze(f(arguments(L, o))) == first, 'shared-answer', '{} state {}: {} answers otherwise once the first answer has been written over', L, o, name)
    ctx.sample('{} holes={}: answers written over'.format(L, h))


def sequences(ctx, spec, o, part, parts, length):
    L = ref.Lat(*spec)
    o = tuple(o)
    qs = queries(L)
    names = list(qs)
    fresh = {}
    for name in names:
        fresh[name] = freeze(qs[name][1](arguments(L, o)))
    for i, first in enumerate(names):
        if i % parts != part:
            continue
        for rest in itertools.product(names, repeat=length - 1):
            a = arguments(L, o) if length == 2 else a_shared(L, o)
            for name in (first,) + rest:
                got = freeze(qs[name][1](a))
                ctx.transitions += 1
            ctx.states += 1
            ctx.replays += 1
            ctx.check(got == fresh[rest[-1]], 'history', '{} state {}: {} after {} answers otherwise'.format(L, o, rest[-1], (first,) + rest[:-1]))
    ctx.sample('{} state {}: sequences of {} queries'.format(L, o, length))


_shared = {}


def a_shared(L, o):
    """Arguments shared by every sequence of the process: the histories only grow."""
    k = (repr(L), o)
    if k not in _shared:
        _shared[k] = arguments(L, o)
    return _shared[k]


def pairs(ctx, spec, o, part):
    sequences(ctx, spec, o, part, 8, 2)


def triples(ctx, spec, o, part):
    sequences(ctx, spec, o, part, 64, 3)


def whole(ctx, spec, h):
    """A whole computation repeated with the same seed gives the same result and leaves the request as it was."""
    L = ref.Lat(*spec)
    I = impl.iC()
    for b in range(L.n - h + 1):
        d = ref.binom(L.n, h) * ref.binom(L.n - h, b)
        for guess in (None, np.array([[1. / (1 + i)] for i in range(d)])):
            dt = store.data(L, h, b, impl.PHYSICAL, impl.ALL, None, True, 1, guess=guess)
            before = freeze(dt)
            out = []
            for _ in range(2):
                np.random.seed(9)
                r = I.perform_initial_computations(dt)
                r.times = None
                out.append((freeze(r.determinants), freeze(r.hamiltonian), freeze(np.round(r.eigenstates.eigvals, 8)), freeze([round(float(s), 6) for s in r.eigenstates.spins] if guess is not None else len(r.eigenstates.spins))))
            ctx.states += 1
            ctx.transitions += 2
            ctx.replays += 2
            ctx.check(freeze(dt) == before, 'request-changed', '{} holes={} down={}'.format(L, h, b))
            ctx.check(out[0] == out[1], 'repeated-computation', '{} holes={} down={}: two runs differ'.format(L, h, b))
    ctx.sample('{} holes={}: whole computations'.format(L, h))
