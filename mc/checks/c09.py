"""Exchange: static value and spin flips of every state, with the coupling chosen by the surrounding holes."""
from .. import impl, ops, ref

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular lattice up to 8 sites, joined up to 8, ringed up to 8; Neel backgrounds with up to 3 holes and one reversed spin on 9 to 25 sites; 10 to 25 sites (16 lattices): every periodic pattern of up to 4 letters in five readings, every state of 2 electrons (1 above 16 sites); every subset restriction up to 4 sites and every pair of subsets up to 3 sites over every state; frontiers, halves and interleaved restrictions on up to 12 sites',
          'thorough': 'every state up to 9 (rectangular), 10 (joined) and 9 (ringed) sites; Neel backgrounds with up to 4 holes and two reversed spins up to 25 sites; all subset restrictions up to 5, pairs up to 4 sites'}
BIG = (['periodic', 4, 3, 1], ['periodic', 1, 1, 4], ['periodic', 5, 5, 1], ['clusters', 3, 2, 1], ['clusters', 1, 1, 3], ['clusters', 1, 5, 1], ['clusters', 2, 3, 1], ['peripheral', 2, 2, 1], ['peripheral', 1, 1, 3], ['peripheral', 1, 4, 1], ['peripheral', 4, 1, 1], ['peripheral', 3, 2, 1])
FEW = {'quick': [(s, ['neel', h, k]) for s in BIG for h, k in ((0, 1), (1, 1), (2, 0))] + [(s, ['neel', 3, 0]) for s in BIG if s != ['periodic', 5, 5, 1]],
       'thorough': [(s, ['neel', h, k]) for s in BIG for h, k in ((0, 2), (1, 2), (2, 1), (3, 0), (4, 0))]}


def units(tier):
    return ops.op_units(tier, 'run', {'periodic': 8, 'clusters': 8, 'peripheral': 8}, {'periodic': 9, 'clusters': 10, 'peripheral': 9}, FEW[tier])


def run(ctx, spec, mode, rmode):
    I = impl.interactions(impl.GENERIC)
    tiny = impl.interactions({k: 1e-13 * x for k, x in impl.GENERIC.items()}) if ref.Lat(*spec).n <= 5 else None
    J = {'J': I.J, 'par': I.Jhpar, 'per': I.Jhper}
    f, g = impl.itr().compute_spin_flip, impl.itr().compute_static_spin_interaction

    def body(ctx, L, c, o, S, T, r):
        want = ref.flips(L, o, S, T)
        d = ref.det(o)
        got = f(c, I, d)
        ctx.transitions += sum(len(w) for w in want.values())
        ctx.replays += 2
        for k, l in zip(('par', 'per', 'J'), got):
            ops.diff(ctx, 'flip-' + k, L, r, o, ops.multiset(l), ops.images(want[k]))
        ctx.close(g(c, I, d), -sum(m * J[k] for k, m in ref.static_exchange(L, o, S, T).items()) / 2, 'static',
                  '{} restriction {}: static exchange of {} (holes={}, down={})', L, r, d, o.count(0), o.count(-1))
        if tiny:
            ctx.close(g(c, tiny, d) * 1e13, g(c, I, d), 'scale', '{} restriction {}: static exchange of {} (holes={}, down={}) for tiny couplings', L, r, d, o.count(0), o.count(-1))
            ops.diff(ctx, 'scale', L, r, o, ops.multiset(f(c, tiny, d)[2]), ops.images(want['J']))
    ops.explore(ctx, spec, mode, rmode, body)
