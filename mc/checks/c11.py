"""Hole repulsion and diagonal energy of every state."""
from .. import impl, ops, ref
from . import c09

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular lattice up to 8 sites, joined up to 8, ringed up to 8; 2 to 4 holes in a ferromagnetic background on 9 to 25 sites; 10 to 25 sites (16 lattices): every periodic pattern of up to 4 letters in five readings, every state of 2 electrons (1 above 16 sites); every subset restriction up to 5 sites; frontiers, halves and interleaved restrictions on up to 12 sites',
          'thorough': 'every state up to 10 (rectangular and joined) and 9 (ringed) sites; 2 to 5 holes on larger lattices; all subset restrictions up to 6 sites'}
ASSUMPTIONS = ['Restrictions are symmetric (same starting and target sites), as documented for the repulsion of holes.']
FEW = {'quick': [(s, ['few', h, 0]) for s in c09.BIG for h in (2, 3, 4) if not (s == ['periodic', 5, 5, 1] and h == 4)] + [(s, ['neel', 2, 0]) for s in c09.BIG],
       'thorough': [(s, ['few', h, 0]) for s in c09.BIG for h in (2, 3, 4, 5)] + [(s, ['neel', h, 0]) for s in c09.BIG for h in (2, 3)]}


def units(tier):
    return ops.op_units(tier, 'run', {'periodic': 8, 'clusters': 8, 'peripheral': 8}, {'periodic': 10, 'clusters': 10, 'peripheral': 9}, FEW[tier], restr=(4, 5))


def run(ctx, spec, mode, rmode):
    I = impl.interactions(impl.GENERIC)
    tiny = impl.interactions({k: 1e-13 * x for k, x in impl.GENERIC.items()}) if ref.Lat(*spec).n <= 5 else None
    J = {'J': I.J, 'par': I.Jhpar, 'per': I.Jhper}
    f, g = impl.itr().compute_hole_repulsion, impl.itr().compute_energy

    def body(ctx, L, c, o, S, T, r):
        nn, dg = ref.repulsion(L, o, S)
        d = ref.det(o)
        v = nn * I.VNN + dg * I.VNNNper
        ctx.transitions += nn + dg
        ctx.replays += 2
        ctx.close(f(c, I, d), v, 'repulsion', '{} restriction {}: repulsion of the holes of {} (holes={})', L, r, d, o.count(0))
        e = v - sum(m * J[k] for k, m in ref.static_exchange(L, o, S, T).items()) / 2
        ctx.close(g(c, I, d), e, 'energy', '{} restriction {}: energy of {} (holes={}, down={})', L, r, d, o.count(0), o.count(-1))
        if tiny:
            ctx.close(f(c, tiny, d) * 1e13, v, 'scale', '{} restriction {}: repulsion of the holes of {} (holes={}) for tiny couplings', L, r, d, o.count(0))
            ctx.close(g(c, tiny, d) * 1e13, e, 'scale', '{} restriction {}: energy of {} (holes={}, down={}) for tiny couplings', L, r, d, o.count(0), o.count(-1))
    ops.explore(ctx, spec, mode, rmode, body, symmetric=True)
