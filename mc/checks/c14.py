"""Dynamic couplings of a state: the off-diagonal row of the Hamiltonian, whatever the selection of terms."""
from collections import Counter

from .. import impl, ops, ref
from . import c09

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every state of every rectangular, joined and ringed lattice up to 6 sites for all 16 selections of moving terms; every state up to 8 sites for all of them together; larger lattices near the Neel state; 10 to 25 sites (16 lattices): every periodic pattern of up to 4 letters in five readings, every state of 2 electrons (1 above 16 sites); restrictions as for the operators',
          'thorough': 'all 16 selections up to 8 sites; every state up to 9 sites; all subset restrictions up to 5 sites, all pairs up to 4'}
FEW = {'quick': [(s, ['neel', h, 0]) for s in c09.BIG for h in (1, 2)] + [(s, ['few', 1, 1]) for s in c09.BIG],
       'thorough': [(s, ['neel', h, k]) for s in c09.BIG for h, k in ((1, 1), (2, 1), (3, 0))] + [(s, ['few', 2, 1]) for s in c09.BIG]}


def units(tier):
    return ops.op_units(tier, 'run', {'periodic': 8, 'clusters': 8, 'peripheral': 8}, {'periodic': 9, 'clusters': 8, 'peripheral': 9}, FEW[tier], restr=(3, 4))


def run(ctx, spec, mode, rmode):
    inter = impl.GENERIC
    I = impl.interactions(inter)
    f = impl.itr().compute_dynamic_interactions
    n = ref.Lat(*spec).n
    tiny = impl.interactions({k: 1e-13 * x for k, x in inter.items()}) if n <= 5 else None
    sels = impl.subsets(('bt', 'btN', 'bij', 'bSD')) if n <= 6 and rmode == 'none' else [('bt', 'btN', 'bij', 'bSD'), ('bij',), ('bSD',)]
    fl = [(sel, impl.flags(sel + ('bz', 'bV'))) for sel in sels]

    def body(ctx, L, c, o, S, T, r):
        d = ref.det(o)
        for sel, b in fl:
            want = {tuple(ref.det(p)): v for p, v in ref.row(L, o, inter, set(sel), S, T).items()}
            got = f(c, I, b, d)
            ctx.replays += 1
            ctx.transitions += len(want)
            for k in set(want) | set(got):
                if abs(want.get(k, 0) - got.get(k, 0)) > 1e-9:
                    ctx.fail('dynamic', '{} restriction {} terms {}: coupling of {} (holes={}, down={}) with {} is {} instead of {}'.format(
                        L, r, sel, d, o.count(0), o.count(-1), list(k), got.get(k, 0), want.get(k, 0)))
                    break
            if tiny and len(sel) == 4:
                got = f(c, tiny, b, d)
                if any(abs(want.get(k, 0) - 1e13 * got.get(k, 0)) > 1e-9 for k in set(want) | set(got)):
                    ctx.fail('scale', '{} restriction {}: couplings of {} (holes={}, down={}) are not proportional to tiny coupling constants'.format(L, r, d, o.count(0), o.count(-1)))
    ops.explore(ctx, spec, mode, rmode, body)
