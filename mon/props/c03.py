"""Cases: seeded refined meshes over all region kinds and split orders (one or
two sources, several depths); non-trivial when at least one cell was split.
Monitor: the stored neighbour graph against adjacency recomputed from the
polygons (edge sharing for N/E/S/W, corner contact for diagonals, modulo 360 for
global regions), symmetry and duplicates included."""
from mon import core, gen, ref
from mon.props import _meshrun

BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'meshes': 60, 'refined_meshes': 30, 'edges': 2000, 'kind_anti': 10, 'kind_global': 5}
ASSUMPTIONS = ['global meshes have at least three columns (with fewer, one cell is both east and west of another)']


def cases(tier, seed):
    return core.mkcases('C03', _meshrun.KINDS, tier, seed, 1500, 20000)


def run_case(case, obs):
    r, srcs, depth, mindp, doc, cells = _meshrun.built(case, obs)
    period = 360 if gen.reg_kind(r) == 'global' else None
    obs.count('edges', ref.nedges(doc))
    errs = ref.graph_errors(doc, cells, period)
    seam = case['kind'] in ('anti', 'global')
    obs.check(not errs, 'graph:' + (errs[0][0] if errs else ''), 'neighbour graph differs from geometry (%d differences): %s' % (len(errs), errs[:3]), region=r, seam=seam)
    nx, ny = gen.size(r)
    obs.nontrivial = len(cells) > nx * ny
