"""Cases: seeded regions (plain, crossing or touching the antimeridian, global,
polar) with random sources that refine them unevenly; non-trivial when the mesh
has more than one cell. Monitor: exact painting of the cells on the region, and
agreement of polygon, centre and half sizes; plus indivisible regions, which
must be refused."""
import json

from mon import core, gen, ref
from mon.props import _meshrun

BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'meshes': 60, 'refined_meshes': 30, 'kind_anti': 10, 'kind_global': 5, 'refusals_expected': 20}
ASSUMPTIONS = ['edges and cell sizes are dyadic numbers, so the painting is exact']


def cases(tier, seed):
    return core.mkcases('C01', _meshrun.KINDS + [('refuse', 3)], tier, seed, 1500, 20000)


def run_case(case, obs):
    if case['kind'] == 'refuse':
        return refuse(case, obs)
    r, srcs, depth, mindp, doc, cells = _meshrun.built(case, obs)
    W = ref.width(r['long_min'], r['long_max'])
    errs = ref.tiling_errors(cells, r['lat_min'], r['lat_max'], W)
    obs.check(not errs, 'tiling:' + (errs[0][0] if errs else ''), 'cells do not tile the region: %s' % (errs[:3],), region=r)
    ref.check_fields(obs, doc)


def refuse(case, obs):
    rng = obs.rng
    kind = rng.choice(['plain', 'anti', 'global', 'touch_e', 'pole'])
    r = gen.region(rng, kind)
    axis = rng.choice(['w', 'h'])
    W, H = ref.width(r['long_min'], r['long_max']), r['lat_max'] - r['lat_min']
    full, key = (W, 'cell_width') if axis == 'w' else (H, 'cell_height')
    for _ in range(50):
        c = rng.randint(1, max(2, int(full * 16))) / 8
        if rng.random() < 0.3:      # very nearly
            c = max(c, full / rng.randint(1, 8) + rng.choice([-1, 1]) / 2 ** rng.randint(3, 14))
        if full % c != 0:
            break
    else:
        c = full * 2
    r[key] = c
    obs.state(kind, axis, full, c)
    obs.nontrivial = True
    obs.sample = dict(region=r)
    cfg = gen.config(r, [], 0, 5)
    with obs.expect_raise('accepted-indivisible', 'a region that the cell size does not divide was accepted: %s' % r):
        gen.build(cfg)
