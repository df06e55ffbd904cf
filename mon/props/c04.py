"""Cases: seeded regions with one to four sources: scalar tables and grids with
random splitting conditions (bounds on exact eighths, thresholds hit exactly,
missing values, split locks, sparse data, data minimums), and in the mixed cases
vector tables and grids (difference from the mean, curl) and polygon files
(polygon edges in the cell, locks) among them, in any order and depth;
non-trivial when the reference model sees at least one heterogeneous verdict.
Monitor: the built set of cells against an independent simulation of the
splitting rule over the same points and polygons; and the decision of single
cells, over all their sources or the first few."""
import json
import os

from mon import core, gen, ref
from mon.props import _lut, c09

KINDS = [('plain', 4), ('anti', 2), ('global', 1), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('pole', 1),
         ('mixed:plain', 4), ('mixed:anti', 1), ('mixed:wide', .5)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'meshes': 100, 'splits': 500, 'verdict_HOM': 50, 'verdict_HET': 500, 'het_but_locked': 10,
           'stopped_by_depth': 50, 'multi_source': 50, 'with_vector': 60, 'with_polygons': 60, 'vector_HET': 50, 'polygon_HET': 200,
           'decisions': 1000, 'decisions_yes': 50, 'deep_cells': 300}


def cases(tier, seed):
    return core.mkcases('C04', KINDS, tier, seed, 1500, 10000)


class Open(Exception):
    """rounding could decide a verdict either way"""


def vector_source(obs, r, kind, mindp):
    rng = obs.rng
    s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([15, 40, 90]), nan=0, conds=[])
    s.params.setdefault('data_name', 'uC,vC')
    for _ in range(rng.choice([1, 1, 2])):
        how = 'curl' if s.form == 'xr' and kind != 'anti' and rng.random() < 0.5 else 'dmag'
        s.conds.append({how: dict(gen.scalar_cond(rng), threshold=rng.choice([0.06, 1.7, 3.3, 20.2, 60.1]))})
    s.params['splitting_conditions'] = [{'uC,vC': json.loads(json.dumps(x))} for x in s.conds]
    west = r['long_min']

    def verdicts(c):
        sel = ref.select(s.pts, c, west, gen.START, gen.END)
        out = []
        for cond in s.conds:
            (how, k), = cond.items()
            if len(sel) < mindp:
                out.append('CLR')
                continue
            q = c09.field(how, sel, sel)
            if any(abs(x - k['threshold']) < 1e-9 for x in q):
                raise Open
            out.append(c09.verdict(q, k))
            obs.count('vector_' + out[-1])
        return out
    s.verdicts = verdicts
    return s


def polygon_source(obs, r):
    from shapely.geometry import box
    from shapely.ops import unary_union
    rng = obs.rng
    for _ in range(20):
        rws = [x for x in _lut.rows(rng, r, rng.choice([1, 1, 2, 3]), nan=0) if x['poly'].geom_type != 'Polygon' or len(x['poly'].exterior.coords) == 5]
        if rws and _lut.covered(rws, r):
            break
    else:
        return None
    f = os.path.join(obs.scratch, 'poly.csv')
    with open(f, 'w') as fh:
        fh.write('geometry,lutv\n')
        for x in rws:
            fh.write('"%s",%r\n' % (x['poly'].wkt, x['v']))
    comp = box(-180, -90, 180, 90) - unary_union([x['poly'] for x in rws])
    allp = _lut.parts(rws + [dict(poly=comp, v=float('nan'), t=None)])
    conds = []
    for _ in range(rng.choice([1, 1, 2])):
        k = {}
        if rng.random() < 0.9:
            k['boundary'] = rng.random() < 0.9
        if rng.random() < 0.4:
            k['split_lock'] = rng.random() < 0.5
        conds.append(k)
    s = gen.Source('lut_csv', dict(files=[f], aggregate_type='MAX', value_fill_types='Nan',
                                   splitting_conditions=[{'lutv': dict(k)} for k in conds]), ['lutv'], [], 'lut', 'MAX', conds)

    def verdicts(c):
        cp = _lut.cell_poly(c, r['long_min'])
        out = [c09.lut_verdict(allp, cp, k) for k in conds]
        for x in out:
            obs.count('polygon_' + x)
        return out
    s.verdicts = verdicts
    return s


def run_case(case, obs):
    rng = obs.rng
    mixed, kind = case['kind'].startswith('mixed:'), case['kind'].split(':')[-1]
    deep = not mixed and rng.random() < 0.08      # a few points, followed very deep
    r = gen.region(rng, kind, max_cols=2 if deep else 4, max_rows=2 if deep else 3)
    n = rng.choice([0, 1, 1, 2] if mixed else [0, 0, 1] if deep else [1, 1, 2, 2, 3, 4, 6])
    depth = gen.cap(rng.choice([4, 5, 6]) if deep else rng.choice([0, 1, 2, 2, 3]))
    mindp = rng.choice([0, 1, 2, 5, 10])
    srcs = []
    for k in range(n):
        srcs.append(gen.scalar_source(rng, obs.scratch, r, 'q%d' % k, n=rng.choice([5, 12, 30, 60, 90]),
                                      vmax=rng.choice([1, 4, 64])))
    if deep:
        mindp = rng.choice([0, 1, 2])
        srcs = [s for s in srcs if not s.conds or rng.random() < 0.3]
        srcs.insert(rng.randint(0, len(srcs)), gen.deep_source(rng, obs.scratch, r, 'deep'))
    if mixed:
        what = rng.choice(['v', 'v', 'p', 'p', 'vp'])
        # the edge of the world is an edge of the polygon of everything else: keep away from it
        inner = kind != 'anti' and r['long_min'] > -180 and r['long_max'] < 180 and r['lat_min'] > -90 and r['lat_max'] < 90
        p = polygon_source(obs, r) if 'p' in what and inner else None
        if 'v' in what or p is None:
            srcs.append(vector_source(obs, r, kind, mindp))
            obs.count('with_vector')
        if p is not None:
            srcs.append(p)
            obs.count('with_polygons')
        rng.shuffle(srcs)
    n = len(srcs)
    try:
        want, stats = ref.expected_refinement(r, srcs, depth, mindp, gen.START, gen.END)
    except Open:
        obs.count('left_open')
        return
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    mb = MeshBuilder(gen.config(r, srcs, depth, mindp))
    doc = json.loads(json.dumps(mb.build_environmental_mesh().to_json()))
    cells = ref.parse_cells(doc, r['long_min'])
    for k, v in stats.items():
        obs.count(k, v)
    obs.count('meshes')
    obs.count('cells', len(cells))
    obs.count('multi_source', n > 1)
    obs.count('deep_cells', sum(c.u1 - c.u0 <= r['cell_width'] / 16 for c in cells))
    obs.nontrivial = stats['verdict_HET'] > 0
    obs.state(ref.shape_sig(want))
    got_s, want_s = set(ref.shape_sig(cells)), set(ref.shape_sig(want))
    conds = [(s.loader, s.conds) for s in srcs]
    obs.sample = dict(region=r, depth=depth, min_dp=mindp, conds=conds, cells=len(cells))
    obs.check(got_s == want_s and len(cells) == len(want), 'refinement',
              'cells differ from the splitting rule: only built %s, only expected %s' % (sorted(got_s - want_s)[:3], sorted(want_s - got_s)[:3]),
              region=r, depth=depth, min_dp=mindp, conds=conds)
    decisions(obs, mb, srcs, cells, mindp, r)


def decisions(obs, mb, srcs, cells, mindp, r):
    """what single cells of the mesh say about being split further"""
    rng = obs.rng
    at = {}
    for cb in mb.mesh.cellboxes:
        if hasattr(cb, 'should_split'):
            b = cb.bounds
            at[b.get_lat_min(), b.get_lat_max(), round(ref.wrap_e(b.get_long_max()), 9)] = cb
    boxes = [(c, at[k]) for c in cells for k in [(c.lat0, c.lat1, round(ref.wrap_e(r['long_min'] + c.u1), 9))] if k in at]
    for c, cb in rng.sample(boxes, min(6, len(boxes))):
        upto = rng.choice([len(srcs), rng.randint(0, len(srcs))])
        try:
            v = []
            for s in srcs[:upto]:
                v += s.verdicts(c) if getattr(s, 'verdicts', None) else \
                    [ref.scalar_verdict([p['v'][0] for p in ref.select(s.pts, c, r['long_min'], gen.START, gen.END)], k, mindp) for k in s.conds]
        except Open:
            continue
        want = 'HET' in v and 'HOM' not in v
        got = [('should_split(%d)' % upto, cb.should_split(upto))]
        if upto == len(srcs):
            got.append(('should_split_breadth_first()', cb.should_split_breadth_first()))
        obs.count('decisions', len(got))
        obs.count('decisions_yes', want)
        for how, g in got:
            obs.check(bool(g) == want, 'decision', '%s of cell %r is %r, its verdicts are %s' % (how, c, g, v))
