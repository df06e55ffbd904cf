"""Cases: (mesh) COUNT sources over refined meshes, scalar and vector; (parts) a
boundary, its quarters and random vertical/horizontal partitions asked of a
loader directly. Data has many points on edges and corners. Non-trivial when
points fall on inner edges. Monitor: conservation of counts against the raw
points, and exactly-once attribution of every point (by unique value)."""
import json

from mon import core, gen, ref
from mon.props.c05 import wrap_w

KINDS = [('mesh:' + k, w) for k, w in [('plain', 2), ('anti', 2), ('global', 1), ('wide', 1), ('touch_e', 1), ('touch_w', 1)]] + \
        [('parts:' + k, w) for k, w in [('plain', 2), ('anti', 3), ('global', 1), ('wide', 1), ('touch_e', 1), ('touch_w', 1)]]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'conserved': 300, 'points_inside': 3000, 'points_on_inner_edges': 300, 'partitions': 300, 'vector': 50, 'vector_grid': 100}


def cases(tier, seed):
    return core.mkcases('C06', KINDS, tier, seed, 1600, 10000)


def uniq(pts):
    """distinct values so that each point can be recognised"""
    for k, p in enumerate(pts):
        p['v'] = [float(k + 1) * (1 if i == 0 else 0.5) for i in range(len(p['v']))]
    return pts


def run_case(case, obs):
    mode, kind = case['kind'].split(':')
    rng = obs.rng
    r = gen.region(rng, kind, max_cols=4, max_rows=3)
    west, W = r['long_min'], ref.width(r['long_min'], r['long_max'])
    vector = rng.random() < 0.35
    whole = ref.Cell(r['lat_min'], r['lat_max'], 0, W)
    if mode == 'mesh':
        split = gen.scalar_source(rng, obs.scratch, r, 'drv', n=40, time=False, nan=0,
                                  conds=[dict(threshold=0, lower_bound=0, upper_bound=1)])
        if vector:
            s = gen.vector_source(rng, obs.scratch, r, ['uu', 'vv'], agg='COUNT', nan=0, on_edge=0.7, fill=0)
        else:
            s = gen.scalar_source(rng, obs.scratch, r, 'q', conds=[], agg='COUNT', nan=0.1, on_edge=0.7, fill=0)
        name = s.names[0]
        doc = json.loads(json.dumps(gen.build(gen.config(r, [split, s], rng.choice([1, 2, 3]), 1)).to_json()))
        cells = ref.parse_cells(doc, west)
        inside = [p for p in ref.select(s.pts, whole, west, gen.START, gen.END) if not ref.isnan(p['v'][0])]
        tot = 0
        for c in cells:
            v = c.raw[name]
            tot += 0 if v is None or ref.isnan(float(v)) else float(v)
            sel = [p for p in ref.select(inside, c, west, gen.START, gen.END)]
            obs.count('points_on_inner_edges', sum((p['lat'] == c.lat1 and c.lat1 != r['lat_max']) for p in sel))
        obs.count('points_inside', len(inside))
        obs.count('conserved')
        obs.count('vector', vector)
        obs.count('vector_grid', vector and s.form == 'xr')
        obs.sample = dict(region=r, cells=len(cells), points=len(inside), total=tot)
        obs.state(ref.shape_sig(cells), len(inside))
        obs.check(tot == len(inside), 'conservation', 'counts over the %d cells add up to %s, but %d points lie in the region' % (len(cells), tot, len(inside)), region=r, form=s.form)
        return
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    if vector:
        s = gen.vector_source(rng, obs.scratch, r, ['uu', 'vv'], nan=0, n=60, on_edge=0.7, agg='MEAN')
    else:
        s = gen.scalar_source(rng, obs.scratch, r, 'q', conds=[], nan=0, n=60, on_edge=0.7)
    for f in s.params.get('files', [s.params.get('file')]):
        pass
    uniq(s.pts)
    import os
    # rewrite the files with recognisable values
    if s.form == 'df':
        f = os.path.join(obs.scratch, 'u.csv')
        gen.write_csv(f, s.pts, s.names)
    else:
        import numpy as np
        g = dict(lats=sorted({p['lat'] for p in s.pts}), longs=sorted({p['long'] for p in s.pts}),
                 times=sorted({p['time'] for p in s.pts}) if s.pts[0]['time'] else None)
        g['vals'] = np.array([[p['v'][i] for p in s.pts] for i in range(len(s.names))]).reshape(len(s.names), len(g['times'] or [1]), len(g['lats']), len(g['longs']))
        f = os.path.join(obs.scratch, 'u.nc')
        gen.write_grid(f, g, ['U', 'V'] if vector else s.names, **(dict(timename='times') if vector else {}))
    params = json.loads(json.dumps(s.params))
    params.pop('file', None)
    params['files'] = [f]
    bnd = Boundary([r['lat_min'], r['lat_max']], [r['long_min'], r['long_max']], [gen.START, gen.END])
    loader = DataLoaderFactory.get_dataloader(s.loader, bnd, params, min_dp=5)

    def values(c):
        if c.u1 - c.u0 >= 360:
            b = Boundary([c.lat0, c.lat1], [-180, 180], [gen.START, gen.END])
        else:
            b = Boundary([c.lat0, c.lat1], [wrap_w(west + c.u0), ref.wrap_e(west + c.u1)], [gen.START, gen.END])
        d = loader.trim_datapoints(b)[s.names[0]]
        return sorted(float(x) for x in d.values.ravel() if x == x)
    nx, ny = gen.size(r)
    obs.sample = dict(region=r, form=s.form, points=len(s.pts))
    for _ in range(4):
        div = rng.choice([1, 2])
        i0, j0 = rng.randint(0, nx * div - 1), rng.randint(0, ny * div - 1)
        i1, j1 = rng.randint(i0 + 1, nx * div), rng.randint(j0 + 1, ny * div)
        cw, ch = r['cell_width'] / div, r['cell_height'] / div
        c = ref.Cell(r['lat_min'] + j0 * ch, r['lat_min'] + j1 * ch, i0 * cw, i1 * cw)
        k = rng.choice(['quarters', 'cols', 'rows'])
        if k == 'quarters':
            parts = c.quarters()
        elif k == 'cols':
            cut = c.u0 + (c.u1 - c.u0) * rng.choice([0.25, 0.5, 0.75])
            parts = [ref.Cell(c.lat0, c.lat1, c.u0, cut), ref.Cell(c.lat0, c.lat1, cut, c.u1)]
        else:
            cut = c.lat0 + (c.lat1 - c.lat0) * rng.choice([0.25, 0.5, 0.75])
            parts = [ref.Cell(c.lat0, cut, c.u0, c.u1), ref.Cell(cut, c.lat1, c.u0, c.u1)]
        want = sorted(p['v'][0] for p in ref.select(s.pts, c, west, gen.START, gen.END))
        got = sorted(x for q in parts for x in values(q))
        obs.count('partitions')
        obs.count('conserved')
        obs.count('vector', vector)
        obs.count('vector_grid', vector and s.form == 'xr')
        obs.count('points_inside', len(want))
        obs.state(c.rect, k, len(want))
        obs.check(values(c) == want, 'window', 'the points found in %r are not the points in it (%d found, %d expected)' % (c, len(values(c)), len(want)), region=r, form=s.form)
        obs.check(got == want, 'partition', 'the %s of %r hold %d points, the whole %d' % (k, c, len(got), len(want)), region=r, form=s.form)
