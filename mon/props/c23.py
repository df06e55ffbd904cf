"""Cases: (scalar, vector) refined meshes over every kind of region with source
tables of up to 150 points placed inside cells, on shared edges, on the region's
edges and outside, with missing values; (window) sampled validation of meshes
built from a config file, at chosen and random sample points; (sampler)
quasi-random samplers of 1..4 dimensions; (refuse) tables lacking coordinates.
Non-trivial when at least one point was compared. Monitor: the reported figures
against an error computed from the mesh document's rectangles, every point
placed in the one cell holding it."""
import json
import math
import os

import numpy as np
import pandas as pd

from mon import core, gen, ref

KINDS = [('scalar:plain', 3), ('scalar:anti', 2), ('scalar:global', 1), ('scalar:wide', 1), ('scalar:touch_e', 1), ('scalar:pole', 1),
         ('vector:plain', 2), ('vector:anti', 2), ('vector:global', 1), ('window', 4), ('sampler', 2), ('refuse', 1)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'points': 1500, 'edge_points': 300, 'outside_points': 150, 'missing_points': 100, 'valueless_cells': 30, 'vector_points': 400, 'seam_points': 40,
           'window_points': 150, 'windows': 60, 'rmse': 15, 'samples': 150, 'windows_beyond': 100, 'window_two_sources': 30, 'windows_across': 20}
ASSUMPTIONS = ['points without a value, or in cells without a value, have no error and are left out of the mean',
               'points on a shared edge belong to the cell west and south of it, as when cells are filled',
               'the sampled validator is driven with scalar sources']


def cases(tier, seed):
    return core.mkcases('C23', KINDS, tier, seed, 1600, 6000)


def run_case(case, obs):
    k = case['kind']
    if k == 'window':
        window(case, obs)
    elif k == 'sampler':
        sampler(case, obs)
    elif k == 'refuse':
        refuse(case, obs)
    else:
        full(case, obs, *k.split(':'))


def close(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))


def full(case, obs, what, kind):
    from meshiphi.mesh_validation.full_mesh_validator import FullMeshValidator
    rng = obs.rng
    vec = what == 'vector'
    r = gen.region(rng, kind)
    if vec:
        src = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([5, 30]), agg=rng.choice(['MEAN', 'MIN', 'MAX']))
    else:
        src = gen.scalar_source(rng, obs.scratch, r, 'q', n=rng.choice([5, 30, 80]), agg=rng.choice(['MEAN', 'MIN', 'MAX', 'MEDIAN']), conds=[gen.scalar_cond(rng)])
    cfg = gen.config(r, [src], rng.choice([0, 1, 2, 2]), rng.choice([0, 1, 5]))
    cfg['data_sources'][0]['params']['value_fill_types'] = rng.choice(['Nan', 'parent', 3.5])
    doc = gen.build(cfg).to_json()
    names = ['uC', 'vC'] if vec else ['q']
    if rng.random() < 0.3:     # any values may stand in a mesh file
        for c in doc['cellboxes']:
            for n in names:
                if rng.random() < 0.3:
                    c[n] = rng.choice([float('nan'), 0.0, -12.5, 7])
    pts = gen.rand_points(rng, r, rng.choice([1, 5, 40, 150]), ncomp=len(names), nan=rng.choice([0, 0.2]), on_edge=0.5, outside=0.15)
    pts = [p for p in pts if abs(p['long']) != 180 or p['long'] == 180]
    if not pts:
        return
    cols = [rng.choice(['s0', 'value', names[0]]), 's1'][:len(names)]
    extra = rng.random() < 0.3
    df = pd.DataFrame([dict({'lat': p['lat'], 'long': p['long']}, **dict(zip(cols, p['v'])), **({'other': 1.0} if extra else {})) for p in pts])
    if rng.random() < 0.3:
        df = df.sample(frac=1, random_state=1)     # any index, any order
    if rng.random() < 0.2:
        df.index = [0] * len(df)
    before, dbefore = df.copy(deep=True), json.dumps(doc)
    fv = FullMeshValidator(doc, df)
    cells = ref.parse_cells(doc, r['long_min'])
    errs = []
    outer = set()
    for p in pts:
        u = ref.norm_u(p['long'], r['long_min'])
        hold = [c for c in cells if c.lat0 < p['lat'] <= c.lat1 and c.u0 < u <= c.u1]
        touch = sum(1 for c in cells if c.lat0 <= p['lat'] <= c.lat1 and (c.u0 <= u <= c.u1 or c.u0 <= u - 360 <= c.u1))
        obs.count('edge_points', touch > 1)
        if not hold:
            obs.count('outside_points')
            if touch:
                outer.add(id(p))
            continue
        obs.count('seam_points', r['long_min'] > r['long_max'] and u > 180 - r['long_min'])
        vals = [float(hold[0].raw[n]) if hold[0].raw[n] is not None else float('nan') for n in names]
        if any(x != x for x in p['v']):
            obs.count('missing_points')
            continue
        if any(x != x for x in vals):
            obs.count('valueless_cells')
            continue
        obs.count('points')
        obs.count('vector_points', vec)
        errs.append(math.sqrt(sum((a - b) ** 2 for a, b in zip(p['v'], vals))))
    mean = sum(errs) / len(errs) if errs else float('nan')
    rms = math.sqrt(sum(e * e for e in errs) / len(errs)) if errs else float('nan')
    for _ in range(2 if rng.random() < 0.3 else 1):   # asking again changes nothing
        if vec:
            res = fv.validate_vector(list(cols), list(names))
            got = (res['mean_d_vector_mag'], res['root_mean_squared_d_vector_mag'])
        else:
            res = fv.validate_scalar(cols[0], names[0])
            got = (res['mean_err'], res['root_mean_squared_err'])
        obs.check(res['cellbox_count'] == len(cells), 'count', 'reports %s cells of %d' % (res['cellbox_count'], len(cells)))
        obs.check(close(float(got[0]), mean), 'mean', 'mean error %r, expected %r over %d points' % (got[0], mean, len(errs)), region=r)
        obs.check(close(float(got[1]), rms), 'rms', 'root mean squared error %r, expected %r over %d points' % (got[1], rms, len(errs)), region=r)
    obs.check(df.equals(before) and list(df.columns) == list(before.columns), 'table-modified', 'the source table was modified')
    obs.check(json.dumps(doc) == dbefore, 'mesh-modified', 'the mesh document was modified')
    obs.sample = dict(region=r, cells=len(cells), points=len(pts), compared=len(errs))
    obs.state(what, kind, len(cells), len(errs))
    obs.nontrivial = bool(errs)


def refuse(case, obs):
    from meshiphi.mesh_validation.full_mesh_validator import FullMeshValidator
    rng = obs.rng
    r = gen.region(rng, 'plain')
    doc = gen.build(gen.config(r, [], 0, 1)).to_json()
    miss = rng.choice([['lat'], ['long'], ['lat', 'long']])
    df = pd.DataFrame({c: [1.0, 2.0] for c in ['lat', 'long', 'latitude', 'lon', 'v'] if c not in miss})
    with obs.expect_raise('coords', 'a table without %s was accepted' % miss, ValueError):
        FullMeshValidator(doc, df)
    obs.nontrivial = True


def matched(opts):
    """whether every point can be given a pair of its own"""
    owner = {}

    def place(i, seen):
        for q in opts[i]:
            if q not in seen:
                seen.add(q)
                if q not in owner or place(owner[q], seen):
                    owner[q] = i
                    return True
        return False
    return all(place(i, set()) for i in range(len(opts)))


def window(case, obs):
    from meshiphi.mesh_validation.mesh_validator import MeshValidator
    rng = obs.rng
    r = gen.region(rng, rng.choice(['plain', 'plain', 'touch_e', 'touch_w', 'pole', 'anti', 'anti']), max_cols=3, max_rows=3, sizes=[0.25, 0.5, 1])
    src = gen.scalar_source(rng, obs.scratch, r, 'q', n=rng.choice([40, 200]), agg=rng.choice(['MEAN', 'MIN', 'MAX']), conds=[gen.scalar_cond(rng)], nan=0)
    srcs = [src]
    if rng.random() < 0.4:
        srcs.append(gen.scalar_source(rng, obs.scratch, r, 'w', n=rng.choice([20, 60]), agg=rng.choice(['MEAN', 'MIN', 'MAX']), nan=0))
        obs.count('window_two_sources')
    points = [dict(p, name=x.names[0]) for x in srcs for p in x.pts]
    cfg = gen.config(r, srcs, rng.choice([0, 1, 2]), rng.choice([0, 1]))
    f = os.path.join(obs.scratch, 'mesh.json')
    json.dump({'config': {'mesh_info': cfg}}, open(f, 'w'))
    mv = MeshValidator(f)
    doc = mv.env_mesh.to_json()
    mv.validation_length = L = rng.choice([0.125, 0.25, 0.5, 1.0])
    cells = ref.parse_cells(doc, r['long_min'])
    st, en = r['start_time'], r['end_time']
    west = r['long_min']
    wid = (r['long_max'] - west) % 360 or 360
    anti = west + wid > 180 or west == 180

    def east(long):    # degrees east of the mesh's western edge
        return (long - west) % 360

    def inside(s):
        la1, lo0 = min(s[0] + L, r['lat_max']), east(s[1])
        lo1 = min(lo0 + L, wid)
        return [p for p in points if s[0] < p['lat'] <= la1 and lo0 < east(p['long']) <= lo1 and (p['time'] is None or st <= p['time'] <= en)]
    n = 0
    for _ in range(6):
        s = [r['lat_min'] + rng.randint(0, 15) / 16 * (r['lat_max'] - r['lat_min']), west + rng.randint(0, 15) / 16 * wid]
        if s[1] > 180:
            s[1] -= 360
        pts = inside(s)
        obs.count('windows_beyond', anti and bool(pts))
        obs.count('windows_across', anti and any(p['long'] > 0 for p in pts) and any(p['long'] < 0 for p in pts))
        a, b = mv.get_value_from_data(s), mv.get_values_from_mesh(s)
        a, b = [float(x) for x in np.ravel(a)], [float(x) for x in np.ravel(b)]
        obs.count('windows')
        # pairs of source value and value of a cell holding the point
        have = sorted(zip(a, b)) if len(a) == len(b) else None
        a = [x for x in a if x == x]
        obs.check(sorted(a) == sorted(p['v'][0] for p in pts if p['v'][0] == p['v'][0]), 'window-data', 'the data of the window is not what the source holds there', sample=s, got=a, want=[p['v'][0] for p in pts])
        if not obs.check(have is not None, 'window-pairs', '%d source values but %d mesh values' % (len(a), len(b)), sample=s):
            continue
        opts = []
        for p in pts:
            u = ref.norm_u(p['long'], r['long_min'])
            # a point on an edge may take any cell touching it
            ok = [float(c.raw[p['name']]) for c in cells if c.lat0 <= p['lat'] <= c.lat1 and c.u0 <= u <= c.u1]
            opts.append([i for i, q in enumerate(have) if q[0] == p['v'][0] and any(close(q[1], o) for o in ok)])
            obs.count('window_points')
            n += 1
        obs.check(matched(opts), 'window-mesh', 'a point is not compared with the value of its cell', sample=s, pairs=have[:9])
    obs.sample = dict(region=r, cells=len(cells), form=src.form)
    obs.state('window', src.form, len(cells), min(n, 4), L)
    obs.nontrivial = n > 0
    # the whole: record the samples drawn and recompute the figure from them
    from meshiphi.mesh_validation.sampler import Sampler
    log, drawn, orig = [], [], Sampler.generate_samples

    def record(self, *a, **kw):
        drawn.append(0)
        x = orig(self, *a, **kw)
        drawn.pop()
        log.extend(tuple(float(v) for v in row) for row in x)
        return x
    k = rng.choice([4, 8, None])
    Sampler.generate_samples = record
    try:
        d = mv.validate_mesh() if k is None else mv.validate_mesh(k)
    except ValueError:
        if drawn or any(p['v'][0] == p['v'][0] for s in log for p in inside(s)) and not any(ref.isnan(c.raw[x.names[0]]) for c in cells for x in srcs):
            raise
        return    # nothing to compare, or cells without a value
    finally:
        Sampler.generate_samples = orig
    if not log:
        return    # sampled in some other way
    obs.check(len(log) == (k or 10), 'samples', '%d samples taken of %s' % (len(log), k or 10))
    obs.check(all(r['lat_min'] <= a <= r['lat_max'] and min(east(b), 360 - east(b)) <= 1e-9 or r['lat_min'] <= a <= r['lat_max'] and east(b) <= wid + 1e-9 for a, b in log), 'sample-range', 'a sample lies outside the mesh', log=log)
    lo, hi, m = 0.0, 0.0, 0
    for s in log:
        for p in inside(s):
            u = ref.norm_u(p['long'], r['long_min'])
            e = [(float(c.raw[p['name']]) - p['v'][0]) ** 2 for c in cells if c.lat0 <= p['lat'] <= c.lat1 and c.u0 <= u <= c.u1]
            if not e or any(x != x for x in e):
                return
            lo, hi, m = lo + min(e), hi + max(e), m + 1
    if m:
        obs.count('rmse')
        obs.count('rmse_sharp', lo == hi)
        obs.check(math.sqrt(lo / m) * (1 - 1e-9) - 1e-9 <= float(d) <= math.sqrt(hi / m) * (1 + 1e-9) + 1e-9, 'rmse',
                  'reported error %r, expected %r..%r' % (d, math.sqrt(lo / m), math.sqrt(hi / m)))


def sampler(case, obs):
    from meshiphi.mesh_validation.sampler import Sampler
    rng = obs.rng
    d, n = rng.randint(1, 4), rng.choice([1, 2, 3, 8, 10, 64])
    rg = []
    for _ in range(d):
        a = rng.choice([-90, 0, -180, 12.5, rng.uniform(-100, 100)])
        rg.append([a, a + rng.choice([0, 0.5, 20, 360])])
    s = Sampler(d, n).generate_samples(rg)
    obs.check(np.shape(s) == (n, d), 'shape', 'samples have shape %s' % (np.shape(s),))
    obs.count('samples', n)
    obs.check(all(rg[i][0] <= x <= rg[i][1] for row in s for i, x in enumerate(row)), 'range', 'a sample lies outside its range', ranges=rg)
    if n >= 8:     # fills the space: every half of every range is hit
        for i in range(d):
            if rg[i][0] < rg[i][1]:
                mid = sum(rg[i]) / 2
                obs.check(any(row[i] <= mid for row in s) and any(row[i] >= mid for row in s), 'fill', 'half of a range has no sample')
    with obs.expect_raise('dims', 'ranges of another dimension were accepted', ValueError):
        Sampler(d, n).generate_samples(rg + [[0, 1]] if rng.random() < 0.5 else rg[1:])
    obs.nontrivial = True
