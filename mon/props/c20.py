"""Cases: (down) gridded scalar and vector sources of 1..20 rows and columns
with every pair of factors from 1 to 6 and beyond the grid, every aggregate,
missing values and time steps; (amsr, iced) polar stereographic files read by
the AMSR and Visual Iced loaders; (proj) user loaders after the documented
pattern, tabular and gridded, in eight projections; (fast) grids of a smooth
field with interpolating reprojection. Non-trivial when a block of
more than one point or a reprojected point was compared. Monitor: the loader's
stored data, point by point, against blocks formed from the raw grid and
against longitudes and latitudes chosen first and projected to make the file."""
import math
import os

import numpy as np
import pandas as pd

from mon import core, gen, ref

KINDS = [('down:scalar', 5), ('down:vector', 3), ('down:anti', 1), ('amsr', 2), ('iced', 1), ('proj:scalar', 3), ('proj:vector', 2), ('fast', 2)]
AGGS = ['MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT']
MIN_OBS = dict({'blocks': 2000, 'blocks_many': 800, 'partial_blocks': 150, 'blocks_missing': 150, 'unit_factors': 10, 'reprojected': 1500, 'missing_dropped': 100, 'dated': 30, 'fast_values': 3000, 'fast_grids': 20, 'outside': 100}, **{'agg_' + a: 20 for a in AGGS})
ASSUMPTIONS = ['fast_reprojection interpolates: its values are judged on fields linear in the projected coordinates, to 0.6 of a grid step',
               'with COUNT the first point of each block is kept, as the code documents, in place of an aggregate',
               'reprojected points within 1e-6 degrees of the region edge are not placed']


def stamp(t):
    """dates as days, with the hour if there is one"""
    t = pd.Timestamp(t)
    return str(t.date()) if t == t.normalize() else str(t)


def cases(tier, seed):
    return core.mkcases('C20', KINDS, tier, seed, 1500, 8500)


def bounds(r):
    from meshiphi.mesh_generation.boundary import Boundary
    return Boundary.from_json({'region': r})


def get(name, r, params):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    return DataLoaderFactory.get_dataloader(name, bounds(r), params, 1)


def run_case(case, obs):
    k = case['kind']
    if k.startswith('down'):
        down(case, obs, k[5:])
    elif k.startswith('proj'):
        proj(case, obs, k[5:])
    elif k == 'fast':
        fast(case, obs)
    elif k == 'amsr':
        amsr(case, obs)
    else:
        iced(case, obs, 'tiff' if case['i'] % 2 else 'nc')


def table(ld, names):
    """stored data as {(time, lat, long): values}"""
    d = ld.data
    df = d if isinstance(d, pd.DataFrame) else d.to_dataframe().reset_index()
    out = {}
    ts = [stamp(t) for t in df['time']] if 'time' in df else [None] * len(df)
    for t, la, lo, *v in zip(ts, df['lat'], df['long'], *[df[n] for n in names]):
        out.setdefault((t, float(la), float(lo)), []).append(tuple(float(x) for x in v))
    return out


def down(case, obs, what):
    rng = obs.rng
    kind = 'anti' if what == 'anti' else rng.choice(['plain', 'plain', 'touch_e', 'pole'])
    vec = what == 'vector' or (what == 'anti' and rng.random() < 0.3)
    r = gen.region(rng, kind, max_cols=5, max_rows=5)
    g = gen.rand_grid(rng, r, 2 if vec else 1, nan=rng.choice([0, 0.1, 0.4]), time=vec or rng.random() < 0.3)
    agg = AGGS[case['i'] % 6]
    m, n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 25]), rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 25])
    if rng.random() < 0.06:
        m = n = 1
    f = os.path.join(obs.scratch, 'g.nc')
    if vec:
        gen.write_grid(f, g, ['U', 'V'], timename='times')
        names, loader = ['uC', 'vC'], 'northsea_currents'
    else:
        gen.write_grid(f, g, ['depth'])
        names, loader = ['depth'], 'gebco'
    fac = (m, n) if rng.random() < 0.3 else [m, n]
    # the window of the region
    lo, hi = r['long_min'], r['long_max']
    li = [i for i, la in enumerate(g['lats']) if r['lat_min'] < la <= r['lat_max']]
    if lo < hi:
        lj = [j for j, x in enumerate(g['longs']) if lo < x <= hi]
    else:
        lj = [j for j, x in enumerate(g['longs']) if x <= hi or x > lo]
    ti = [t for t in range(g['vals'].shape[1]) if not g['times'] or gen.START <= g['times'][t] <= gen.END]
    if not (li and lj and ti):
        return
    ld = get(loader, r, dict(files=[f], downsample_factors=fac, aggregate_type=gen.anycase(obs.rng, agg)))
    got = table(ld, names)
    used = set()
    obs.count('agg_' + agg)
    obs.count('unit_factors', m == n == 1)
    obs.sample = dict(region=r, factors=[m, n], agg=agg, rows=len(li), cols=len(lj), steps=len(ti))
    many = False
    for t in ti:
        tt = stamp(g['times'][t]) if g['times'] else None
        for bi in range(0, len(li), n):
            for bj in range(0, len(lj), m):
                rows, cols = li[bi:bi + n], lj[bj:bj + m]
                seam = lo > hi and min(g['longs'][j] for j in cols) <= hi < lo < max(g['longs'][j] for j in cols) and len(cols) > 1
                sub = g['vals'][:, t][:, rows][:, :, cols]
                if agg == 'COUNT':
                    pos, want = (g['lats'][rows[0]], g['longs'][cols[0]]), [float(x) for x in sub[:, 0, 0]]
                else:
                    pos = (sum(g['lats'][i] for i in rows) / len(rows), sum(g['longs'][j] for j in cols) / len(cols))
                    want = [ref.stat([float(x) for x in s.ravel()], agg, 0) for s in sub]
                    if m == n == 1:
                        want = [float(x) for x in sub[:, 0, 0]]
                if seam and agg != 'COUNT':
                    # points of both ends of the region in one block: no block can stand for them,
                    # so the row must still have an entry for each stretch of m points
                    have = {q[2] for q in got if q[0] == tt and abs(q[1] - pos[0]) < 1e-9 and not lo >= q[2] > hi}
                    obs.count('seam_blocks')
                    obs.check(len(have) >= -(-len(lj) // m), 'seam-block', 'the points of a block holding both ends of an antimeridian crossing region are lost', at=pos)
                    used.update(q for q in got if q[0] == tt and abs(q[1] - pos[0]) < 1e-9 and abs(q[2] - pos[1]) < 1e-9)
                    continue
                key = 'block'
                obs.count('blocks')
                obs.count('blocks_many', len(rows) * len(cols) > 1)
                obs.count('partial_blocks', len(rows) < n or len(cols) < m)
                obs.count('blocks_missing', bool(np.isnan(sub).any()) and sub[0].size > 1)
                many = many or len(rows) * len(cols) > 1 or m == n == 1
                hit = [q for q in got if q[0] == tt and abs(q[1] - pos[0]) < 1e-9 and abs(q[2] - pos[1]) < 1e-9]
                used.update(hit)
                if not hit and all(ref.isnan(x) for x in want):
                    continue  # a block without data needs no entry
                if not obs.check(len(hit) == 1 and len(got[hit[0]]) == 1, key + '-position', 'no single entry at the mean position of a block', at=pos, have=sorted(got)[:6]):
                    continue
                v = got[hit[0]][0]
                obs.check(all(ref.close(a, b, 1e-9) for a, b in zip(v, want)), key + '-' + agg, 'a block of %dx%d points has %s, expected %s' % (len(rows), len(cols), v, want), at=pos, block=sub.tolist())
    extra = [q for q in got if q not in used and not all(math.isnan(x) for x in got[q][0])]
    if lo < hi:
        obs.check(not extra, 'extra', 'entries that belong to no block of the grid', extra=extra[:4])
    obs.state('down', vec, agg, min(m, 7), min(n, 7), len(li) % max(n, 1) != 0, len(lj) % max(m, 1) != 0)
    obs.nontrivial = many


def match(obs, r, got, pts, ncomp, key):
    """pts: (time, lat, long, values); those in the region must be in the loader's data at their place"""
    lo, hi = r['long_min'], r['long_max']

    def inside(la, x):
        return r['lat_min'] < la <= r['lat_max'] and (lo < x <= hi if lo < hi else x > lo or x <= hi)
    left = {q: list(v) for q, v in got.items() if inside(q[1], q[2])}
    obs.count('outside', len(got) - len(left))
    byt = {}
    for q in left:
        byt.setdefault(q[0], []).append(q)
    arr = {t: (qs, np.array([[q[1], q[2]] for q in qs])) for t, qs in byt.items()}
    n = 0
    for t, la, x, v in pts:
        if not inside(la, x) or (t is not None and not gen.START <= t <= gen.END):
            obs.count('outside')
            continue
        if any(ref.isnan(y) for y in v):
            obs.count('missing_dropped')
            continue
        n += 1
        obs.count('reprojected')
        obs.count('dated', t is not None)
        hit = None
        if t in arr:
            qs, a = arr[t]
            dx = np.abs(a[:, 1] - x)
            dx = np.minimum(dx, 360 - dx)
            for k in np.nonzero((np.abs(a[:, 0] - la) < 1e-7) & (dx < 1e-7 / max(1e-3, math.cos(math.radians(la)))))[0]:
                if tuple(v) in left[qs[k]]:
                    hit = qs[k]
                    break
        if not obs.check(hit is not None, key, 'the point at %.6f %.6f (%s) with value %s is not in the data at that place' % (la, x, t, v), have=list(left.items())[:4]):
            break
        left[hit].remove(tuple(v))
    rest = [(q, v) for q, vs in left.items() for v in vs if not any(math.isnan(y) for y in v) and (q[0] is None or gen.START <= q[0] <= gen.END)]
    obs.check(not rest, key + '-extra', 'data at places where the file has none', rest=rest[:4])
    obs.nontrivial = n > 0
    return n


def tr(epsg, inverse=False):
    from pyproj import Transformer
    a, b = 'EPSG:4326', epsg
    return Transformer.from_crs(b if inverse else a, a if inverse else b, always_xy=True)


PROJ = {'EPSG:3031': (-88, -61, -179, 179), 'EPSG:3412': (-88, -45, -179, 179), 'EPSG:3411': (45, 88, -179, 179), 'EPSG:3995': (61, 88, -179, 179),
        'EPSG:3857': (-80, 80, -179, 179), 'EPSG:32630': (1, 80, -5.5, -0.5), 'EPSG:27700': (50.5, 60, -6, 1.5), 'EPSG:6932': (-88, -45, -179, 179)}


def pick_region(rng, box):
    """a region inside the box, with edges off the lattice of points"""
    la0, la1, lo0, lo1 = box
    for _ in range(100):
        h = rng.choice([2, 4, 8, 16])
        w = rng.choice([2, 4, 16, 64])
        la = rng.randint(math.ceil(la0), max(math.ceil(la0), math.floor(la1 - h)))
        x = rng.randint(math.ceil(lo0), max(math.ceil(lo0), math.floor(lo1 - w)))
        if la + h <= min(89, la1 + 5) and x + w <= lo1:
            break
    else:
        h, w = 1, 1
        la, x = math.ceil(la0), math.ceil(lo0)
    return dict(lat_min=la, lat_max=la + h, long_min=x, long_max=x + w, start_time=gen.START, end_time=gen.END, cell_width=w, cell_height=h)


def safe(r, la, x):
    return min(abs(la - r['lat_min']), abs(la - r['lat_max']), abs(x - r['long_min']), abs(x - r['long_max'])) > 1e-5


def proj(case, obs, what):
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
    from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
    rng = obs.rng
    vec = what == 'vector'
    epsg = rng.choice(sorted(PROJ))
    r = pick_region(rng, PROJ[epsg])
    names = ['u', 'v'] if vec else ['d']
    grid = rng.random() < 0.4
    cols = rng.choice([('x', 'y'), ('x', 'y'), ('easting', 'northing'), ('y', 'x')] + ([] if grid else [('long', 'lat'), ('lat', 'long')]))
    box = PROJ[epsg]
    fwd = tr(epsg)
    dates = [None] if rng.random() < 0.5 else [gen.day(k) for k in (-2, 0, 4, 9, 12)]
    pts, rows = [], []

    def val():
        return tuple(float('nan') if rng.random() < 0.1 else rng.randint(-400, 400) / 4 for _ in names)
    ds = None
    if not grid:
        for _ in range(rng.randint(3, 60)):
            if rng.random() < 0.8:
                la = r['lat_min'] + (r['lat_max'] - r['lat_min']) * rng.uniform(-0.1, 1.1)
                x = r['long_min'] + (r['long_max'] - r['long_min']) * rng.uniform(-0.1, 1.1)
            else:
                la, x = rng.uniform(box[0], box[1]), rng.uniform(box[2], box[3])
            if not safe(r, la, x) or not (box[0] < la < box[1] and box[2] < x < box[3]):
                continue
            e, nn = fwd.transform(x, la)
            v, t = val(), rng.choice(dates)
            pts.append((t, la, x, v))
            rows.append(dict({cols[0]: e, cols[1]: nn}, **dict(zip(names, v)), **({'time': t} if t else {})))
        if not rows:
            return
        data = pd.DataFrame(rows)
    else:
        import xarray as xr
        e0, n0 = fwd.transform((r['long_min'] + r['long_max']) / 2, (r['lat_min'] + r['lat_max']) / 2)
        st = rng.choice([20000.0, 50000.0, 131072.0]) if epsg not in ('EPSG:32630', 'EPSG:27700') else 10000.0
        xs = [e0 + st * (k - 4) for k in range(rng.randint(2, 9))]
        ys = [n0 + st * (k - 4) for k in range(rng.randint(2, 9))]
        if rng.random() < 0.5:
            ys = ys[::-1]
        inv = tr(epsg, True)
        nt = len(dates)
        arr = np.array([[[list(val()) for _ in xs] for _ in ys] for _ in range(nt)])
        for a in range(nt):
            for i, y in enumerate(ys):
                for j, x in enumerate(xs):
                    lo, la = inv.transform(x, y)
                    if not safe(r, la, lo):
                        return
                    pts.append((dates[a], la, lo, tuple(arr[a, i, j])))
        dims = (cols[1], cols[0])
        co = {cols[1]: ys, cols[0]: xs}
        if dates[0]:
            data = xr.Dataset({nm: (('time',) + dims, arr[..., k]) for k, nm in enumerate(names)}, coords=dict(co, time=pd.to_datetime(dates)))
        else:
            data = xr.Dataset({nm: (dims, arr[0, ..., k]) for k, nm in enumerate(names)}, coords=co)
    base = VectorDataLoader if vec else ScalarDataLoader

    class Mine(base):
        def add_default_params(self, params):
            params = super().add_default_params(params)
            params.update(in_proj=epsg, out_proj='EPSG:4326', x_col=cols[0], y_col=cols[1])
            return params

        def import_data(self, b):
            return data
    ld = Mine(bounds(r), dict(dataloader_name='mine', data_name=','.join(names)))
    got = table(ld, names)
    obs.sample = dict(region=r, epsg=epsg, cols=cols, gridded=grid, points=len(pts))
    n = match(obs, r, got, pts, len(names), 'reproject-' + ('xr' if grid else 'df'))
    obs.state('proj', epsg, vec, grid, cols, bool(dates[0]), min(n, 3))


def fast(case, obs):
    """interpolation keeps a field that is linear in x and y, wherever it is put"""
    import xarray as xr
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
    from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
    rng = obs.rng
    vec = rng.random() < 0.4
    epsg = rng.choice(['EPSG:3031', 'EPSG:3995', 'EPSG:3857', 'EPSG:32630', 'EPSG:27700', 'EPSG:6932'])
    r = pick_region(rng, PROJ[epsg])
    names = ['u', 'v'] if vec else ['d']
    fwd = tr(epsg)
    e0, n0 = fwd.transform((r['long_min'] + r['long_max']) / 2, (r['lat_min'] + r['lat_max']) / 2)
    st = rng.choice([20000.0, 50000.0]) if epsg not in ('EPSG:32630', 'EPSG:27700') else 10000.0
    nx, ny = rng.randint(8, 24), rng.randint(8, 24)
    xs = [e0 + st * (k - nx // 2) for k in range(nx)]
    ys = [n0 + st * (k - ny // 2) for k in range(ny)]
    if rng.random() < 0.5:
        ys = ys[::-1]
    # neither the pole nor the antimeridian in the grid: its extent in degrees is that of its points
    inv = tr(epsg, True)
    edge = [inv.transform(x, y) for x in xs for y in ys]
    if max(p[0] for p in edge) - min(p[0] for p in edge) > 170 or max(abs(p[1]) for p in edge) > 89 or not all(math.isfinite(v) for p in edge for v in p):
        obs.count('fast_skipped')
        return
    co = {nm: (rng.choice([-3, -1, 0.5, 2]), rng.choice([-2, -0.5, 1, 4]), rng.randint(-50, 50)) for nm in names}

    def f(nm, x, y):
        a, b, c = co[nm]
        return a * (x - e0) / st + b * (y - n0) / st + c
    data = xr.Dataset({nm: (('y', 'x'), [[f(nm, x, y) for x in xs] for y in ys]) for nm in names}, coords=dict(y=ys, x=xs))
    base = VectorDataLoader if vec else ScalarDataLoader

    class Mine(base):
        def add_default_params(self, params):
            params = super().add_default_params(params)
            params.update(in_proj=epsg, out_proj='EPSG:4326', x_col='x', y_col='y', fast_reprojection=True)
            return params

        def import_data(self, b):
            return data
    ld = Mine(bounds(r), dict(dataloader_name='mine', data_name=','.join(names)))
    d = ld.data
    obs.sample = dict(region=r, epsg=epsg, grid=[ny, nx], fast=True)
    obs.count('fast_grids')
    lats, longs = [float(x) for x in d.lat.values], [float(x) for x in d.long.values]
    obs.check(lats == sorted(lats) and longs == sorted(longs), 'fast-order', 'the coordinates of the reprojected grid do not ascend')
    inner = (min(xs) + 1.5 * st, max(xs) - 1.5 * st, min(ys) + 1.5 * st, max(ys) - 1.5 * st)
    whole = len(lats) > 1 and len(longs) > 1
    hit = 0
    for nm in names:
        A = d[nm].transpose('lat', 'long').values
        tol = 0.6 * (abs(co[nm][0]) + abs(co[nm][1]))
        lo_v, hi_v = float(data[nm].min()) - 1e-6, float(data[nm].max()) + 1e-6
        for i, la in enumerate(lats):
            for j, lo in enumerate(longs):
                x, y = fwd.transform(lo, la)
                v = float(A[i, j])
                if v == v and not obs.check(lo_v <= v <= hi_v, 'fast-range', 'interpolated value %r outside the range of the data' % v):
                    return
                if not (inner[0] < x < inner[1] and inner[2] < y < inner[3]):
                    continue
                hit += 1
                if not obs.check(v == v and abs(v - f(nm, x, y)) <= tol, 'fast-value', 'value at %r %r is %r, the field there is %r' % (la, lo, v, f(nm, x, y)), epsg=epsg):
                    return
    obs.count('fast_values', hit)
    obs.nontrivial = hit > 0
    obs.state('fast', epsg, vec, ny, nx)


def polar_grid(rng, epsg, r):
    fwd, inv = tr(epsg), tr(epsg, True)
    la, lo = r['lat_min'] + (r['lat_max'] - r['lat_min']) * rng.random(), r['long_min'] + (r['long_max'] - r['long_min']) * rng.random()
    e0, n0 = fwd.transform(lo, la)
    st = rng.choice([6250.0, 25000.0, 100000.0, 250000.0])
    xs = [round(e0) + st * (k - 5) for k in range(rng.randint(2, 11))]
    ys = [round(n0) + st * (k - 5) for k in range(rng.randint(2, 11))]
    P = [[inv.transform(x, y) for x in xs] for y in ys]
    return xs, ys, P


def amsr(case, obs):
    import xarray as xr
    rng = obs.rng
    south = rng.random() < 0.5
    epsg = 'EPSG:3412' if south else 'EPSG:3411'
    r = pick_region(rng, PROJ[epsg])
    if rng.random() < 0.3:   # across the antimeridian
        r['long_min'], r['long_max'] = 170, -174
    xs, ys, P = polar_grid(rng, epsg, r if r['long_min'] < r['long_max'] else dict(r, long_min=172, long_max=179))
    files, pts = [], []
    days = rng.sample([gen.day(k) for k in (-2, -1, 0, 4, 9, 10)], rng.randint(1, 4))
    if not any(gen.START <= d <= gen.END for d in days):
        days.append(gen.START)
    for d in days:
        z = np.array([[float('nan') if rng.random() < 0.15 else float(rng.randint(0, 100)) for _ in xs] for _ in ys])
        ds = xr.Dataset({'z': (('y', 'x'), z), 'polar_stereographic': ((), 0)}, coords=dict(y=ys, x=xs))
        f = os.path.join(obs.scratch, 'asi-AMSR2-%s6250-%s-v5.4.nc' % ('s' if south else 'n', d.replace('-', '')))
        ds.to_netcdf(f)
        files.append(f)
        for i in range(len(ys)):
            for j in range(len(xs)):
                lo, la = P[i][j]
                if not safe(r, la, lo):
                    return
                pts.append((d, la, lo, (z[i, j],)))
    hemi = rng.choice(['South', 'south', 'SOUTH']) if south else rng.choice(['North', 'north'])
    ld = get('amsr', r, dict(files=files, hemisphere=hemi))
    obs.sample = dict(region=r, epsg=epsg, days=days, shape=[len(ys), len(xs)])
    n = match(obs, r, table(ld, ['SIC']), pts, 1, 'amsr')
    obs.check(sorted(ld.files) == sorted(f for f, d in zip(files, days) if gen.START <= d <= gen.END), 'amsr-files', 'the files kept are not those of the time range', files=ld.files)
    obs.state('amsr', south, len(days), min(n, 3))


def iced(case, obs, form='nc'):
    import xarray as xr
    rng = obs.rng
    epsg = rng.choice(['EPSG:3412', 'EPSG:3031', 'EPSG:3411'])
    r = pick_region(rng, PROJ[epsg])
    xs, ys, P = polar_grid(rng, epsg, r)
    b = np.array([[float('nan') if rng.random() < 0.15 else rng.randint(0, 64) / 64 for _ in xs] for _ in ys])
    f = os.path.join(obs.scratch, rng.choice(['iced.', 'v1.2_ice.']) + form)
    if form == 'nc':
        ds = xr.Dataset({'Band1': (('y', 'x'), b), 'polar_stereographic': ((), 0)}, coords=dict(y=ys, x=xs))
        ds.to_netcdf(f)
    else:
        raster(f, epsg, xs, ys, b)
    pts = []
    for i in range(len(ys)):
        for j in range(len(xs)):
            lo, la = P[i][j]
            if not safe(r, la, lo):
                return
            pts.append((None, la, lo, (b[i, j] * 100,)))
    ld = get('visual_iced', r, dict(files=[f], in_proj=epsg, x_col='x', y_col='y', data_name='SIC'))
    obs.sample = dict(region=r, epsg=epsg, shape=[len(ys), len(xs)], form=form)
    n = match(obs, r, table(ld, ['SIC']), pts, 1, 'iced')
    obs.state('iced', form, epsg, min(n, 3))


def raster(f, epsg, xs, ys, b):
    """a north-up GeoTIFF whose pixel centres are the grid points"""
    from osgeo import gdal, osr
    gdal.UseExceptions()
    dx, dy = xs[1] - xs[0], ys[1] - ys[0]
    ds = gdal.GetDriverByName('GTiff').Create(f, len(xs), len(ys), 1, gdal.GDT_Float64)
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(int(epsg.split(':')[1]))
    ds.SetProjection(sr.ExportToWkt())
    ds.SetGeoTransform([xs[0] - dx / 2, dx, 0, ys[0] - dy / 2, 0, dy])
    ds.GetRasterBand(1).WriteArray(b)
    ds.FlushCache()
    ds = None
