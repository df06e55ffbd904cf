"""Workload generators: regions, data sets and configurations.

All edges, sizes and coordinates are dyadic, so that every sum the code or the
oracles form is exact and no verdict rests on rounding."""
import json
import os
import random
from datetime import date, timedelta

import numpy as np
import pandas as pd

from mon import ref

START, END = '2020-01-03', '2020-01-12'
STARTS = ['2020-01-03', '2020-01-03', '2019-12-27', '2020-02-24', '2021-02-22', '2013-05-28', '2017-09-30', '2015-12-31']


def set_dates(seed):
    """the ten days of this case's regions: across the ends of years and months and leap days"""
    global START, END
    START = random.Random('dates%s' % seed).choice(STARTS)
    END = day(9)


BIG = False


def set_size(big):
    """a share of the cases of some checks have many cells, points and files"""
    global BIG
    BIG = big


def cap(depth):
    return min(depth, 1) if BIG else depth


def many(n):
    return n * 8 if BIG else n


def nfiles(rng):
    return rng.choice([3, 11, 12]) if BIG else rng.choice([1, 1, 1, 2, 2, 4])


def day(k):
    return (date.fromisoformat(START) + timedelta(days=k)).isoformat()


SIZES = [0.5, 1, 2, 2.5, 4, 5, 10] * 2 + [0.125, 0.375, 0.03125, 3, 7.5, 20]


def region(rng, kind=None, max_cols=5, max_rows=4, sizes=None):
    """kind: plain, touch_e, touch_w, anti, global, pole, wide"""
    kind = kind or rng.choice(['plain', 'plain', 'touch_e', 'touch_w', 'anti', 'anti', 'global', 'pole'])
    w = rng.choice(sizes or SIZES)
    h = rng.choice(sizes or SIZES)
    nx, ny = rng.randint(1, max_cols), rng.randint(1, max_rows)
    if BIG:
        w, h = rng.choice([0.5, 1, 2, 2.5, 4, 5]), rng.choice([0.5, 1, 2, 2.5, 4, 5])
        nx, ny = rng.randint(9, 16), rng.randint(5, 11)
    if kind == 'global':
        w = rng.choice([120, 90, 72, 60, 45])
        h = rng.choice([5, 10, 15, 20])
        if BIG:
            w = rng.choice([15, 22.5, 30, 36])
            h = rng.choice([2.5, 5, 10])
        nx = int(360 / w)
        ny = rng.randint(5, 7) if BIG else rng.randint(1, min(max_rows, 3))
    if kind == 'wide':     # wider than half the globe, not all of it
        w = rng.choice([40, 50, 60, 64, 80, 100])
        h = rng.choice([5, 10, 15, 20])
        if BIG:
            w = rng.choice([16, 20, 25])
        nx = rng.choice([k for k in range(2, 20) if 180 <= k * w < 360])
        ny = rng.randint(1, min(max_rows, 3))
    lat0 = rng.choice([0, -60, 30, -10, 12.5, -37.25, -ny * h, -ny * h / 2])
    if kind == 'pole':
        lat0 = rng.choice([-90, 90 - ny * h])
    lat0 = max(-90, min(lat0, 90 - ny * h))
    wid = nx * w
    if kind in ('plain', 'pole'):
        lon0 = rng.choice([0, -wid, 10, -95, 33.5, -120.25, -wid / 2])
    elif kind == 'wide':
        lon0 = rng.choice([-wid / 2, -180, 180 - wid, 10, -100, 100, 170 - wid, 60.5, 180 - w, 180 - w / 2, 180 - wid + w / 4])
    elif kind == 'touch_e':
        lon0 = 180 - wid
    elif kind == 'touch_w' or kind == 'global':
        lon0 = -180
    elif kind == 'anti':
        nx = max(nx, 2)
        wid = nx * w
        if rng.random() < 0.5:   # the seam falls on a cell edge
            k = rng.randint(1, nx - 1)
            lon0 = 180 - k * w
        else:                    # the seam cuts a column of cells
            k = rng.randint(0, nx - 1)
            lon0 = 180 - k * w - w * rng.choice([0.25, 0.5, 0.75, 0.5])
    lon1 = lon0 + wid
    if lon1 > 180:
        lon1 -= 360

    if rng.random() < 0.15:      # the antimeridian by its other name
        lon0, lon1 = (180 if lon0 == -180 and lon1 != 180 else lon0), (-180 if lon1 == 180 and lon0 != -180 else lon1)

    def num(x):
        return int(x) if rng.random() < 0.5 and float(x).is_integer() else float(x)
    return dict(lat_min=num(lat0), lat_max=num(lat0 + ny * h), long_min=num(lon0), long_max=num(lon1),
                start_time=START, end_time=END, cell_width=num(w), cell_height=num(h))


# most values are multiples of 1/4, some need every digit, some are tiny or huge
# (numerator, denominator: the results are the nearest numbers to short decimals, which tables hold exactly)
SCALES = [(1, 1)] * 14 + [(3137, 10000), (1, 10 ** 6), (10 ** 6, 1)]


def reg_kind(r):
    if r['long_min'] == -180 and r['long_max'] == 180:
        return 'global'
    return 'anti' if r['long_min'] >= r['long_max'] else 'plain'


def size(r):
    w = ref.width(r['long_min'], r['long_max'])
    return int(round(w / r['cell_width'])), int(round((r['lat_max'] - r['lat_min']) / r['cell_height']))


def sub_region(rng, r):
    """A random small rectangle inside the region, biased to cells and corners,
    as (lat0, lat1, u0, u1) with u the longitude east of the region's west edge"""
    nx, ny = size(r)
    W, H = nx * r['cell_width'], ny * r['cell_height']
    a = rng.choice([2, 4, 8])
    fw, fh = W / (a * rng.choice([1, 2])), H / (a * rng.choice([1, 2]))
    # snapped to a dyadic lattice of the cells
    ux = rng.randint(0, nx * 8) * r['cell_width'] / 8
    uy = rng.randint(0, ny * 8) * r['cell_height'] / 8
    return (r['lat_min'] + uy, min(r['lat_min'] + uy + fh, r['lat_max']), ux, min(ux + fw, W))


def rand_points(rng, r, n, ncomp=1, nan=0.1, on_edge=0.4, outside=0.1, clustered=True, vmax=None, tie_mag=False,
                time=False, hours=False, partial=False):
    """list of dict(lat, long, u, time, v=[..]); values are multiples of 1/4"""
    vmax = vmax or rng.choice([64, 64, 64, 64, 1, 3, 4096])
    scale = rng.choice(SCALES)
    nx, ny = size(r)
    W, H = nx * r['cell_width'], ny * r['cell_height']
    n = many(n)
    pts = []
    cl = [sub_region(rng, r) for _ in range(rng.randint(1, 3))]
    glob = reg_kind(r) == 'global'
    for _ in range(n):
        if rng.random() < on_edge:
            div = rng.choice([1, 2, 4, 8])
            u = rng.randint(0, nx * div) * r['cell_width'] / div
            la = rng.randint(0, ny * div) * r['cell_height'] / div
        else:
            u = rng.randint(0, nx * 64) * r['cell_width'] / 64
            la = rng.randint(0, ny * 64) * r['cell_height'] / 64
        if clustered and rng.random() < 0.5:
            c = rng.choice(cl)
            u = c[2] + (c[3] - c[2]) * rng.randint(0, 16) / 16
            la = c[0] - r['lat_min'] + (c[1] - c[0]) * rng.randint(0, 16) / 16
        lat = r['lat_min'] + la
        if rng.random() < outside:
            lat = max(-90, min(90, r['lat_min'] + rng.choice([-1, 1]) * rng.randint(0, 8) * H / 4))
            if not glob:
                u = rng.choice([-1, 1]) * rng.randint(0, 8) * W / 8
        if glob and u == 0:
            u = 360.0
        lon = ref.wrap_e(r['long_min'] + u)
        v = [rng.randint(-4 * vmax, 4 * vmax) / 4 for _ in range(ncomp)]
        hot = any(ref.lat_in(c[0], c[1], lat) and c[2] < u <= c[3] for c in cl)
        if clustered:
            v = [abs(x) + (vmax if hot else 0) if hot or rng.random() < 0.3 else -abs(x) for x in v]
        v = [x * scale[0] / scale[1] for x in v]
        if rng.random() < nan:
            k = rng.randrange(ncomp) if partial and rng.random() < 0.4 else None
            v = [float('nan') if k is None or i == k else x for i, x in enumerate(v)]
        t = None
        if time:
            k = rng.choice([-3, -1, 0, 0, 1, 2, 4, 6, 8, 9, 9, 10, 14])
            t = day(k)
            if hours and k in (-1, 0, 2, 6, 10):
                t += rng.choice(['', ' 00:00:00', ' 06:00:00', ' 23:59:59'])
        pts.append(dict(lat=float(lat), long=float(lon), time=t, v=v))
    return pts


def write_csv(path, pts, names):
    """a table of points; the columns come in any order, but for components of a vector, which keep theirs"""
    cols = ['lat', 'long'] + (['time'] if pts and pts[0]['time'] is not None else []) + list(names)
    rows = []
    for p in pts:
        v = ['' if x != x else repr(x) for x in p['v']]
        rows.append(dict(zip(cols, [repr(p['lat']), repr(p['long'])] + ([p['time']] if 'time' in cols else []) + v)))
    rng = random.Random(repr((len(pts), pts[:2])))
    if rng.random() < 0.5:
        keys = [(rng.random(), c) for c in cols]
        at = dict(zip(names, sorted(k for k, c in keys if c in names)))
        cols = [c for k, c in sorted((at.get(c, k), c) for k, c in keys)]
    with open(path, 'w') as f:
        f.write(','.join(cols) + '\n')
        for row in rows:
            f.write(','.join(row[c] for c in cols) + '\n')


def rand_grid(rng, r, ncomp=1, nan=0.1, time=False, maxn=None, extend=True, lat_desc=False, partial=False):
    """A regular grid over (and a bit beyond) the region with longitudes in
    -180..180 ascending. -> dict(lats, longs, times or None, vals[comp][t][i][j])"""
    nx, ny = size(r)
    W, H = nx * r['cell_width'], ny * r['cell_height']
    maxn = maxn or (48 if BIG else 20)
    # step that divides cells dyadically so that grid lines fall on cell edges
    sx = r['cell_width'] / rng.choice([1, 2, 4])
    sy = r['cell_height'] / rng.choice([1, 2, 4])
    while W / sx > maxn:
        sx *= 2
    while H / sy > maxn:
        sy *= 2
    ox = rng.choice([0, 0, sx / 2, sx / 4])
    oy = rng.choice([0, 0, sy / 2, sy / 4])
    glob = reg_kind(r) == 'global'
    us = [ox + k * sx for k in range(-1 if extend and not glob else 0, int(W / sx) + 2)]
    las = [r['lat_min'] + oy + k * sy for k in range(-1 if extend else 0, int(H / sy) + 2)]
    las = [x for x in las if -90 <= x <= 90]
    longs = sorted({ref.wrap_e(r['long_min'] + u) for u in us})
    if not glob and W + 3 * sx >= 360:
        longs = sorted({ref.wrap_e(r['long_min'] + u) for u in us if 0 <= u <= W})
    times = None
    if time:
        times = [day(k) + (rng.choice(['', ' 06:00:00', ' 23:00:00']) if k in (-1, 0, 3, 10) else '')
                 for k in sorted(rng.sample([-2, -1, 0, 1, 3, 5, 9, 10, 12], rng.randint(1, 4)))]
    nt = len(times) if times else 1
    nprng = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    shp = (ncomp, nt, len(las), len(longs))
    vals = nprng.randint(-256, 257, size=shp) / 4.0
    # a coherent patch so that some cells are homogeneous and others not
    mode = rng.choice(['noise', 'patch', 'step'])
    if mode == 'patch':
        i0, j0 = rng.randint(0, len(las) - 1), rng.randint(0, len(longs) - 1)
        vals = -np.abs(vals)
        vals[:, :, i0:i0 + rng.randint(1, 6), j0:j0 + rng.randint(1, 6)] += 128
    elif mode == 'step':
        j0 = rng.randint(0, len(longs) - 1)
        vals = -np.abs(vals)
        vals[:, :, :, j0:] = np.abs(vals[:, :, :, j0:])
    scale = rng.choice(SCALES)
    vals = vals * scale[0] / scale[1]
    if nan:
        m = nprng.rand(nt, len(las), len(longs)) < nan
        vals[:, m] = np.nan
        if partial:
            vals[rng.randrange(ncomp), nprng.rand(nt, len(las), len(longs)) < nan / 2] = np.nan
    return dict(lats=[float(x) for x in las], longs=[float(x) for x in longs], times=times, vals=vals)


def grid_points(g):
    out = []
    nc = g['vals'].shape[0]
    for t in range(g['vals'].shape[1]):
        for i, la in enumerate(g['lats']):
            for j, lo in enumerate(g['longs']):
                out.append(dict(lat=la, long=lo, time=g['times'][t] if g['times'] else None,
                                v=[float(g['vals'][c, t, i, j]) for c in range(nc)]))
    return out


def write_grid(path, g, names, latname='lat', lonname='lon', timename='time', extra=None):
    import xarray as xr
    if g['times']:
        dims, coords = (timename, latname, lonname), {timename: pd.to_datetime(g['times'], format='ISO8601'), latname: g['lats'], lonname: g['longs']}
        data = {n: (dims, g['vals'][c]) for c, n in enumerate(names)}
    else:
        dims, coords = (latname, lonname), {latname: g['lats'], lonname: g['longs']}
        data = {n: (dims, g['vals'][c][0]) for c, n in enumerate(names)}
    ds = xr.Dataset(data, coords=coords)
    ds.to_netcdf(path)


class Source:
    """A data source of a workload: how the code is told about it, and its points"""

    def __init__(self, loader, params, names, pts, form, agg, conds=(), fill='parent'):
        self.loader, self.params, self.names, self.pts = loader, params, names, pts
        self.form, self.agg, self.conds, self.fill = form, agg, list(conds), fill

    @property
    def vector(self):
        return len(self.names) > 1

    @property
    def data_name(self):
        return ','.join(self.names)

    def cfg(self):
        return dict(loader=self.loader, params=json.loads(json.dumps(self.params)))


def scalar_cond(rng):
    lo, hi = sorted(rng.sample([0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1], 2))
    c = dict(threshold=rng.choice([0, 0, 0, 16, -16, 0.25]), lower_bound=lo, upper_bound=hi)
    if rng.random() < 0.6:
        c['split_lock'] = rng.random() < 0.5
    return c


def scalar_source(rng, scratch, r, name, conds=None, agg=None, n=None, form=None, time=None, fill=None, nan=None, **kw):
    form = form or rng.choice(['df', 'df', 'xr'])
    agg = agg or rng.choice(['MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT'])
    time = rng.random() < 0.3 if time is None else time
    nan = rng.choice([0, 0.1, 0.3]) if nan is None else nan
    if conds is None:
        conds = [scalar_cond(rng) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    uid = len(os.listdir(scratch))
    params = dict(aggregate_type=anycase(rng, agg))
    if form == 'df':
        pts = rand_points(rng, r, n or rng.choice([0, 1, 6, 20, 60, 150]) or 1, 1, nan=nan, time=time, hours=True, **kw)
        nf = nfiles(rng)
        files = []
        for k in range(nf):
            part = pts[k::nf]
            if not part:
                continue
            f = os.path.join(scratch, 's%d_%d.csv' % (uid, k))
            write_csv(f, part, [name])
            files.append(f)
        if len(files) == 1 and rng.random() < 0.5:
            params['file'] = files[0]
        else:
            params['files'] = files
        loader = 'scalar_csv'
    else:
        g = rand_grid(rng, r, 1, nan=nan, time=time)
        f = os.path.join(scratch, 'g%d.nc' % uid)
        write_grid(f, g, [name])
        pts = grid_points(g)
        params['files'] = [f]
        loader = 'gebco'
    params['data_name'] = name
    if conds:
        params['splitting_conditions'] = [{name: dict(c)} for c in conds]
    if fill is not None:
        params['value_fill_types'] = fill
    return Source(loader, params, [name], pts, form, agg, conds, 'parent' if fill is None else fill)


def vector_cond(rng, form):
    lo, hi = sorted(rng.sample([0, 0.125, 0.25, 0.5, 0.75, 0.875, 1], 2))
    kind = 'dmag' if rng.random() < 0.6 else 'curl'
    c = dict(threshold=rng.choice([0.125, 16.125, 48.0625, 64.3]), lower_bound=lo, upper_bound=hi)
    if rng.random() < 0.5:
        c['split_lock'] = rng.random() < 0.5
    return {kind: c}


def vector_source(rng, scratch, r, names, conds=None, agg=None, n=None, form=None, time=None, fill=None, nan=None, partial=False, **kw):
    form = form or rng.choice(['df', 'df', 'xr'])
    agg = agg or rng.choice(['MIN', 'MAX', 'MEAN', 'MEAN', 'STD', 'COUNT'])
    nan = rng.choice([0, 0.1, 0.3]) if nan is None else nan
    conds = conds or []
    uid = len(os.listdir(scratch))
    params = dict(aggregate_type=anycase(rng, agg))
    if form == 'df':
        time = rng.random() < 0.3 if time is None else time
        pts = rand_points(rng, r, n or rng.choice([1, 6, 20, 60, 120]), 2, nan=nan, time=time, hours=True, partial=partial, **kw)
        nf = nfiles(rng)
        files = []
        # the columns have names of their own, which the data name replaces in their order
        cols = rng.choice([names] * 4 + [['v', 'u'], ['zonal', 'meridional'], ['Y2', 'X1'], list(names)[::-1]])
        for k in range(nf):
            part = pts[k::nf]
            if not part:
                continue
            f = os.path.join(scratch, 'v%d_%d.csv' % (uid, k))
            write_csv(f, part, cols)
            files.append(f)
        params['files'] = files
        loader = 'vector_csv'
        params['data_name'] = ','.join(names)
    else:
        g = rand_grid(rng, r, 2, nan=nan, time=True, partial=partial)
        f = os.path.join(scratch, 'vg%d.nc' % uid)
        write_grid(f, g, ['U', 'V'], timename='times')
        pts = grid_points(g)
        params['files'] = [f]
        loader = 'northsea_currents'
        names = ['uC', 'vC']
    if conds:
        params['splitting_conditions'] = [{','.join(names): json.loads(json.dumps(c))} for c in conds]
    if fill is not None:
        params['value_fill_types'] = fill
    return Source(loader, params, list(names), pts, form, agg, conds, 'parent' if fill is None else fill)


def config(r, sources, depth, min_dp):
    depth = cap(depth)
    return dict(region=dict(r), data_sources=[s.cfg() for s in sources],
                splitting=dict(split_depth=depth, minimum_datapoints=min_dp))


def build(cfg):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    return MeshBuilder(cfg).build_environmental_mesh()


def anycase(rng, agg):
    """aggregate types may be given in upper or lower case"""
    return agg.lower() if rng.random() < 0.15 else agg


def deep_source(rng, scratch, r, name='q0'):
    """pairs of points of opposite sign close together, around lattice points of the cells"""
    nx, ny = size(r)
    pts = []
    for _ in range(rng.randint(1, 3)):
        div = rng.choice([1, 1, 2, 4])
        u = rng.randint(0, nx * div) * r['cell_width'] / div
        la = rng.randint(0, ny * div) * r['cell_height'] / div
        sides = rng.sample([(1, 1), (1, -1), (-1, 1), (-1, -1)], rng.randint(1, 3))
        for sx, sy in sides:
            for k, v in ((1, 8.0), (2, -8.0)):
                x, y = u + sx * k * r['cell_width'] / 512, la + sy * k * r['cell_height'] / 512
                if 0 < y < ny * r['cell_height'] and (0 < x < nx * r['cell_width'] or nx * r['cell_width'] == 360):
                    pts.append(dict(lat=float(r['lat_min'] + y), long=float(ref.wrap_e(r['long_min'] + x)), time=None, v=[v]))
    if not pts:
        pts.append(dict(lat=float(r['lat_min'] + r['cell_height'] / 4), long=float(ref.wrap_e(r['long_min'] + r['cell_width'] / 4)), time=None, v=[1.0]))
    f = os.path.join(scratch, 'deep%d.csv' % len(os.listdir(scratch)))
    write_csv(f, pts, [name])
    agg = rng.choice(['MIN', 'MAX', 'MEAN', 'COUNT'])
    conds = [dict(threshold=0, lower_bound=0, upper_bound=1)]
    params = dict(aggregate_type=agg, files=[f], data_name=name, splitting_conditions=[{name: dict(conds[0])}])
    return Source('scalar_csv', params, [name], pts, 'df', agg, conds, 'parent')


def refining_workload(rng, scratch, kind=None, max_cells=60, depth=None, nsrc=None, max_cols=5, max_rows=4, nan=None):
    """Region + one or two cheap sources chosen so that meshes refine unevenly"""
    if depth is None and rng.random() < 0.06 and not BIG:      # a few points, followed very deep
        r = region(rng, kind, max_cols=2, max_rows=2)
        return r, [deep_source(rng, scratch, r)], rng.choice([4, 5, 6]), rng.choice([0, 1, 2])
    r = region(rng, kind, max_cols=max_cols, max_rows=max_rows)
    depth = rng.choice([0, 1, 2, 2, 3, 3]) if depth is None else depth
    depth = cap(depth)
    nsrc = nsrc or rng.choice([1, 1, 2, 3])
    srcs = []
    for k in range(nsrc):
        conds = [dict(threshold=0, lower_bound=rng.choice([0, 0.125]), upper_bound=rng.choice([1, 0.875]),
                      split_lock=rng.random() < 0.2)]
        srcs.append(scalar_source(rng, scratch, r, 'q%d' % k, conds=conds, n=rng.choice([12, 30, 60, 120]),
                                  time=False, nan=nan))
    return r, srcs, depth, rng.choice([0, 1, 2, 5])


_LOADED = {}


def mesh_json(rng, scratch, **kw):
    """Build a refined mesh and give its JSON document"""
    r, srcs, depth, mindp = refining_workload(rng, scratch, **kw)
    cfg = config(r, srcs, depth, mindp)
    m = build(cfg)
    return r, srcs, depth, json.loads(json.dumps(m.to_json()))


def load(doc):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    return EnvironmentMesh.load_from_json(json.loads(json.dumps(doc)))


def dress(rng, doc, obs=None):
    """Give a mesh document attributes of every JSON kind and awkward names, and
    perhaps another order of its cells."""
    if rng.random() < 0.5:
        names = rng.sample(['land', 'idx', 'cxx', 'dcz', 'geo', 'Id', 'speed', 'sea_ice', 'id_source', 'cy2', 'geometry_note'], rng.randint(1, 4))
        for c in doc['cellboxes']:
            for n in names:
                c[n] = rng.choice([True, False, 0, 3, 2.5, 'text', [1.0, 2.5], float('nan'), float('inf')])
        if obs is not None:
            obs.count('dressed')
    if rng.random() < 0.4:
        rng.shuffle(doc['cellboxes'])
        if obs is not None:
            obs.count('shuffled')
    if rng.random() < 0.3:
        relabel(doc, rng.choice([7, 990, 4321, 10 ** 6]))
        if obs is not None:
            obs.count('large_ids')
    return doc


def relabel(doc, by):
    """the same mesh with every id larger, as merging leaves them"""
    for c in doc['cellboxes']:
        c['id'] = str(int(c['id']) + by)
    doc['neighbour_graph'] = {str(int(k) + by): {d: [x + by for x in v] for d, v in n.items()} for k, n in doc['neighbour_graph'].items()}
