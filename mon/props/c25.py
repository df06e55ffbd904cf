"""Cases: (files) each file-reading product with its data given as a list of
files, as a folder (with and without the closing slash) and, when it is one
file, as a file, the name in random letter case; (name) the same with the data
renamed; (folder) tables under any file names, with and
without extension, in one folder; (made) the random field, shape and polygon loaders from their required
parameters alone; (refuse) unknown names and each required parameter left out;
(columns) tables with too many, too few or misnamed columns.
Non-trivial when a loader was made or refused. Monitor: class, name, defaults
and data of the loader made, point by point."""
import os
import shutil

import pandas as pd

from mon import core, gen, native, ref
from mon.props import c20, c26, _lut

KINDS = [('files:' + k, 1) for k in sorted(native.MAKERS)] + [('name', 6), ('folder', 3), ('made', 8), ('refuse', 6), ('columns', 5)]
BIG = 75      # one case in so many has many cells, points and files
MIN_OBS = dict({'big_cases': 2, 'single_file': 30, 'folder': 100, 'renamed': 20, 'renamed_vector': 6, 'made': 40, 'unknown': 7, 'missing_param': 20, 'odd_names': 12, 'bad_tables': 12, 'good_tables': 6, 'defaults': 100},
               **{'loader_' + k: 2 for k in native.MAKERS})
ASSUMPTIONS = ['the folder of a product holds only files of that product']

VEC = {'vector_csv', 'era5_wind', 'era5_wave_direction', 'baltic_currents', 'northsea_currents', 'oras5_currents', 'sose', 'duacs_currents', 'vector_grf', 'vector_circle', 'vector_gradient', 'vector_rectangle'}
REQUIRED = dict({k: ['files'] for k in native.MAKERS}, amsr=['files', 'hemisphere'], visual_iced=['files'], scalar_grf=['binary'], binary_grf=['binary'],
                scotland_ncmpa=['files'], lut_csv=['files'], lut_geojson=['files', 'value'], lut_shapefile=['files', 'value'])


def cases(tier, seed):
    return core.mkcases('C25', KINDS, tier, seed, 680, 5600)


def case_of(rng, s):
    m = rng.randrange(4)
    return s if m == 0 else s.upper() if m == 1 else s.title() if m == 2 else ''.join(c.upper() if rng.random() < 0.5 else c for c in s)


def make(name, r, params, min_dp=None):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    if min_dp is None:
        return DataLoaderFactory.get_dataloader(name, c20.bounds(r), params)
    return DataLoaderFactory.get_dataloader(name, c20.bounds(r), params, min_dp)


def kind_of(name):
    from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
    from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
    if name in VEC:
        return VectorDataLoader
    return LutDataLoader if name in ('thickness', 'density', 'scotland_ncmpa', 'lut_csv', 'lut_geojson', 'lut_shapefile') else ScalarDataLoader


def common(obs, ld, name, given, min_dp, lut=False):
    obs.count('loader_' + name)
    obs.check(isinstance(ld, kind_of(name)), 'class', 'the loader made for %s is a %s' % (name, type(ld).__name__))
    obs.check(ld.dataloader_name == name, 'dataloader-name', 'the loader made for %s calls itself %s' % (name, ld.dataloader_name))
    want = dict(aggregate_type='MEAN', min_dp=min_dp)
    if not lut:
        want.update(downsample_factors=[1, 1], in_proj='EPSG:4326', out_proj='EPSG:4326')
    for k, v in dict(want, **given).items():
        obs.count('defaults')
        x = getattr(ld, k, None)
        obs.check((list(x) if isinstance(x, (list, tuple)) else x) == v, 'param-' + k, '%s of the loader is %s, expected %s' % (k, x, v))


def run_case(case, obs):
    k = case['kind']
    if k.startswith('files:'):
        files(case, obs, k[6:])
    elif k == 'name':
        renamed(case, obs)
    elif k == 'folder':
        folder(case, obs)
    elif k == 'columns':
        columns(case, obs)
    elif k == 'made':
        made(case, obs)
    else:
        refuse(case, obs)


def product(obs, name):
    rng = obs.rng
    r = gen.region(rng, rng.choice(['plain', 'touch_e', 'anti', 'pole']), max_cols=3, max_rows=3)
    for i in range(20):
        d = os.path.join(obs.scratch, 'data%d' % i)
        os.makedirs(d)
        nat = native.MAKERS[name](rng, r, d)
        if nat.files and native.expected(nat, r)[0]:
            return r, nat, os.path.dirname(nat.files[0])
    return None


def files(case, obs, name):
    rng = obs.rng
    got = product(obs, name)
    if not got:
        return
    r, nat, d = got
    ways = [('files', dict(files=list(nat.files)))]
    ways += [('folder', dict(folder=d if rng.random() < 0.5 else d + '/'))]
    if len(nat.files) == 1:
        ways += [('file', dict(file=nat.files[0]))]
    given = {}
    if rng.random() < 0.4:
        given['aggregate_type'] = rng.choice(['MIN', 'MAX', 'MEAN'])
    obs.sample = dict(loader=name, region=r, files=len(nat.files))
    for how, p in ways:
        md = rng.choice([None, 1, 3, 17])
        nm = case_of(rng, name)
        ld = make(nm, r, dict(p, **nat.params, **given), md)
        n = c26.compare(obs, nat, r, ld, nat.cols, how)
        obs.count('single_file', how == 'file')
        obs.count('folder', how == 'folder')
        common(obs, ld, name, dict(nat.params, **given), 5 if md is None else md)
        if how == 'folder' and len(ld.files) == len(nat.files) and name != 'ecmwf_sig_wave_height':
            obs.check(list(ld.files) == sorted(nat.files), 'folder-order', 'the files of a folder are not taken in sorted order', files=ld.files)
    obs.state(name, min(len(nat.files), 3), gen.reg_kind(r))
    obs.nontrivial = n > 0


def folder(case, obs):
    """every file of a folder counts, whatever it is called"""
    rng = obs.rng
    r = gen.region(rng, 'plain', max_cols=3, max_rows=3)
    vec = rng.random() < 0.5
    d = os.path.join(obs.scratch, rng.choice(['data', 'my data', 'data.csv', 'd.2020', 'nested/deeper']))
    os.makedirs(d)
    names = rng.sample(['a', 'b.csv', 'part1', 'part2.CSV', 'Zone', 'x y.csv', 'x.y.z', '10', '9.csv', '2020-01', 'data.txt', '_q', 'a.csv'], rng.randint(1, 5))
    pts = []
    for k in names:
        p = gen.rand_points(rng, r, rng.randint(2, 8), 2 if vec else 1, nan=0, outside=0, time=False)
        gen.write_csv(os.path.join(d, k), p, ['uu', 'vv'] if vec else ['q'])
        pts += p
    c = ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max']))
    n = len(ref.select(pts, c, r['long_min'], gen.START, gen.END))
    obs.sample = dict(files=names, points=n)
    if not n:
        return
    obs.nontrivial = True
    obs.count('odd_names', any('.' not in k for k in names))
    obs.state('folder', vec, len(names))
    ld = make('vector_csv' if vec else 'scalar_csv', r, dict(folder=d if rng.random() < 0.5 else d + '/', data_name='uu,vv' if vec else 'q'))
    v = ld.get_value(c20.bounds(r), agg_type='COUNT')
    obs.check([x for x in v.values()] == [n] * len(v), 'folder-count', 'the files %s hold %d points in the region, the loader has %s' % (names, n, v))
    obs.check([os.path.basename(f) for f in ld.files] == sorted(names), 'folder-order', 'files of the folder are %s, it holds %s' % (ld.files, sorted(names)))


def columns(case, obs):
    """a table without the right columns is refused, and never read as something else"""
    rng = obs.rng
    r = gen.region(rng, 'plain', max_cols=3, max_rows=3)
    kind = ['scalar_csv', 'vector_csv', 'lut_csv'][case['i'] % 3]
    need = {'scalar_csv': ['lat', 'long', 'q'], 'vector_csv': ['lat', 'long', 'uu', 'vv'], 'lut_csv': ['geometry', 'zone']}[kind]
    time = kind != 'lut_csv' and rng.random() < 0.3
    m = rng.choice(['good', 'good', 'extra', 'less', 'misnamed'] + (['names'] if kind == 'vector_csv' else []))
    cols = list(need)
    if m == 'extra':
        cols.append(rng.choice(['other', 'depth', 'q2', 'Lat', '_x']))
    elif m == 'less':
        cols.remove(rng.choice(cols[:2] + cols[-1:]))
    elif m == 'misnamed':
        k = rng.randrange(1 if kind == 'lut_csv' else 2)
        cols[k] = {'lat': rng.choice(['latitude', 'Lat', 'y']), 'long': rng.choice(['lon', 'longitude', 'LONG']), 'geometry': rng.choice(['geom', 'Geometry', 'polygon'])}[cols[k]]
    n = rng.randint(2, 6)
    row = lambda c: _lut.rand_poly(rng, r).wkt if c.lower().startswith('geom') or c == 'polygon' else gen.day(1) if c == 'time' else \
        r['lat_min'] + r['cell_height'] / 2 if c in ('lat', 'Lat', 'latitude', 'y') else r['long_min'] + r['cell_width'] / 2 if c.lower().startswith('lon') else round(rng.uniform(-9, 9), 2)
    if time:
        cols.append('time')
    keep = [c for c in cols if c in ('uu', 'vv')]
    rng.shuffle(cols)
    at = sorted(cols.index(c) for c in keep)
    for i, c in zip(at, keep):
        cols[i] = c
    f = os.path.join(obs.scratch, 't.csv')
    pd.DataFrame([{c: row(c) for c in cols} for _ in range(n)])[cols].to_csv(f, index=False)
    p = dict(files=[f])
    if m == 'names':
        p['data_name'] = rng.choice(['x', 'x,y,z'])
    elif rng.random() < 0.5:
        p['data_name'] = {'scalar_csv': 'new', 'vector_csv': 'x,y', 'lut_csv': 'new'}[kind]
    obs.sample = dict(loader=kind, columns=cols, names=p.get('data_name'))
    obs.state('columns', kind, m, time)
    obs.nontrivial = True
    if m == 'good':
        ld = make(kind, r, dict(p))
        want = p.get('data_name', ','.join(c for c in need if c not in ('lat', 'long', 'geometry')))
        obs.check(ld.data_name == want, 'data-name', 'the data of a table with columns %s is named %s, expected %s' % (cols, ld.data_name, want))
        if kind != 'lut_csv':
            obs.check(len(ld.data) == n, 'table-count', 'a table of %d points gives %d' % (n, len(ld.data)))
        obs.count('good_tables')
    else:
        with obs.expect_raise('table', '%s accepts a table with the columns %s (names %s)' % (kind, cols, p.get('data_name')), Exception):
            make(kind, r, dict(p))
        obs.count('bad_tables')


def renamed(case, obs):
    rng = obs.rng
    name = rng.choice(sorted(native.MAKERS))
    got = product(obs, name)
    if not got:
        return
    r, nat, d = got
    cols = ['new name', 'vNew'][:len(nat.cols)] if rng.random() < 0.5 else ['q'] if len(nat.cols) == 1 else ['x1', 'y1']
    ld = make(name, r, dict(files=list(nat.files), data_name=','.join(cols), **nat.params))
    order = [x.strip() for x in ld.data_name.split(',')]
    obs.check(order == cols, 'data-name', 'the data is named %s, asked for %s' % (ld.data_name, cols))
    # the first name goes to the first component of the product, and so on
    n = c26.compare(obs, nat, r, ld, cols, 'renamed')
    agg = 'MAX' if len(cols) == 1 else 'MEAN'
    v = ld.get_value(c20.bounds(r), agg_type=agg)
    obs.check(list(v) == cols, 'value-name', 'values are given under %s, asked for %s' % (list(v), cols))
    obs.count('renamed')
    obs.count('renamed_vector', len(cols) == 2)
    obs.state('renamed', name)
    obs.nontrivial = n > 0
    obs.sample = dict(loader=name, data_name=cols)


def polygons(obs, r, fmt):
    import geopandas as gpd
    rng = obs.rng
    ps = [_lut.rand_poly(rng, r) for _ in range(rng.randint(1, 3))]
    d = os.path.join(obs.scratch, 'lut')
    os.makedirs(d)
    if fmt == 'csv':
        f = os.path.join(d, 'a.csv')
        pd.DataFrame(dict(geometry=[p.wkt for p in ps], zone=[float(i) for i in range(len(ps))])).to_csv(f, index=False)
        return [f], d
    g = gpd.GeoDataFrame(dict(n=list(range(len(ps)))), geometry=ps, crs='EPSG:4326')
    f = os.path.join(d, 'a.geojson' if fmt == 'geojson' else 'a.shp')
    g.to_file(f, driver='GeoJSON' if fmt == 'geojson' else 'ESRI Shapefile')
    return [f], d


def made(case, obs):
    rng = obs.rng
    r = gen.region(rng, 'plain', max_cols=3, max_rows=3)
    name = ['scalar_grf', 'binary_grf', 'vector_grf', 'circle', 'rectangle', 'gradient', 'checkerboard', 'vector_circle', 'vector_rectangle', 'vector_gradient',
            'thickness', 'density', 'lut_csv', 'lut_geojson', 'lut_shapefile', 'scotland_ncmpa'][case['i'] % 16]
    p, want = {}, None
    if name.startswith('lut') or name == 'scotland_ncmpa':
        fs, d = polygons(obs, r, 'csv' if name == 'lut_csv' else 'shapefile' if name == 'lut_shapefile' else 'geojson')
        how = rng.choice(['file', 'files'] + (['folder'] if name != 'lut_shapefile' else []))
        p = dict(file=fs[0]) if how == 'file' else dict(files=fs) if how == 'files' else dict(folder=d)
        want = {'lut_csv': 'zone', 'scotland_ncmpa': 'exclusion_zone'}.get(name, 'dummy_data')
        if name in ('lut_geojson', 'lut_shapefile'):
            p['value'] = rng.choice([True, 7, 2.5])
    elif name.endswith('grf'):
        p = dict(size=rng.choice([16, 32, 65]), seed=3)
        if name != 'vector_grf':
            p['binary'] = name == 'binary_grf'
        want = {'scalar_grf': 'scalar_data', 'binary_grf': 'binary_data', 'vector_grf': 'uC,vC'}[name]
    elif name in ('thickness', 'density'):
        want = name
    md = rng.choice([None, 2])
    new = None
    if rng.random() < 0.4:
        new = 'u2,v2' if name in VEC else 'other'
        p['data_name'] = new
    if rng.random() < 0.3 and name != 'scotland_ncmpa':
        p['aggregate_type'] = 'MAX'
    try:
        ld = make(case_of(rng, name), r, dict(p), md)
    except ValueError as e:
        # polygons may all lie outside the region
        if name.startswith('lut') and 'no data' in str(e):
            return
        raise
    given = {k: v for k, v in p.items() if k in ('seed', 'size', 'value', 'binary', 'aggregate_type')}
    lut = kind_of(name).__name__ == 'LutDataLoader'
    if lut:
        obs.count('made')
        obs.check(ld.dataloader_name == name, 'dataloader-name', 'the loader made for %s calls itself %s' % (name, ld.dataloader_name))
        obs.check(isinstance(ld, kind_of(name)), 'class', 'the loader made for %s is a %s' % (name, type(ld).__name__))
        obs.check(ld.aggregate_type == p.get('aggregate_type', 'MEAN'), 'param-aggregate_type', 'aggregate is %s' % ld.aggregate_type)
    else:
        obs.count('made')
        common(obs, ld, name, given, 5 if md is None else md)
    if new or want:
        obs.check(ld.data_name == (new or want), 'data-name', '%s: the data is named %s, expected %s' % (name, ld.data_name, new or want))
        for c in ld.data_name.split(','):
            obs.check(c in ld.data, 'column', '%s: the data has no column %s' % (name, c), have=[str(x) for x in ld.data])
    if not lut:
        d = ld.data
        n = len(d) if isinstance(d, pd.DataFrame) else d.sizes['lat'] * d.sizes['long']
        obs.check(n > 0, 'empty', '%s has no data in its region' % name)
    obs.state('made', name, bool(new))
    obs.nontrivial = True
    obs.sample = dict(loader=name, params={k: str(v)[-30:] for k, v in p.items()})


def refuse(case, obs):
    rng = obs.rng
    r = gen.region(rng, 'plain', max_cols=3, max_rows=3)
    if rng.random() < 0.4:
        nm = rng.choice(['scalar', '', 'csv', 'scalar_csv ', 'gebco2', 'square', 'scalar-csv', 'lut', 'era5', 'myDataLoader', 'amsr2', 'vector_checkerboard', ' gebco'])
        nm = case_of(rng, nm)
        with obs.expect_raise('unknown', 'the unknown loader %r is not refused' % nm, ValueError):
            make(nm, r, dict(files=['x.csv']))
        obs.count('unknown')
    else:
        name = sorted(REQUIRED)[(case['i'] * 7 + rng.randrange(3)) % len(REQUIRED)]
        full = dict(files=['/nonexistent'], hemisphere='south', binary=True, value=1)
        gone = rng.choice(REQUIRED[name])
        p = {k: full[k] for k in REQUIRED[name] if k != gone}
        if rng.random() < 0.5:
            p['data_name'] = 'z'
        with obs.expect_raise('missing', '%s without %s is not refused' % (name, gone), AssertionError):
            make(case_of(rng, name), r, p)
        obs.count('missing_param')
        obs.state('missing', name, gone)
    obs.nontrivial = True
