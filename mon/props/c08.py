"""Cases: (direct) user-defined look-up sources of random rectangles, triangles,
holed and multi-part polygons, dated or not, asked for random boundaries and
every statistic; (csv/geojson/shp/ncmpa) the file loaders, through a whole mesh;
(refuse) non-polygon geometry; (season) the built-in ice thickness and density
tables over every region and date ranges spanning seasons. Non-trivial when some polygon meets
the boundary. Monitor: statistics recomputed from the raw polygons with overlap
areas."""
import json
import os

from mon import core, gen, ref
from mon.props import _lut

KINDS = [('direct:plain', 3), ('direct:anti', 2), ('direct:touch_e', 1), ('direct:global', 1), ('dated:plain', 1.5), ('dated:anti', .5),
         ('csv:plain', 1.5), ('csv:anti', 1), ('geojson:plain', 1), ('shp:plain', .7), ('shp:anti', .3), ('ncmpa:plain', .7), ('refuse:plain', .5), ('season:plain', 2)]
AGGS = ['MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT']
MIN_OBS = dict({'values': 2000, 'values_with_data': 800, 'multi_polygons': 400, 'unequal_weights': 200, 'season_values': 200, 'season_multi': 20, 'two_files': 12, 'value_first': 20, 'leave_missing': 60},
               **{'agg_' + a: 100 for a in AGGS})
ASSUMPTIONS = ['a missing value among the polygons with positive overlap makes the cell value missing (skipna defaults to False)',
               'overlap areas are computed with shapely, as in the code']


def cases(tier, seed):
    return core.mkcases('C08', KINDS, tier, seed, 2400, 10000)


def judge(obs, got, sel, cp, agg, where):
    want = _lut.expect(sel, cp, agg)
    obs.count('values')
    obs.count('agg_' + agg)
    obs.count('values_with_data', bool(sel))
    obs.count('multi_polygons', len(sel) > 1)
    if want is None:
        obs.count('undecided')
        return
    if len(sel) > 1 and agg in ('MEAN', 'STD', 'MEDIAN'):
        ws = {round(x['poly'].intersection(cp).area, 6) for x in sel}
        obs.count('unequal_weights', len(ws) > 1)
    try:
        g = float(got)
        good = any(ref.close(g, w) for w in want)
    except (TypeError, ValueError):
        good = False
    obs.check(good, 'value:' + agg, '%s over %s is %r, should be %r' % (agg, where, got, want),
              polygons=[(x['poly'].wkt, x['v'], x['t']) for x in sel][:8])


def shares(rng, rws):
    """the polygons, in one or more files"""
    k = min(len(rws), rng.choice([1, 1, 2, 3, 4]))
    at = [0] + sorted(rng.sample(range(1, len(rws)), k - 1)) + [len(rws)]
    return [rws[a:b] for a, b in zip(at, at[1:])]


def run_case(case, obs):
    mode, kind = case['kind'].split(':')
    rng = obs.rng
    if mode == 'season':
        return season(case, obs)
    r = gen.region(rng, kind, max_cols=3, max_rows=3)
    west = r['long_min']
    if mode == 'refuse':
        from shapely.geometry import LineString, Point
        rws = _lut.rows(rng, r, 3, nan=0)
        rws.insert(rng.randint(0, 3), dict(poly=rng.choice([Point(r['long_min'], r['lat_min']), LineString([(0, 0), (1, 1)])]), v=1.0, t=None))
        whole = ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max']))
        obs.nontrivial = True
        with obs.expect_raise('nonpolygon', 'non-polygon geometry was accepted', ValueError):
            _lut.make_loader(_lut.boundary(whole, west, (gen.START, gen.END)), rws)
        return
    dated = mode == 'dated'
    for _ in range(20):
        rws = _lut.rows(rng, r, rng.choice([1, 2, 4, 8]), nan=rng.choice([0, 0, 0.2]), dated=dated)
        if _lut.covered([x for x in rws if not dated or gen.START <= x['t'] <= gen.END], r):
            break
    else:
        return
    whole = ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max']))
    bnd = _lut.boundary(whole, west, (gen.START, gen.END))
    obs.sample = dict(region=r, mode=mode, polygons=[x['poly'].wkt for x in rws][:3])
    if mode in ('direct', 'dated'):
        rename = rng.random() < 0.3
        loader = _lut.make_loader(bnd, rws, params=dict(data_name='renamed') if rename else {}, dated=dated)
        name = 'renamed' if rename else 'lutv'
        allp = _lut.parts(rws)
        for _ in range(10):
            c = _lut.rand_cell(rng, r)
            cp = _lut.cell_poly(c, west)
            t = (gen.START, gen.END)
            if dated and rng.random() < 0.6:
                t = tuple(sorted(rng.sample([gen.day(k) for k in (0, 1, 2, 6, 9)], 2)))
            sel = [x for x in allp if x['poly'].intersects(cp) and (not dated or t[0] <= x['t'] <= t[1])]
            obs.state(c.rect, len(sel))
            for agg in rng.sample(AGGS, 3):
                got = loader.get_value(_lut.boundary(c, west, t), agg_type=gen.anycase(obs.rng, agg))
                obs.check(list(got) == [name], 'name', 'value is stored under %s, not %s' % (list(got), name))
                judge(obs, list(got.values())[0], sel, cp, agg, repr(c))
                if agg != 'COUNT' and rng.random() < 0.3:     # told to leave missing values out
                    got = loader.get_value(_lut.boundary(c, west, t), agg_type=gen.anycase(obs.rng, agg), skipna=True)
                    obs.count('leave_missing', any(ref.isnan(x['v']) for x in sel))
                    judge(obs, list(got.values())[0], [x for x in sel if not ref.isnan(x['v'])], cp, agg, repr(c) + ' leaving out missing values')
        return
    # file loaders through a mesh: values outside all polygons are missing
    from shapely.geometry import box, mapping
    from shapely.ops import unary_union
    agg = rng.choice(AGGS)
    alt = float('nan')
    drv = gen.scalar_source(rng, obs.scratch, r, 'drv', n=30, time=False, nan=0, conds=[dict(threshold=0, lower_bound=0, upper_bound=1)])
    if mode == 'csv':
        flip = rng.random() < 0.4                              # the two columns come in either order
        obs.count('value_first', flip)
        files = []
        for k, part in enumerate(shares(rng, rws)):
            f = os.path.join(obs.scratch, 'lut%d.csv' % k)
            with open(f, 'w') as fh:
                fh.write('lutv,geometry\n' if flip else 'geometry,lutv\n')
                for x in part:
                    row = ['"%s"' % x['poly'].wkt, '' if ref.isnan(x['v']) else repr(x['v'])]
                    fh.write(','.join(row[::-1] if flip else row) + '\n')
            files.append(f)
        obs.count('two_files', len(files) > 1)
        src = dict(loader='lut_csv', params=dict(files=files, aggregate_type=gen.anycase(rng, agg), value_fill_types='Nan'))
        name = 'lutv'
    elif mode in ('shp', 'ncmpa'):
        import geopandas as gpd
        files = []
        rws = _lut.parts(rws) if mode == 'shp' else rws
        for k, part in enumerate(shares(rng, rws)):
            f = os.path.join(obs.scratch, 'zones%d.%s' % (k, 'shp' if mode == 'shp' else 'geojson'))
            gpd.GeoDataFrame(dict(nr=list(range(len(part)))), geometry=[x['poly'] for x in part], crs='EPSG:4326').to_file(f)
            files.append(f)
        obs.count('two_files', len(files) > 1)
        val = True if mode == 'ncmpa' else rng.choice([2.5, 7, True, False])
        alt = float(not val) if isinstance(val, bool) else float('nan')
        for x in rws:
            x['v'] = float(val)
        name = 'exclusion_zone' if mode == 'ncmpa' else 'zone'
        if isinstance(val, bool):
            agg = rng.choice(['MIN', 'MAX', 'COUNT', 'MEAN'])
        src = dict(loader='scotland_ncmpa' if mode == 'ncmpa' else 'lut_shapefile', params=dict(files=files, aggregate_type=gen.anycase(rng, agg), value_fill_types='Nan'))
        if mode == 'shp':
            src['params'].update(value=val, data_name=name)
    else:
        val = rng.choice([2.5, 7, -1.0, 1, 0, True, False])
        alt = float(not val) if isinstance(val, bool) else float('nan')
        if isinstance(val, bool):
            agg = rng.choice(['MIN', 'MAX', 'COUNT', 'MEAN'])
        for x in rws:
            x['v'] = float(val)
        files = []
        for k, part in enumerate(shares(rng, rws)):
            files.append(os.path.join(obs.scratch, 'lut%d.geojson' % k))
            json.dump(dict(type='FeatureCollection', features=[dict(type='Feature', properties=dict(a=1), geometry=mapping(x['poly'])) for x in part]), open(files[-1], 'w'))
        obs.count('two_files', len(files) > 1)
        name = 'zone'
        src = dict(loader='lut_geojson', params=dict(files=files, value=val, data_name=name, aggregate_type=gen.anycase(rng, agg), value_fill_types='Nan'))
    comp = box(-180, -90, 180, 90) - unary_union([x['poly'] for x in rws])
    allp = _lut.parts(rws + ([dict(poly=comp, v=alt, t=None)] if not comp.is_empty else []))
    cfg = gen.config(r, [drv], rng.choice([0, 1, 2]), 1)
    cfg['data_sources'].append(src)
    doc = json.loads(json.dumps(gen.build(cfg).to_json()))
    for c in ref.parse_cells(doc, west):
        cp = _lut.cell_poly(c, west)
        sel = [x for x in allp if x['poly'].intersects(cp)]
        obs.state(c.rect, len(sel))
        judge(obs, c.raw.get(name), sel, cp, agg, '%s %r' % (mode, c))


DENS = dict(su=875.0, sp=900.0, au=900.0, wi=920.0)
NORTH = {1: 'wi', 2: 'wi', 12: 'wi', 3: 'sp', 4: 'sp', 5: 'sp', 6: 'su', 7: 'su', 8: 'su', 9: 'au', 10: 'au', 11: 'au'}
OPP = dict(su='wi', wi='su', sp='au', au='sp')
ROSS = dict(wi=0.72, sp=0.67, su=1.32, au=0.82)
# (west, east, south, north, northern hemisphere, thickness by season): Worby et al., the Baltic, and the default
THICK = [(-180, -130, -90, 0, False, ROSS),
         (-130, -60, -90, 0, False, dict(wi=0.65, sp=0.79, su=2.14, au=0.79)),
         (-60, -45, -90, 0, False, dict(wi=1.33, sp=1.33, su=1.20, au=1.38)),
         (-45, 20, -90, 0, False, dict(wi=0.54, sp=0.89, su=0.87, au=0.44)),
         (20, 90, -90, 0, False, dict(wi=0.59, sp=0.78, su=1.05, au=0.45)),
         (90, 160, -90, 0, False, dict(wi=0.72, sp=0.68, su=1.17, au=0.75)),
         (160, 180, -90, 0, False, ROSS),
         (12, 32, 54, 66, True, dict(wi=0.3, sp=0.3, su=0.3, au=0.3))]


def table_rows(loader):
    from shapely.geometry import box
    if loader == 'density':
        return [(box(-180, 0, 180, 90), True, DENS), (box(-180, -90, 180, 0), False, DENS)]
    return [(box(w, s, e, n), nh, t) for w, e, s, n, nh, t in THICK] + [(box(-180, 0, 180, 90) - box(12, 54, 32, 66), True, ROSS)]


def season(case, obs):
    """the built-in tables: each day and place has the published value of its region and season"""
    from datetime import date, timedelta
    from meshiphi.dataloaders.factory import DataLoaderFactory
    rng = obs.rng
    d0 = date(2019, 1, 1) + timedelta(days=rng.randint(0, 700))
    d1 = d0 + timedelta(days=rng.choice([0, 1, 10, 30, 45, 90]))
    if rng.random() < 0.3:      # a change of month, with few days
        d0 = date(2020, rng.randint(2, 12), 1) - timedelta(days=1)
        d1 = d0 + timedelta(days=1)
    # edges on halves, so that none of them lies on the edge of a region of the tables
    w = rng.choice([-179.5, -140.5, -64.5, -50.5, -20.5, 5.5, 10.5, 18.5, 28.5, 60.5, 85.5, 120.5, 150.5, 158.5, 165.5, 171.5, 176.5])
    wd = rng.choice([1, 3, 8, 16, 40])
    s = rng.choice([-89.5, -70.5, -60.5, -5.5, -2.5, 1.5, 40.5, 53.5, 58.5, 65.5, 70.5])
    n = min(89.5, s + rng.choice([1, 4, 8, 20]))
    e = ref.wrap_e(w + wd)
    obs.sample = dict(lat=[s, n], long=[w, e], dates=[str(d0), str(d1)])
    whole = ref.Cell(s, n, 0, wd)
    asked = []
    for _ in range(3):
        i0, j0 = rng.randint(0, 7), rng.randint(0, 7)
        i1, j1 = rng.randint(i0 + 1, 8), rng.randint(j0 + 1, 8)
        a = d0 + timedelta(days=rng.randint(0, (d1 - d0).days))
        b = a + timedelta(days=rng.randint(0, (d1 - a).days))
        q = (n - s) / 8
        c = ref.Cell(s + i0 * q, s + i1 * q, j0 * wd / 8, j1 * wd / 8)
        cp = _lut.cell_poly(c, w)
        # a cell may touch the edge of a table region by chance: leave it to the other cases
        if any(0 <= p.intersection(cp).area < 1e-6 and p.intersects(cp) for ld in ('density', 'thickness') for p, _, _ in table_rows(ld)):
            continue
        asked.append((c, cp, a, b))
    for loader in ('density', 'thickness'):
        agg0 = rng.choice(['MEAN', 'MIN', 'MAX'])
        L = DataLoaderFactory.get_dataloader(loader, _lut.boundary(whole, w, (str(d0), str(d1))), dict(aggregate_type=agg0), min_dp=5)
        for c, cp, a, b in asked:
            sel = []
            for poly, nh, t in table_rows(loader):
                ov = poly.intersection(cp)
                if ov.area == 0:
                    continue
                for k in range((b - a).days + 1):
                    m = (a + timedelta(days=k)).month
                    sel.append(dict(poly=ov, v=t[NORTH[m] if nh else OPP[NORTH[m]]], t=None))
            obs.state(loader, c.rect, w, str(a), str(b))
            obs.count('season_multi', len({x['poly'].wkt for x in sel}) > 1)
            for agg in ('MEAN', 'MIN', 'MAX', None):
                want = _lut.expect(sel, cp, agg or agg0)
                got = L.get_value(_lut.boundary(c, w, (str(a), str(b))), **({} if agg is None else dict(agg_type=gen.anycase(obs.rng, agg))))
                obs.count('season_values')
                obs.check(list(got) == [loader] and any(ref.close(float(got[loader]), x) for x in want), 'season:' + loader,
                          '%s of %s for %s from %s to %s is %r, should be %r' % (agg or agg0, loader, cp.wkt, a, b, got, want))
