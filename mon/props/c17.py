"""Cases: built, merged and split meshes of all region kinds with numeric, missing,
infinite and boolean values and cells with differing attributes, exported as
GeoJSON (whole or one layer) and as rasters of square and non-square resolution,
as a table of shapes, and to unknown formats. Non-trivial when the mesh has more than one cell.
Monitor: features against cells one by one; raster pixels, decoded through a
colour table giving each value its own colour, against the cell containing the
pixel centre; position and size of the raster against the bounds of the mesh;
document of the mesh and directory contents before and after."""
import contextlib
import json
import os
import re

from mon import core, gen, ref
from mon.props import c11

KINDS = [('geojson:plain', 3), ('geojson:anti', 2), ('geojson:global', 1), ('geojson:pole', 1), ('tif:plain', 4), ('tif:anti', 3), ('tif:global', 1), ('tif:wide', 1), ('geojson:wide', 1),
         ('tif:touch_e', 1), ('tif:touch_w', 1), ('unknown:plain', 1)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'features': 800, 'null_values': 50, 'infinities': 30, 'layer_exports': 20, 'rasters': 40, 'non_square': 20, 'pixels': 2000, 'missing_pixels': 20,
           'seam_rasters': 6, 'projected': 2, 'unknown_formats': 5, 'bool_values': 20, 'ragged_cells': 20, 'blank_layers': 2, 'exported_again': 50, 'tables': 30, 'merged': 60, 'never_loaded': 100}
ASSUMPTIONS = ['a pixel whose centre lies on a cell edge may show any cell touching it',
               'rasters in other projections are checked for their projection and their palette only',
               'a colour table is given, so that values can be read back from the coloured raster']


def cases(tier, seed):
    return core.mkcases('C17', KINDS, tier, seed, 900, 5000)


def canon(x):
    return json.dumps(x, sort_keys=True)


@contextlib.contextmanager
def quiet():
    """programs run by the code write to file descriptor 1"""
    keep = os.dup(1), os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    try:
        yield
    finally:
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        for f in keep + (nul,):
            os.close(f)


def mesh(obs, rng, kind):
    r, srcs, depth, mindp = gen.refining_workload(rng, obs.scratch, kind=kind, max_cols=4, max_rows=3)
    m = gen.build(gen.config(r, srcs, depth, mindp))
    if rng.random() < 0.6:
        m = gen.load(m.to_json())
    else:
        obs.count('never_loaded')
    if rng.random() < 0.25:
        r2 = c11.second_region(rng, r, place=rng.choice(['inside', 'corner', 'all', 'seam']))
        m2 = gen.build(gen.config(r2, srcs, rng.choice([0, 1, 2]), mindp))
        m.merge_mesh(m2 if rng.random() < 0.5 else gen.load(m2.to_json()))
        obs.count('merged')
    if rng.random() < 0.3:
        for _ in range(2):
            m.split_and_replace(str(rng.choice(m.agg_cellboxes).get_id()))
    for i, c in enumerate(m.agg_cellboxes):
        if rng.random() < 0.3:
            m.update_cellbox(i, {'speed': rng.choice([1.5, 0.0, float('inf'), float('-inf'), 3])})
        if i % 2 == 0 or rng.random() < 0.8:
            m.update_cellbox(i, {'part': rng.choice([0, 2, -7.25])})
        else:
            obs.count('ragged_cells')
    boolean = rng.random() < 0.5
    if boolean:
        for i, c in enumerate(m.agg_cellboxes):
            m.update_cellbox(i, {'land': rng.random() < 0.5})
            obs.count('bool_values')
    return r, srcs, m


def snapshot(d):
    return {os.path.join(a, f): os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs}


def run_case(case, obs):
    mode, kind = case['kind'].split(':')
    rng = obs.rng
    r, srcs, m = mesh(obs, rng, kind)
    before = canon(m.to_json())
    doc = json.loads(before)
    obs.nontrivial = len(doc['cellboxes']) > 1
    obs.state(mode, [c['geometry'] for c in doc['cellboxes']])
    obs.sample = dict(region=r, cells=len(doc['cellboxes']), export=mode)
    old = os.getcwd()
    os.chdir(obs.scratch)
    try:
        globals()['do_' + mode](obs, rng, r, srcs, m, doc)
        if rng.random() < 0.3 and mode != 'unknown':      # and again after a change
            for i in range(len(m.agg_cellboxes)):
                m.update_cellbox(i, {srcs[0].names[0]: rng.randint(0, 99) / 4})
            m.split_and_replace(str(rng.choice(m.agg_cellboxes).get_id()))
            before = canon(m.to_json())
            obs.count('exported_again')
            globals()['do_' + mode](obs, rng, r, srcs, m, json.loads(before))
    finally:
        os.chdir(old)
    obs.check(canon(m.to_json()) == before, 'changed', 'exporting changed the mesh')


def do_unknown(obs, rng, r, srcs, m, doc):
    for f in ['XML', 'nc', 'shp', '', 'JSONX', 'GEO_JSON']:
        snap = snapshot(obs.scratch)
        try:
            m.save(os.path.join(obs.scratch, 'out.bin'), format=f)
        except (ValueError, KeyError, NotImplementedError):
            pass                    # refusing loudly is as good
        obs.count('unknown_formats')
        obs.check(snapshot(obs.scratch) == snap, 'unknown-format', 'saving in the unknown format %r wrote files' % f)


def table(obs, m, doc):
    """the mesh as a table of shapes"""
    from shapely import wkt
    g = m.to_shapely()
    obs.count('tables')
    cells = {str(c['id']): c for c in doc['cellboxes']}
    obs.check(sorted(map(str, g.index)) == sorted(cells), 'table-ids', 'the table of shapes has ids %s' % sorted(map(str, g.index))[:8])
    obs.check(g.crs is not None and g.crs.to_epsg() == 4326, 'table-crs', 'the shapes are in %s' % g.crs)
    for i, row in zip(map(str, g.index), g.to_dict('records')):
        c = cells.get(i)
        if c is None:
            continue
        geom = row['geometry']
        obs.check(geom.equals(wkt.loads(c['geometry'])), 'table-polygon', 'shape %s is %s, its cell %s' % (i, geom.wkt, c['geometry']))
        for n, v in c.items():
            if n in ('id', 'geometry'):
                continue
            w = row.get(n)
            same = w == v or (isinstance(v, float) and v != v and isinstance(w, float) and w != w)
            obs.check(same, 'table-value', '%s of shape %s is %r, of its cell %r' % (n, i, w, v))


def do_geojson(obs, rng, r, srcs, m, doc):
    if rng.random() < 0.3:
        table(obs, m, doc)
    layer = rng.choice([None, None, srcs[0].names[0], 'speed', 'nosuch', 'part'])
    pf = None
    if layer:
        pf = os.path.join(obs.scratch, 'p.json')
        with open(pf, 'w') as f:
            json.dump(dict(data_name=layer), f)
        obs.count('layer_exports')
    path = os.path.join(obs.scratch, 'out.geojson')
    m.save(path, format=rng.choice(['GEOJSON', 'geojson', 'GeoJSON']), format_params=pf)
    text = open(path).read()

    def no_constant(x):
        raise ValueError(x)
    try:
        g = json.loads(text, parse_constant=no_constant)
    except ValueError as e:
        obs.fail('not-json', 'the GeoJSON file holds %s, which is not JSON' % e)
        return
    obs.check(g.get('type') == 'FeatureCollection', 'type', 'type is %s' % g.get('type'))
    feats = g['features']
    obs.check(len(feats) == len(doc['cellboxes']), 'count', '%d features for %d cells' % (len(feats), len(doc['cellboxes'])))
    cells = {str(c['id']): c for c in doc['cellboxes']}
    names = {k for c in doc['cellboxes'] for k in c} - {'id', 'geometry', 'cx', 'cy', 'dcx', 'dcy'}
    if layer:
        names &= {layer}
    seen = set()
    for f in feats:
        p = f['properties']
        i = str(p.get('id'))
        obs.count('features')
        if not obs.check(i in cells and i not in seen, 'id', 'feature with id %r' % p.get('id')):
            continue
        seen.add(i)
        c = cells[i]
        want = [float(x) for x in re.findall(r'-?[0-9.]+(?:e[-+]?[0-9]+)?', c['geometry'])]
        obs.check(flat(f['geometry']['coordinates']) == want and f['geometry']['type'].upper() == c['geometry'].split(' ')[0], 'polygon',
                  'feature %s has polygon %s, its cell %s' % (i, f['geometry'], c['geometry']))
        obs.check(set(p) - {'id'} == names, 'names', 'feature %s has properties %s, should have %s' % (i, sorted(p), sorted(names)))
        for n in names & set(p):
            v = c.get(n)
            if v is None or v != v or v in (float('inf'), float('-inf')):
                obs.count('null_values')
                obs.count('infinities', v is not None and v == v)
                obs.check(p[n] is None, 'null', '%s of feature %s is %r, should be null (cell has %r)' % (n, i, p[n], v))
            elif isinstance(v, bool):
                obs.check(p[n] in ((True, 1) if v else (False, 0, None)), 'bool', '%s of feature %s is %r, cell has %r' % (n, i, p[n], v))
            else:
                obs.check(p[n] is not None and not isinstance(p[n], str) and p[n] == v, 'value', '%s of feature %s is %r, cell has %r' % (n, i, p[n], v))


def flat(x):
    return [float(x)] if not isinstance(x, list) else [z for y in x for z in flat(y)]


def do_tif(obs, rng, r, srcs, m, doc):
    from osgeo import gdal
    layer = rng.choice([srcs[0].names[0]] * 4 + ['part', 'speed', 'nosuch'])
    res = [rng.choice([1, 2, 3, 5, 8, 12, 7]), rng.choice([1, 2, 4, 6, 9, 11, 7])]
    proj = rng.choice(['4326'] * 4 + ['3031', '3857'])
    shape = (r['lat_max'] - r['lat_min']) / ref.width(r['long_min'], r['long_max'])
    if not 0.4 <= shape <= 2.5 or kind_of(r) != 'plain' or r['lat_max'] >= 80 or r['lat_min'] <= -80:
        proj = '4326'
    if proj != '4326':
        res = [rng.choice([12, 16]), rng.choice([12, 15])]  # very small ones cannot be warped
    west = r['long_min']
    cells = ref.parse_cells(doc, west)
    vals = sorted({float(c.raw[layer]) for c in cells if layer in c.raw and c.raw[layer] is not None and abs(c.raw[layer]) < float('inf')})
    import numpy as np
    colour = {np.float32(v): (1 + k % 200, 1 + k // 200, 9) for k, v in enumerate(vals)}
    if len({np.float32(v) for v in vals}) != len(vals):
        return
    missing = (255, 254, 253)
    cf = os.path.join(obs.scratch, 'colours.txt')
    with open(cf, 'w') as f:
        for v in vals:
            f.write('%r %d %d %d\n' % ((float(np.float32(v)),) + colour[np.float32(v)]))
        f.write('nan %d %d %d\n' % missing)
    pf = os.path.join(obs.scratch, 'p.json')
    with open(pf, 'w') as f:
        own = rng.random() < 0.9     # else the built-in colours, which cannot be decoded
        json.dump(dict(dict(data_name=layer, sampling_resolution=res, projection=proj), **(dict(colour_conf=cf) if own else {})), f)
    o = os.path.join(obs.scratch, 'o%d' % len(os.listdir(obs.scratch)))
    os.makedirs(o)
    path = os.path.join(o, 'out.tif')
    obs.count('blank_layers', not vals)
    with quiet():
        m.save(path, format=rng.choice(['TIF', 'tif']), format_params=pf)
    d = gdal.Open(path)
    obs.count('rasters')
    obs.count('non_square', res[0] != res[1])
    obs.count('seam_rasters', kind_of(r) == 'anti')
    obs.sample.update(resolution=res, layer=layer, projection=proj)
    if not obs.check(d is not None and d.RasterCount >= 3, 'unreadable', 'the raster cannot be read'):
        return
    img = d.ReadAsArray()
    palette = set(colour.values()) | {missing}
    auth = d.GetSpatialRef().GetAuthorityCode(None)
    obs.check(str(auth) == proj, 'projection', 'raster is in projection %s, asked for %s' % (auth, proj))
    if proj != '4326':
        obs.count('projected')
        got = {tuple(int(img[b, i, j]) for b in range(3)) for i in range(img.shape[1]) for j in range(img.shape[2])}
        obs.check(not own or got <= palette | {(0, 0, 0)}, 'palette', 'projected raster holds colours of no value: %s' % sorted(got - palette)[:4])
        return
    ny, nx = res
    if not obs.check((d.RasterYSize, d.RasterXSize) == (ny, nx), 'size', 'raster is %d x %d pixels, asked for %s' % (d.RasterYSize, d.RasterXSize, res)):
        return
    W, H = ref.width(r['long_min'], r['long_max']), r['lat_max'] - r['lat_min']
    g = d.GetGeoTransform()
    want = (r['long_min'], W / nx, 0, r['lat_max'], 0, -H / ny)
    obs.check(all(abs(a - b) < 1e-9 * max(1, abs(b)) for a, b in zip(g, want)), 'placing', 'raster is placed by %s, should be %s' % (g, want))
    if not own:
        return
    bad = []
    for i in range(ny):
        la = r['lat_max'] - (i + 0.5) * H / ny
        for j in range(nx):
            u = (j + 0.5) * W / nx
            e = 1e-9 * 360
            touching = [c for c in cells if c.lat0 - e <= la <= c.lat1 + e and c.u0 - e <= u <= c.u1 + e]
            ok = set()
            for c in touching:
                v = c.raw.get(layer)
                if v is None or v != v:
                    ok.add(missing)
                elif abs(v) == float('inf'):
                    ok.add('any')
                else:
                    ok.add(colour[np.float32(v)])
            obs.count('pixels')
            obs.count('missing_pixels', ok == {missing})
            got = tuple(int(img[b, i, j]) for b in range(3))
            if 'any' not in ok and got not in ok:
                bad.append((i, j, la, u, got, sorted(ok)))
    obs.check(not bad, 'pixel', '%d of %d pixels of a %s raster of %s do not show the cell at their centre; first (row, column, lat, u, got, want): %s' % (len(bad), nx * ny, res, r, bad[:2]))


def kind_of(r):
    return gen.reg_kind(r)
