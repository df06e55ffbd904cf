"""Cases: refined meshes of all region kinds, loaded or freshly built, some
split further, queried at points strictly inside chosen cells (often close to
edges, corners and the antimeridian), at points outside all cells, and looked
up and updated by id and position. Non-trivial when the mesh has more than one
cell. Monitor: geometry of the mesh document."""
import json

from mon import core, gen, ref

KINDS = [('plain', 3), ('anti', 3), ('global', 2), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('pole', 1)]
BIG = 100      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'edge_queries': 1000, 'shuffled': 60, 'later_splits': 100, 'inside_queries': 1000, 'outside_queries': 200, 'seam_queries': 50, 'on_antimeridian': 20, 'lookups': 500, 'updates': 200, 'refusals_expected': 100}


def cases(tier, seed):
    return core.mkcases('C13', KINDS, tier, seed, 1000, 8000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def run_case(case, obs):
    rng = obs.rng
    r, srcs, depth, mindp = gen.refining_workload(rng, obs.scratch, kind=case['kind'], max_cols=4, max_rows=3)
    loaded = rng.random() < 0.7
    built = gen.build(gen.config(r, srcs, depth, mindp))
    doc = built.to_json()
    if loaded:
        if rng.random() < 0.5:      # the order of cells in a document is arbitrary
            rng.shuffle(doc['cellboxes'])
            obs.count('shuffled')
        given = ref.parse_cells(doc, r['long_min'])
        m = gen.load(doc)
        obs.check(sorted((c.id, c.rect) for c in given) == sorted((c.id, c.rect) for c in ref.parse_cells(m.to_json(), r['long_min'])), 'loaded', 'the loaded mesh has other cells than its file')
        for _ in range(rng.choice([0, 0, 2])):
            m.split_and_replace(str(rng.choice(m.agg_cellboxes).get_id()))
        doc = m.to_json()
    else:
        m = built
    west = r['long_min']
    cells = ref.parse_cells(doc, west)
    obs.state(ref.shape_sig(cells))
    obs.nontrivial = len(cells) > 1
    obs.sample = dict(region=r, cells=len(cells))
    queries(obs, rng, m, r, cells)
    if rng.random() < 0.5:      # what was learnt before a change must not be used after it
        for c in rng.sample(m.agg_cellboxes, min(2, len(m.agg_cellboxes))):
            m.split_and_replace(str(c.get_id()))
            obs.count('later_splits')
        cells = ref.parse_cells(m.to_json(), west)
        queries(obs, rng, m, r, cells)
    others(obs, rng, m, r, cells)


def queries(obs, rng, m, r, cells):
    west = r['long_min']
    for _ in range(25):
        c = rng.choice(cells)
        fx = rng.choice([0.5, 1 / 64, 63 / 64, rng.randint(1, 255) / 256])
        fy = rng.choice([0.5, 1 / 64, 63 / 64, rng.randint(1, 255) / 256])
        la, u = c.lat0 + fy * (c.lat1 - c.lat0), c.u0 + fx * (c.u1 - c.u0)
        if rng.random() < 0.2 and c.u0 < (180 - west) % 360 < c.u1:
            u = (180 - west) % 360
        lo = ref.wrap_e(west + u)
        if lo == 180 and rng.random() < 0.5:
            lo = -180
        if abs(lo) == 180:
            obs.count('on_antimeridian')
        obs.count('inside_queries')
        obs.count('seam_queries', 'MULTI' in c.raw['geometry'])
        obs.check(m.query_inside_mesh((la, lo)) is True or bool(m.query_inside_mesh((la, lo))), 'inside', 'point (%s, %s) inside %r is reported outside' % (la, lo, c))
        try:
            got = m.query_index((la, lo))
        except Exception as e:
            obs.check(False, 'locate', 'point (%s, %s) inside %r: %s' % (la, lo, c, e))
            continue
        obs.check(str(got) == c.id, 'locate', 'point (%s, %s) inside %r is located in %s' % (la, lo, c, got))
        n = [x.get_id() for x in m.agg_cellboxes if x.contains_point(la, lo)]
        obs.check([str(x) for x in n] == [c.id], 'contains', 'point (%s, %s) inside %r is contained by %s' % (la, lo, c, n))


def others(obs, rng, m, r, cells):
    west = r['long_min']
    W = ref.width(r['long_min'], r['long_max'])
    for _ in range(6):
        la = rng.choice([r['lat_max'] + 1 / 64, r['lat_min'] - 1 / 64, r['lat_min'] - 3, r['lat_max'] + 90, r['lat_min'] + rng.randint(1, 63) / 64 * (r['lat_max'] - r['lat_min'])])
        inlat = r['lat_min'] < la < r['lat_max']
        if inlat and W >= 360:
            continue
        u = W + (360 - W) * rng.choice([1 / 64, 0.5, 63 / 64]) if inlat else W * rng.randint(1, 63) / 64
        lo = ref.wrap_e(west + u)
        obs.count('outside_queries')
        obs.check(not m.query_inside_mesh((la, lo)), 'outside', 'point (%s, %s) outside the mesh is reported inside' % (la, lo))
        with obs.expect_raise('outside-located', 'a point outside the mesh was located: %s' % ((la, lo),)):
            m.query_index((la, lo))
    for _ in range(8):
        c = rng.choice(cells)
        fx, fy = rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (0, .5), (1, .5), (.5, 0), (.5, 1), (0, rng.randint(1, 63) / 64), (rng.randint(1, 63) / 64, 1)])
        la, u = c.lat0 + fy * (c.lat1 - c.lat0), c.u0 + fx * (c.u1 - c.u0)
        lo = ref.wrap_e(west + u)
        if lo == 180 and rng.random() < 0.5:
            lo = -180
        obs.count('edge_queries')
        obs.check(not m.query_inside_mesh((la, lo)), 'edge', 'point (%s, %s) on an edge of %r is reported inside' % (la, lo, c))
        with obs.expect_raise('edge-located', 'a point on an edge was located: %s' % ((la, lo),)):
            m.query_index((la, lo))
    ids = {c.id for c in cells}
    for i in [str(rng.randint(0, 300)) for _ in range(4)] + ['-1', '']:
        if i not in ids:
            try:
                b = m.get_cellbox(i)
            except Exception:
                b = None
            obs.check(b is None, 'lookup-absent', 'looking up %r, which no cell has, gives cell %s' % (i, b and b.get_id()))
    for c in rng.sample(cells, min(6, len(cells))):
        for i in (c.id, int(c.id)):
            b = m.get_cellbox(i)
            obs.count('lookups')
            obs.check(b is not None and canon(b.to_json()) == canon(c.raw), 'lookup', 'looking up %r gives %s' % (i, b and b.to_json()))
    for _ in range(3):
        k = rng.randrange(len(cells))
        before = m.to_json()
        val = rng.randint(0, 999)
        m.update_cellbox(k, {'speed': [val, 1.5], 'q0': val})
        after = m.to_json()
        want = json.loads(json.dumps(before))
        want['cellboxes'][k].update({'speed': [val, 1.5], 'q0': val})
        obs.count('updates')
        obs.check(canon(want) == canon(after), 'update', 'updating position %d did not change exactly that cell' % k)
    snap = canon(m.to_json())
    for bad in (-1, len(cells), -len(cells), len(cells) + 5, -1000):
        with obs.expect_raise('bad-position:' + ('neg' if bad < 0 else 'large'), 'updating position %d of %d cells was accepted' % (bad, len(cells))):
            m.update_cellbox(bad, {'speed': 1})
    obs.check(canon(m.to_json()) == snap, 'refused-but-changed', 'a refused update changed the mesh')
