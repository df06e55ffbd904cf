"""Cases: a builder with up to two configured sources, to which one or two
loaders (tabular and gridded, scalar and vector, with and without conditions,
fill settings and time, and a user's own subclass) are added with
add_dataloader(), before the first build, after it, or one before and one after;
regions of every kind. Non-trivial when the added source has data or splits
cells. Monitor: the mesh built after adding, cell by cell, against the mesh
built from one configuration with all the sources; its neighbour graph against
its geometry; and the mesh built earlier, which must not change."""
import json
import os

from mon import core, gen, ref
from mon.props import c11, c20

KINDS = [('before', 3), ('after', 6), ('both', 3), ('rebuild', 1)]
BIG = 100      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'changed_later': 200, 'added': 200, 'added_vector': 40, 'added_split': 60, 'cells': 3000, 'filled_from_parent': 100, 'first_cell_split': 20, 'earlier_mesh': 100, 'own_class': 40, 'own_bounds_drop': 20}
ASSUMPTIONS = ['the added loader is given the configured minimum number of data points']


def cases(tier, seed):
    return core.mkcases('C27', KINDS, tier, seed, 800, 6000)


def klass(s, own):
    from meshiphi.dataloaders.scalar.gebco import GEBCODataLoader
    from meshiphi.dataloaders.scalar.scalar_csv import ScalarCSVDataLoader
    from meshiphi.dataloaders.vector.north_sea_current import NorthSeaCurrentDataLoader
    from meshiphi.dataloaders.vector.vector_csv import VectorCSVDataLoader
    c = dict(scalar_csv=ScalarCSVDataLoader, gebco=GEBCODataLoader, vector_csv=VectorCSVDataLoader, northsea_currents=NorthSeaCurrentDataLoader)[s.loader]
    if own:
        class MyDataLoader(c):
            pass
        return MyDataLoader
    return c


def values(doc):
    skip = {'geometry', 'cx', 'cy', 'dcx', 'dcy', 'id'}
    return {k: {n: v for n, v in cb.items() if n not in skip} for k, cb in ((cb['geometry'], cb) for cb in doc['cellboxes'])}


def run_case(case, obs):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    rng, mode = obs.rng, case['kind']
    r = gen.region(rng, None, max_cols=4, max_rows=3)
    depth = rng.choice([0, 1, 2, 2, 3])
    mindp = rng.choice([1, 2, 5])

    def src(k):
        if k >= 2 and rng.random() < 0.35:
            conds = [c for c in [gen.vector_cond(rng, 'df')] if 'dmag' in c]
            return gen.vector_source(rng, obs.scratch, r, ['a%d' % k, 'b%d' % k], agg=rng.choice(['MIN', 'MAX', 'MEAN']), conds=conds, time=False, form=rng.choice(['df', 'df', 'xr']) if k == 2 else 'df',
                                     n=rng.choice([6, 20, 60]), fill=rng.choice([None, None, 3.5]))
        return gen.scalar_source(rng, obs.scratch, r, 'q%d' % k, n=rng.choice([3, 12, 30, 60]), fill=rng.choice([None, None, None, 2.5, 'Nan']))
    base = [src(k) for k in range(rng.choice([0, 1, 1, 2]))]
    new = [src(k) for k in range(2, 3 + (mode == 'both' or rng.random() < 0.2))]
    boxed = {}
    for i, s in enumerate(new):
        # bounds of the loader's own: what lies outside them does not count
        if s.form == 'df' and gen.reg_kind(r) == 'plain' and rng.random() < 0.5:
            at = [sorted(rng.sample(range(9), 2)) for _ in (0, 1)]
            la, lo = r['lat_max'] - r['lat_min'], r['long_max'] - r['long_min']
            box = dict(r, lat_min=r['lat_min'] + at[0][0] * la / 8, lat_max=r['lat_min'] + at[0][1] * la / 8,
                       long_min=r['long_min'] + at[1][0] * lo / 8, long_max=r['long_min'] + at[1][1] * lo / 8)
            pts = [p for p in s.pts if box['lat_min'] < p['lat'] <= box['lat_max'] and box['long_min'] < p['long'] <= box['long_max']]
            if not pts:
                continue
            f = os.path.join(obs.scratch, 'boxed%d.csv' % i)
            gen.write_csv(f, pts, s.names)
            p = dict(s.params, files=[f])
            p.pop('file', None)
            new[i] = gen.Source(s.loader, p, s.names, pts, s.form, s.agg, s.conds, s.fill)
            boxed[id(new[i])] = box, s
            obs.count('own_bounds')
            obs.count('own_bounds_drop', len(pts) < len(s.pts))
    cfg = gen.config(r, base, depth, mindp)
    b = MeshBuilder(cfg)
    early = None

    def add(builder, s):
        own = rng.random() < 0.4
        box = None
        if id(s) in boxed:
            box, s = boxed[id(s)]
        p = json.loads(json.dumps(s.params))
        if 'file' in p:
            p['files'] = [p.pop('file')]
        p['min_dp'] = mindp
        kw = dict(min_dp=mindp)
        if box:
            kw['bounds'] = c20.bounds(box)
        elif rng.random() < 0.5:
            kw['bounds'] = c20.bounds(r)
        if rng.random() < 0.5:
            kw['name'] = 'mine'
        got = builder.add_dataloader(klass(s, own), p, **kw)
        obs.count('added')
        obs.count('added_vector', s.vector)
        obs.count('own_class', own)
        obs.check(got is builder, 'returned', 'adding a loader does not give the builder back')
        return builder
    todo = list(new)
    if mode in ('before', 'both', 'rebuild'):
        for s in (todo if mode != 'both' else todo[:1]):
            b = add(b, s)
        todo = todo[1:] if mode == 'both' else []
    if mode != 'before':
        m1 = b.build_environmental_mesh()
        early = json.dumps(m1.to_json(), sort_keys=True)
        obs.count('first_cell_split', b.mesh.cellboxes[0] is None)
    for s in todo:
        b = add(b, s)
    doc = json.loads(json.dumps(b.build_environmental_mesh().to_json()))
    want = json.loads(json.dumps(gen.build(gen.config(r, base + new, depth, mindp)).to_json()))
    obs.sample = dict(region=r, mode=mode, depth=depth, base=len(base), added=[s.loader for s in new], cells=len(want['cellboxes']))
    gc, wc = values(doc), values(want)
    obs.count('cells', len(wc))
    if not obs.check(set(gc) == set(wc), 'cells', 'the mesh has %d cells, %d when configured at once' % (len(gc), len(wc)), region=r, only=sorted(set(gc) ^ set(wc))[:4], mode=mode):
        return
    for k, v in wc.items():
        same = set(v) == set(gc[k]) and all(ref.close(fl(v[n]), fl(gc[k][n]), 1e-9) for n in v)
        if not obs.check(same, 'values', 'a cell has %s, and %s when configured at once' % (gc[k], v), cell=k, mode=mode):
            return
    cells = ref.parse_cells(doc, r['long_min'])
    glob = gen.reg_kind(r) == 'global'
    errs = ref.graph_errors(doc, cells, 360 if glob else None)
    obs.check(not errs, 'graph', 'the neighbour graph differs from the geometry: %s' % (errs[:3],), region=r, mode=mode)
    if early is not None:
        obs.count('earlier_mesh')
        obs.check(json.dumps(m1.to_json(), sort_keys=True) == early, 'earlier', 'a mesh built before adding a loader has changed', region=r, mode=mode)
        given = json.dumps(cfg, sort_keys=True)
        # nor does what happens to it concern the builder
        if rng.random() < 0.5:
            m1.merge_mesh(gen.build(gen.config(c11.second_region(rng, r, place='inside'), [], 0, 1)))
        else:
            m1.split_and_replace(str(rng.choice(m1.agg_cellboxes).get_id()))
        obs.count('changed_later')
        again = b.build_environmental_mesh().to_json()
        obs.check(json.dumps(again, sort_keys=True) == json.dumps(doc, sort_keys=True), 'builder-changed', 'changing a mesh changed what its builder builds', region=r, mode=mode)
        obs.check(json.dumps(cfg, sort_keys=True) == given, 'config-changed', 'changing a mesh changed the configuration its builder was given')
    n_split = any(s.conds for s in new)
    obs.count('added_split', n_split and len(wc) > gen.size(r)[0] * gen.size(r)[1])
    obs.count('filled_from_parent', sum(1 for v in wc.values() for s in new if s.fill == 'parent' for n in s.names if not ref.isnan(fl(v.get(n)))) if len(wc) > gen.size(r)[0] * gen.size(r)[1] else 0)
    obs.state(mode, gen.reg_kind(r), depth, len(base), tuple(sorted(s.loader for s in new)), n_split)
    obs.nontrivial = True


def fl(x):
    return float('nan') if x is None else float(x)
