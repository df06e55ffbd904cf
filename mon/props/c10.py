"""Cases: meshes built over all region kinds with scalar, vector and polygon
values, missing values included, then split or merged at random; non-trivial
when the mesh has more than one cell. Monitor: document, reloaded document and
file written by save are compared cell by cell, and the live objects of the
reloaded mesh with those of the original, over two generations."""
import copy
import json
import os

from mon import core, gen, ref
from mon.props import _lut, c11

BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'large_ids': 20, 'big_cases': 2, 'split_after_writing': 300, 'meshes': 60, 'kind_anti': 10, 'kind_global': 5, 'seam_cells': 20, 'nan_values': 20, 'vector_meshes': 10,
           'split_meshes': 10, 'merged_meshes': 5, 'bool_values': 5, 'dressed': 60, 'shuffled': 50, 'independent_split': 20, 'independent_merge': 20}
KINDS = [('plain', 2), ('anti', 3), ('global', 2), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('pole', 1)]


def cases(tier, seed):
    return core.mkcases('C10', KINDS, tier, seed, 2000, 8000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def source_mix(rng, obs, r):
    srcs = [gen.scalar_source(rng, obs.scratch, r, 'q0', n=rng.choice([6, 30, 80]), nan=rng.choice([0, 0.5]))]
    if rng.random() < 0.4:
        srcs.append(gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=20))
        obs.count('vector_meshes')
    return srcs


def run_case(case, obs):
    rng = obs.rng
    r = gen.region(rng, case['kind'])
    srcs = source_mix(rng, obs, r)
    cfg = gen.config(r, srcs, rng.choice([0, 1, 2]), rng.choice([0, 1, 5]))
    for s in cfg['data_sources']:
        if rng.random() < 0.3:
            s['params']['value_fill_types'] = rng.choice(['Nan', 'parent', 3.5])
    built = gen.build(cfg)
    doc = built.to_json()
    live = built
    how = rng.choice(['built', 'built', 'dressed', 'split', 'merge'])
    if how != 'built':
        doc = gen.dress(rng, copy.deepcopy(doc), obs)
    if how == 'dressed':
        live = gen.load(copy.deepcopy(doc))
        compare(obs, doc, live.to_json(), 0)
    if how == 'split':
        live = gen.load(doc)
        for _ in range(rng.randint(1, 4)):
            c = rng.choice(live.agg_cellboxes)
            live.split_and_replace(str(c.get_id()))
        obs.count('split_meshes')
    elif how == 'merge':
        live = gen.load(doc)
        r2 = c11.second_region(rng, r)
        s2 = source_mix(rng, obs, r2)
        m2 = gen.load(gen.build(gen.config(r2, s2, rng.choice([0, 1]), 1)).to_json())
        live.merge_mesh(m2)
        obs.count('merged_meshes')
    if rng.random() < 0.3:
        for c in live.agg_cellboxes[::2]:
            c.agg_data['land'] = rng.random() < 0.5
            obs.count('bool_values')
    doc1 = live.to_json()
    obs.check(canon(doc1) == canon(live.to_json()), 'unstable', 'writing the same mesh twice gives different documents')
    obs.count('meshes')
    obs.count('kind_' + case['kind'])
    obs.count('cells', len(doc1['cellboxes']))
    obs.count('seam_cells', sum('MULTI' in c['geometry'] for c in doc1['cellboxes']))
    obs.count('nan_values', sum(isinstance(v, float) and v != v for c in doc1['cellboxes'] for v in c.values()))
    obs.state(how, canon(doc1['cellboxes']))
    obs.nontrivial = len(doc1['cellboxes']) > 1
    obs.sample = dict(region=r, how=how, cells=len(doc1['cellboxes']))
    # through a file
    path = os.path.join(obs.scratch, 'mesh_out.json')
    if rng.random() < 0.5:
        live.save(path)
    else:
        live.save(path, format=rng.choice(['JSON', 'json', 'Json']))
    disk = json.load(open(path))
    obs.check(canon(disk) == canon(doc1), 'file', 'the saved file differs from the document')
    text = open(path).read()
    prev, prevdoc = live, doc1
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    for g in range(2):
        src = json.loads(text) if g == 0 else copy.deepcopy(prevdoc)
        before = canon(src)
        m = EnvironmentMesh.load_from_json(src)
        d = m.to_json()
        obs.check(canon(src) == before, 'input-changed', 'loading or writing changed the document given')
        compare(obs, prevdoc, d, g)
        live_compare(obs, prev, m, prevdoc, g)
        prev, prevdoc = m, d
    # a document, once written, is nobody's
    kept = canon(doc1)
    live.split_and_replace(str(rng.choice(live.agg_cellboxes).get_id()))
    obs.count('split_after_writing')
    obs.check(canon(doc1) == kept, 'written-changed', 'a document changes with the mesh it was written from')
    # what happens to one loaded mesh concerns neither the document nor another one
    src = json.loads(text)
    before = canon(src)
    one, two = EnvironmentMesh.load_from_json(src), EnvironmentMesh.load_from_json(src)
    act = rng.choice(['split', 'merge', 'value'])
    if act == 'merge':
        one.merge_mesh(gen.load(gen.build(gen.config(c11.second_region(rng, r), [], 0, 1)).to_json()))
    elif act == 'value':
        one.agg_cellboxes[0].agg_data['touched'] = 1
    else:
        for _ in range(rng.randint(1, 3)):
            one.split_and_replace(str(rng.choice(one.agg_cellboxes).get_id()))
    obs.count('independent_' + act)
    obs.check(canon(src) == before, 'document-changed', 'the document changes with the mesh loaded from it (%s)' % act)
    obs.check(canon(two.to_json()) == before, 'other-changed', 'a mesh changes with another loaded from the same document (%s)' % act)


def compare(obs, a, b, g):
    if canon(a) == canon(b):
        obs.count('checks')
        return
    for part in ('config', 'neighbour_graph', 'cellboxes'):
        if canon(a[part]) != canon(b[part]):
            what = ''
            if part == 'cellboxes':
                for x, y in zip(a[part], b[part]):
                    if canon(x) != canon(y):
                        what = 'first differing cell %s became %s' % (canon(x)[:300], canon(y)[:300])
                        break
                else:
                    what = '%d cells became %d' % (len(a[part]), len(b[part]))
            obs.check(False, 'lost:' + part, 'generation %d: %s differ after loading and writing again; %s' % (g, part, what))


def live_compare(obs, old, new, doc, g):
    ob, nb = old.bounds, new.bounds
    obs.check([float(x) for x in ob.lat_range + ob.long_range] == [float(x) for x in nb.lat_range + nb.long_range]
              and list(ob.time_range) == list(nb.time_range), 'bounds', 'bounds became %s from %s' % (nb, ob))
    obs.check(len(old.agg_cellboxes) == len(new.agg_cellboxes), 'cells', 'number of cells changed')
    for a, b in zip(old.agg_cellboxes, new.agg_cellboxes):
        x, y = a.get_bounds(), b.get_bounds()
        same = (float(x.get_lat_min()) == float(y.get_lat_min()) and float(x.get_lat_max()) == float(y.get_lat_max())
                and ref.wrap_e(x.get_long_min()) == ref.wrap_e(y.get_long_min())
                and ref.wrap_e(x.get_long_max()) == ref.wrap_e(y.get_long_max()) and x.get_width() == y.get_width())
        obs.check(same, 'cell-bounds', 'cell %s has bounds %s after loading, %s before' % (a.get_id(), y, x))
        da = {k: v for k, v in a.get_agg_data().items() if k != 'id'}
        db = {k: v for k, v in b.get_agg_data().items() if k != 'id'}
        obs.check(canon(da) == canon(db) and str(a.get_id()) == str(b.get_id()), 'cell-data', 'cell %s has data %s after loading, %s before' % (a.get_id(), db, da))
    obs.check({str(k): {str(d): list(v) for d, v in n.items()} for k, n in old.neighbour_graph.get_graph().items()} ==
              {str(k): {str(d): list(v) for d, v in n.items()} for k, n in new.neighbour_graph.get_graph().items()},
              'graph', 'neighbour graph differs after loading')
