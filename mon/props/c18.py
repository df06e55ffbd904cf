"""Cases: pairs of mesh documents: a mesh built here (or a document of random
rectangles) with extra attributes of every kind a mesh file holds (numbers from
1e-9 to 1e12, zero, infinite and missing numbers, whole numbers, strings,
booleans, lists of numbers), and a copy with a planted set of differences: cells
removed, added or subdivided, values changed well above or well below four
significant figures, attributes added, dropped, neighbour lists changed, entries
reordered. Non-trivial when the pair has a common cell. Monitor: the geometry
and ids the comparator reports against the planted differences, both ways
round, and the documents before and after."""
import copy
import json
import math

from mon import core, gen, ref

KINDS = [('self', 1), ('reorder', 2), ('bounds', 2), ('values', 4), ('attributes', 3), ('graph', 3), ('mixed', 3)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'pairs': 350, 'planted_value': 250, 'planted_below': 500, 'planted_attr': 120, 'planted_graph': 180, 'planted_bounds': 180, 'reordered': 80, 'quiet': 80}
ASSUMPTIONS = ['planted differences are at least 0.2 % or at most 0.0001 % of a value, never next to the rounding step',
               'the return type "cellboxes" is not covered: it names a column that the reports do not have']


def cases(tier, seed):
    return core.mkcases('C18', KINDS, tier, seed, 1300, 12000)


def num(rng):
    """a number with four significant digits"""
    m = rng.randint(1000, 9999)
    return rng.choice([-1, 1]) * float('%de%d' % (m, rng.randint(-12, 8)))


def base(case, obs, rng):
    if rng.random() < 0.5:
        _, _, _, doc = gen.mesh_json(rng, obs.scratch, kind=rng.choice(['plain', 'anti', 'touch_e']), max_cols=3, max_rows=3, depth=rng.choice([0, 1, 2]))
        doc = dict(cellboxes=doc['cellboxes'], neighbour_graph=doc['neighbour_graph'])
        for c in doc['cellboxes']:
            for k in list(c):
                if k not in ('id', 'geometry', 'cx', 'cy', 'dcx', 'dcy'):
                    del c[k]
    else:
        n = rng.randint(1, 12)
        ids = rng.sample(range(1000), n)
        cbs, ng = [], {}
        for k, i in enumerate(ids):
            x, y = k * 2.0 - 10, rng.choice([-30.0, 10.0])
            cbs.append(dict(geometry='POLYGON ((%r %r, %r %r, %r %r, %r %r, %r %r))' % (x, y, x, y + 2, x + 2, y + 2, x + 2, y, x, y),
                            cx=x + 1, cy=y + 1, dcx=1.0, dcy=1.0, id=str(i)))
            ng[str(i)] = {str(d): rng.sample([j for j in ids], rng.randint(0, min(3, n))) for d in (1, 2, 3, 4, -1, -2, -3, -4)}
        doc = dict(cellboxes=cbs, neighbour_graph=ng)
    # attributes: some on every cell, some on a part of them
    attrs = []
    for k in range(rng.randint(1, 5)):
        t = rng.choice(['float', 'float', 'whole', 'int', 'str', 'bool', 'list', 'nan', 'inf', 'zero'])
        part = rng.random() < 0.25 and len(doc['cellboxes']) > 1
        attrs.append(('a%d' % k, t, part))
        for j, c in enumerate(doc['cellboxes']):
            if part and j % 2:
                continue
            c['a%d' % k] = value(rng, t)
    return doc, attrs


def value(rng, t):
    if t == 'float':
        return num(rng)
    if t == 'whole':
        return float(rng.randint(-9000, 9000))
    if t == 'int':
        return rng.randint(-9000, 9000)
    if t == 'str':
        return rng.choice(['land', 'ice', 'open'])
    if t == 'bool':
        return rng.random() < 0.5
    if t == 'list':
        return [num(rng) for _ in range(rng.choice([1, 3, 8]))]
    if t == 'nan':
        return rng.choice([float('nan'), num(rng)])
    if t == 'inf':
        return rng.choice([float('inf'), float('-inf'), num(rng)])
    return rng.choice([0.0, num(rng)])


def isnum(v):
    return isinstance(v, float)


def bigger(rng, v):
    """a clearly different value"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 5000])
    if isinstance(v, str):
        return v + 'x'
    if isinstance(v, list):
        w = list(v)
        i = rng.randrange(len(w))
        w[i] = bigger(rng, w[i])
        return w if rng.random() < 0.8 else v + [1.5]
    if v != v:
        return num(rng)
    if math.isinf(v):
        return rng.choice([-v, num(rng), float('nan')])
    if v == 0:
        return num(rng)
    return rng.choice([v * (1 + rng.choice([-1, 1]) * rng.choice([0.002, 0.0025, 0.01, 0.5])), -v, v * 10, 0.0, float('nan'), float('inf')])


def smaller(rng, v):
    """the same to four significant figures (values have four digits)"""
    if isinstance(v, list):
        return [smaller(rng, x) for x in v]
    if isnum(v) and v == v and not math.isinf(v):
        return v * (1 + rng.choice([-1, 1]) * rng.choice([1e-6, 1e-7, 1e-9]))
    return v


def shuffled(rng, doc):
    d = copy.deepcopy(doc)
    rng.shuffle(d['cellboxes'])
    out = []
    for c in d['cellboxes']:
        ks = list(c)
        if rng.random() < 0.7:
            rng.shuffle(ks)
        out.append({k: c[k] for k in ks})
    d['cellboxes'] = out
    ng = list(d['neighbour_graph'].items())
    rng.shuffle(ng)
    d['neighbour_graph'] = {}
    for k, v in ng:
        ds = list(v)
        rng.shuffle(ds)
        d['neighbour_graph'][k] = {x: rng.sample(v[x], len(v[x])) for x in ds}
    return d


def canon(x):
    return repr(x)


def report(obs, f, a, b, want, what, skip=()):
    """geometries the comparator reports, in both return types"""
    # None means by default the whole table
    for rt in (None, 'df', 'dataframe', 'id'):
        if rt == 'dataframe' and len(want) % 3:
            continue
        got = f(a, b) if rt is None else f(a, b, return_type=rt)
        geoms = [g for g in got.index if g not in skip]
        obs.check(sorted(geoms) == sorted(want), what, 'reports %d of the %d differing cells and %d others (%s)' % (
            len(set(geoms) & set(want)), len(want), len([g for g in geoms if g not in want]), what),
            missing=sorted(set(want) - set(geoms))[:3], extra=[g for g in geoms if g not in want][:3], rt=rt)
        idof = {c['geometry']: c['id'] for c in b['cellboxes']}
        if len(got.index):
            col = got if rt == 'id' else got['id']
            obs.check([str(x) for x in col] == [str(idof.get(g)) for g in got.index], what + '-id', 'the ids reported are not those of the cells', got=[str(x) for x in col][:5])


def run_case(case, obs):
    from meshiphi.mesh_validation.mesh_comparator import MeshComparator
    rng = obs.rng
    a, attrs = base(case, obs, rng)
    kind = case['kind']
    b = copy.deepcopy(a)
    bounds, bounds_back, vals, attr, graph, skip_vals = set(), set(), set(), set(), set(), set()
    common = [c for c in b['cellboxes']]
    kinds = [kind] if kind not in ('mixed', 'self') else ([] if kind == 'self' else ['bounds', 'values', 'attributes', 'graph', 'reorder'])
    n = len(common)
    if 'bounds' in kinds and n > 1:
        for c in rng.sample(common, rng.randint(0, max(0, min(2, n - 1)))):
            b['cellboxes'].remove(c)
            common.remove(c)
            if not any(x['id'] == c['id'] for x in b['cellboxes']):
                b['neighbour_graph'].pop(c['id'], None)
            bounds_back.add(c['geometry'])
        ids = {int(c['id']) for c in a['cellboxes']}
        for k in range(rng.randint(0, 3)):
            c = copy.deepcopy(rng.choice(common))
            y = 60.0 + k * rng.choice([2, 0.5])
            c['geometry'] = 'POLYGON ((0.0 %r, 0.0 %r, 0.5 %r, 0.5 %r, 0.0 %r))' % (y, y + 0.5, y + 0.5, y, y)
            c['id'] = str(max(ids) + 1)
            ids.add(max(ids) + 1)
            b['cellboxes'].insert(rng.randint(0, len(b['cellboxes'])), c)
            b['neighbour_graph'][c['id']] = {str(d): [] for d in (1, 2, 3, 4, -1, -2, -3, -4)}
            bounds.add(c['geometry'])
        obs.count('planted_bounds', len(bounds) + len(bounds_back))
    if 'values' in kinds:
        for c in rng.sample(common, rng.randint(0, min(4, len(common)))):
            ks = [k for k in c if k in [x[0] for x in attrs] + (['cx'] if rng.random() < 0.1 else [])]
            for k in rng.sample(ks, min(len(ks), rng.randint(1, 2))):
                c[k] = bigger(rng, c[k])
                vals.add(c['geometry'])
                obs.count('planted_value')
        for c in common:
            if c['geometry'] not in vals and rng.random() < 0.6:
                for k in [x[0] for x in attrs]:
                    if k in c:
                        w = smaller(rng, c[k])
                        obs.count('planted_below', canon(w) != canon(c[k]))
                        c[k] = w
    if 'attributes' in kinds:
        for c in rng.sample(common, rng.randint(0, min(3, len(common)))):
            t = rng.choice(['add', 'drop', 'rename'])
            ks = [x[0] for x in attrs if x[0] in c]
            if t != 'add' and not ks:
                continue
            if t == 'add':
                c['extra%d' % rng.randint(0, 1)] = num(rng)
            elif t == 'drop':
                del c[rng.choice(ks)]
            else:
                k = rng.choice(ks)
                pos = list(c).index(k)
                items = [('renamed' if x == k else x, v) for x, v in c.items()]
                c.clear()
                c.update(items)
            attr.add(c['geometry'])
            skip_vals.add(c['geometry'])
            obs.count('planted_attr')
    if 'graph' in kinds:
        byid = {}
        for c in common:
            byid.setdefault(c['id'], c)
        ok = [i for i in b['neighbour_graph'] if i in byid]
        for i in rng.sample(ok, rng.randint(0, min(4, len(ok)))):
            nb = b['neighbour_graph'][i]
            d = rng.choice(list(nb))
            t = rng.choice(['add', 'drop', 'move', 'swap'])
            nz = [x for x in nb if nb[x]]
            if t == 'add' or not nz:
                nb[d] = nb[d] + [100000]
            else:
                d = rng.choice(nz)
                if t == 'swap':
                    nb[d] = nb[d][:-1] + [100001]
                else:
                    x = nb[d].pop()
                    if t == 'move':
                        e = rng.choice([q for q in nb if q != d])
                        nb[e] = nb[e] + [x]
            before = {k: sorted(v) for k, v in a['neighbour_graph'][i].items()}
            if before != {k: sorted(v) for k, v in nb.items()}:
                graph.add(byid[i]['geometry'])
                obs.count('planted_graph')
    if 'reorder' in kinds:
        b = shuffled(rng, b)
        obs.count('reordered')
    mc = MeshComparator()
    a0, b0 = canon(a), canon(b)
    obs.count('pairs')
    report(obs, mc.compare_cellbox_boundaries, a, b, bounds, 'boundaries')
    report(obs, mc.compare_cellbox_boundaries, b, a, bounds_back, 'boundaries')
    report(obs, mc.compare_cellbox_values, a, b, vals - skip_vals, 'values', skip=skip_vals)
    report(obs, mc.compare_cellbox_values, b, a, vals - skip_vals, 'values', skip=skip_vals)
    report(obs, mc.compare_cellbox_attributes, a, b, attr, 'attributes')
    report(obs, mc.compare_cellbox_attributes, b, a, attr, 'attributes')
    report(obs, mc.compare_neighbour_graph_values, a, b, graph, 'neighbours')
    report(obs, mc.compare_neighbour_graph_values, b, a, graph, 'neighbours')
    obs.check(canon(a) == a0 and canon(b) == b0, 'inputs', 'comparing modified the meshes')
    if not (bounds or bounds_back or vals or attr or graph):
        obs.count('quiet')
    obs.state(kind, len(bounds), len(vals), len(attr), len(graph), tuple(sorted(t for _, t, _ in attrs)))
    obs.nontrivial = bool(common)
