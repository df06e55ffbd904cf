"""Cases: loaded and freshly built meshes of all region kinds (some merged first) put through
sequences of cell splits and point splits; non-trivial when at least one split
happened. Monitor: before/after documents of each split against exact
quartering, a model of point splitting, and tiling and adjacency at the end."""
import json

from mon import core, gen, ref
from mon.props import c11

KINDS = [('plain', 3), ('anti', 3), ('global', 2), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('points:plain', 2), ('points:anti', 2), ('points:global', 1)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'many_points': 8, 'large_ids': 20, 'big_cases': 2, 'never_loaded': 100, 'splits': 300, 'seam_splits': 20, 'point_histories': 30, 'points_outside': 20, 'points_inside': 50, 'points_at_centres': 5, 'deep_splits': 50, 'dressed': 60, 'shuffled': 50, 'merged_first': 30, 'quarter_updates': 60}


def cases(tier, seed):
    return core.mkcases('C12', KINDS, tier, seed, 1500, 8000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def final(obs, doc, cells, r, what):
    W = ref.width(r['long_min'], r['long_max'])
    errs = ref.tiling_errors(cells, r['lat_min'], r['lat_max'], W)
    obs.check(not errs, 'tiling', 'cells no longer tile the region after %s: %s' % (what, errs[:3]))
    ids = [c.id for c in cells]
    obs.check(len(ids) == len(set(ids)), 'ids', 'duplicate ids after %s' % what)
    errs = ref.graph_errors(doc, cells, 360 if gen.reg_kind(r) == 'global' else None)
    obs.check(not errs, 'graph:' + (errs[0][0] if errs else ''), 'graph disagrees with geometry after %s: %s' % (what, errs[:3]))
    ref.check_fields(obs, doc)


def run_case(case, obs):
    rng = obs.rng
    points = case['kind'].startswith('points')
    kind = case['kind'].split(':')[-1]
    r, srcs, depth, mindp = gen.refining_workload(rng, obs.scratch, kind=kind, max_cols=4, max_rows=3)
    m = gen.build(gen.config(r, srcs, depth, mindp))
    doc = json.loads(json.dumps(m.to_json()))
    if rng.random() < 0.7:
        doc = gen.dress(rng, doc, obs)
        m = gen.load(doc)
    else:
        obs.count('never_loaded')
    if rng.random() < 0.25:
        r2 = c11.second_region(rng, r, place='inside')
        m.merge_mesh(gen.load(c11.mk(rng, obs, r2)))
        obs.count('merged_first')
    obs.sample = dict(region=r, cells=len(doc['cellboxes']), depth=depth)
    if points:
        return run_points(obs, m, r, depth)
    west = r['long_min']
    n = rng.choice([1, 2, 4, 8])
    last = None
    for k in range(n):
        before = m.to_json()
        cells = ref.parse_cells(before, west)
        t = rng.choice(cells)
        if last and rng.random() < 0.4:      # go deep next to or inside the last split
            near = [c for c in cells if c.id not in last]
            near = sorted(near, key=lambda c: -int(c.id))[:4]
            t = rng.choice(near)
            obs.count('deep_splits')
        last = {c.id for c in cells}
        obs.count('seam_splits', t.u0 % 360 < (180 - west) % 360 < t.u1 or 'MULTI' in t.raw['geometry'] or (t.u0 + west) % 360 == 180 or (t.u1 + west) % 360 == 180)
        m.split_and_replace(t.id)
        after = json.loads(json.dumps(m.to_json()))
        now = ref.parse_cells(after, west)
        obs.count('splits')
        # all other cells as they were
        ob = {c.id: canon(c.raw) for c in cells if c.id != t.id}
        nb = {c.id: canon(c.raw) for c in now if c.id in ob}
        obs.check(ob == nb, 'others', 'splitting %r changed other cells' % t)
        fresh = [c for c in now if c.id not in ob]
        obs.check(t.id not in {c.id for c in fresh}, 'reused-id', 'the split cell\'s id is still present')
        want = sorted(q.rect for q in t.quarters())
        obs.check(sorted(c.rect for c in fresh) == want, 'quarters', 'splitting %r gave %s' % (t, fresh))
        vals = {k2: v for k2, v in t.raw.items() if k2 not in ('geometry', 'cx', 'cy', 'dcx', 'dcy', 'id')}
        for c in fresh:
            got = {k2: v for k2, v in c.raw.items() if k2 not in ('geometry', 'cx', 'cy', 'dcx', 'dcy', 'id')}
            obs.check(canon(got) == canon(vals), 'values', 'a quarter of %r carries %s instead of %s' % (t, got, vals))
        if rng.random() < 0.3:      # quarters are cells of their own
            i = next(j for j, c in enumerate(m.agg_cellboxes) if str(c.get_id()) == fresh[0].id) if fresh else 0
            snap = {str(c.get_id()): canon(c.get_agg_data()) for c in m.agg_cellboxes}
            m.update_cellbox(i, {'touched': k})
            for c in m.agg_cellboxes:
                if c is not m.agg_cellboxes[i]:
                    obs.check(canon(c.get_agg_data()) == snap[str(c.get_id())], 'shared', 'updating one quarter changed cell %s' % c.get_id())
            obs.count('quarter_updates')
        final(obs, after, now, r, 'split %d of %d (%r)' % (k + 1, n, t))
        obs.state(ref.shape_sig(now))
        if obs.violations:
            break
    obs.nontrivial = True


def run_points(obs, m, r, depth):
    rng = obs.rng
    west = r['long_min']
    doc = m.to_json()
    cells = ref.parse_cells(doc, west)
    W = ref.width(r['long_min'], r['long_max'])
    mw, mh = r['cell_width'] / 2 ** depth, r['cell_height'] / 2 ** depth
    pts = []
    for _ in range(rng.randint(1, 5) if rng.random() < 0.8 else rng.randint(8, 24)):
        x = rng.random()
        if x < 0.65:
            c = rng.choice(cells)
            fx, fy = rng.choice([(1 / 3, 1 / 3), (0.7, 0.2), (0.1, 0.9), (0.45, 0.55), (rng.random(), rng.random())])
            if x < 0.2:
                fx, fy = rng.choice([(0.5, 0.5), (0.5, 0.3), (0.25, 0.75)])
                obs.count('points_at_centres')
            u, la = c.u0 + fx * (c.u1 - c.u0), c.lat0 + fy * (c.lat1 - c.lat0)
            obs.count('points_inside')
        else:
            la = rng.choice([r['lat_max'] + 1.1, r['lat_min'] - 3.7, (r['lat_min'] + r['lat_max']) / 2])
            u = W / 3 if not r['lat_min'] < la < r['lat_max'] else W + (360 - W) / 2
            if W >= 360 and r['lat_min'] < la < r['lat_max']:
                continue
            obs.count('points_outside')
        pts.append((la, ref.wrap_e(west + u), u))
    model = [(c, {k: v for k, v in c.raw.items() if k not in ('geometry', 'cx', 'cy', 'dcx', 'dcy', 'id')}) for c in cells]
    nsplit = 0
    # positions recomputed from the wrapped longitude, as the code sees it
    for la, lo, u in pts:
        u = (lo - west) % 360
        while True:
            hit = [x for x in model if x[0].lat0 < la < x[0].lat1 and x[0].u0 < u < x[0].u1]
            if not hit:
                break
            c, v = hit[0]
            if c.u1 - c.u0 <= mw or c.lat1 - c.lat0 <= mh:
                break
            model.remove(hit[0])
            model += [(q, v) for q in c.quarters()]
            nsplit += 1
    near = any(min(abs(u2 - e) for e in (x[0].u0, x[0].u1)) < 1e-9 for la, lo, _ in pts for u2 in [(lo - west) % 360] for x in model) or \
        any(min(abs(la - e) for e in (x[0].lat0, x[0].lat1)) < 1e-9 for la, _, _ in pts for x in model)
    m.split_points([(la, lo) for la, lo, _ in pts])
    after = json.loads(json.dumps(m.to_json()))
    now = ref.parse_cells(after, west)
    obs.count('point_histories')
    obs.count('many_points', len(pts) > 6)
    obs.count('point_splits', nsplit)
    obs.nontrivial = nsplit > 0
    obs.state(ref.shape_sig(now))
    exact = not near or all(((lo - west) * 4096).is_integer() and (la * 4096).is_integer() for la, lo, _ in pts)
    if exact:
        want = sorted((q.rect, canon(v)) for q, v in model)
        got = sorted((c.rect, canon({k: v for k, v in c.raw.items() if k not in ('geometry', 'cx', 'cy', 'dcx', 'dcy', 'id')})) for c in now)
        obs.check(got == want, 'points', 'splitting around %s gave %d cells, the model %d' % ([(a, b) for a, b, _ in pts], len(got), len(want)))
    final(obs, after, now, r, 'point splits')
