"""Cases: a refined mesh (plain, crossing or touching the antimeridian, global)
and a sequence of one to three further refined meshes placed inside, on edges
and corners, over the antimeridian, sticking out, adjacent or apart; plus
misaligned ones. Non-trivial when a merge replaces or adds cells. Monitor: an
executable model of the merge by geometry (which cells stay, which come), ids,
adjacency, and snapshots of both inputs."""
import json

from mon import core, gen, ref

KINDS = [('plain', 4), ('anti', 3), ('global', 2), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('bad', 2), ('overhang', 0.2)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'large_ids': 20, 'big_cases': 2, 'live_first': 100, 'live_second': 200, 'second_was_split': 200, 'second_was_merged': 200, 'merges': 100, 'second_merges': 30, 'replaced_cells': 300, 'kept_cells': 300, 'place_inside': 10, 'place_corner': 5,
           'place_out': 10, 'place_adjacent': 5, 'place_all': 3, 'over_seam': 20, 'refusals_expected': 20, 'refined_seconds': 20, 'dressed': 60, 'shuffled': 50, 'split_first': 50}
ASSUMPTIONS = ['no cell is wider than 120 degrees, so no two cells meet on both sides', 'cells of the second mesh are no larger than the first mesh\'s initial cells when a further merge follows, so that alignment with the initial cells implies that no cell straddles the merged region']


def cases(tier, seed):
    return core.mkcases('C11', KINDS, tier, seed, 2000, 8000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def second_region(rng, r, obs=None, coarse=False, place=None):
    """a region aligned with the cells of r"""
    w, h = r['cell_width'], r['cell_height']
    nx, ny = gen.size(r)
    W = nx * w
    glob = gen.reg_kind(r) == 'global'
    place = place or rng.choice(['inside', 'inside', 'corner', 'out', 'adjacent', 'all', 'any', 'seam', 'seam'])
    seam = (180 - r['long_min']) / w      # column at which the seam lies
    if place == 'all':
        i0, i1, j0, j1 = 0, nx, 0, ny
        if glob and rng.random() < 0.5:
            i1 = nx - 1
    elif place == 'corner':
        i0 = rng.choice([0, nx - 1])
        j0 = rng.choice([0, ny - 1])
        i1, j1 = i0 + 1, j0 + 1
    elif place == 'adjacent':
        i0, j0 = rng.choice([(-1, rng.randint(0, ny - 1)), (nx, rng.randint(0, ny - 1)), (rng.randint(0, nx - 1), -1), (rng.randint(0, nx - 1), ny),
                             (-1, -1), (nx, ny), (-1, ny), (nx, -1)])
        i1, j1 = i0 + 1, j0 + 1
    elif place == 'out':
        i0, j0 = rng.randint(-1, nx - 1), rng.randint(-1, ny - 1)
        i1, j1 = i0 + rng.randint(1, 3), j0 + rng.randint(1, 3)
    elif place == 'seam' and (glob or 0 < seam < nx):
        i0 = int(seam) - rng.randint(0, 1)
        i1 = i0 + rng.randint(1, 2)
        j0 = rng.randint(0, ny - 1)
        j1 = rng.randint(j0 + 1, ny)
    else:
        i0, j0 = rng.randint(0, nx - 1), rng.randint(0, ny - 1)
        i1, j1 = rng.randint(i0 + 1, nx), rng.randint(j0 + 1, ny)
    if 360 % w and (nx + 4) * w > 360:
        # this one, or one merged later on the other side (-1 .. nx + 2), would
        # come round to the other side of the mesh, out of step with its cells
        i0 = max(0, min(i0, nx - 1))
        i1 = max(i0 + 1, min(i1, nx))
    # keep on the globe
    la0, la1 = r['lat_min'] + j0 * h, r['lat_min'] + j1 * h
    if la0 < -90 or la1 > 90:
        j0, j1 = 0, ny
        la0, la1 = r['lat_min'], r['lat_max']
    n2 = min(i1 - i0, int(360 // w))
    lo0 = r['long_min'] + i0 * w
    lo1 = lo0 + n2 * w

    def wr(x, west):
        while x > 180 or (west and x == 180):
            x -= 360
        while x < -180 or (not west and x == -180):
            x += 360
        return x
    full = n2 * w >= 360
    if full:
        lo0, lo1 = -180, 180
    else:
        lo0, lo1 = wr(lo0, True), wr(lo1, False)
    k = rng.choice([1, 1, 2, 4])
    kw, kh = w / k, h / rng.choice([1, 1, 2])
    if coarse and rng.random() < 0.3 and w * n2 <= 120:
        kw, kh = (w * n2 if not full else w), h * (j1 - j0)
    if obs is not None:
        obs.count('place_' + place)
        obs.count('over_seam', lo0 >= lo1)
    if rng.random() < 0.15 and not full:     # the antimeridian by its other name
        lo0, lo1 = (180 if lo0 == -180 else lo0), (-180 if lo1 == 180 and lo0 != -180 else lo1)
    return dict(lat_min=la0, lat_max=la1, long_min=lo0, long_max=lo1, start_time=gen.START, end_time=gen.END,
                cell_width=kw, cell_height=kh)


def mk(rng, obs, r, depth=None):
    return json.loads(json.dumps(live(rng, obs, r, depth).to_json()))


def live(rng, obs, r, depth=None):
    srcs = [gen.scalar_source(rng, obs.scratch, r, rng.choice(['q0', 'q1']), n=rng.choice([12, 40, 80]), time=False,
                              conds=[dict(threshold=0, lower_bound=0, upper_bound=1)])]
    return gen.build(gen.config(r, srcs, rng.choice([0, 1, 1, 2]) if depth is None else depth, rng.choice([0, 1])))


def inside(c, r2, west):
    u0 = (r2['long_min'] - west) % 360
    W2 = ref.width(r2['long_min'], r2['long_max'])
    d = (c.u0 - u0) % 360
    return r2['lat_min'] <= c.lat0 and c.lat1 <= r2['lat_max'] and d + (c.u1 - c.u0) <= W2


def run_case(case, obs):
    rng = obs.rng
    if case['kind'] == 'bad':
        return bad(case, obs)
    r = gen.region(rng, 'plain' if case['kind'] == 'overhang' else case['kind'], max_cols=4, max_rows=3)
    if rng.random() < 0.25:      # built and never loaded
        first = live(rng, obs, r)
        obs.count('live_first')
    else:
        first = gen.load(gen.dress(rng, mk(rng, obs, r), obs))
    for _ in range(rng.choice([0, 0, 0, 1, 3])):      # ids with holes
        first.split_and_replace(str(rng.choice(first.agg_cellboxes).get_id()))
        obs.count('split_first')
    west = r['long_min']
    obs.nontrivial = False
    places = []
    nm = rng.choice([1, 1, 2, 3])
    for k in range(nm):
        r2 = second_region(rng, r, obs, coarse=k == nm - 1)
        places.append({x: r2[x] for x in ('lat_min', 'lat_max', 'long_min', 'long_max', 'cell_width', 'cell_height')})
        if rng.random() < 0.25:
            second = live(rng, obs, r2)
            obs.count('live_second')
        else:
            second = gen.load(gen.dress(rng, mk(rng, obs, r2), obs))
        past = rng.choice(['', '', '', 'split', 'merged'])
        if case['kind'] == 'overhang':
            r3 = second_region(rng, r2, place=rng.choice(['adjacent', 'out']))
            second.merge_mesh(gen.load(mk(rng, obs, r3, 0)))
        elif past == 'split':
            second.split_and_replace(str(rng.choice(second.agg_cellboxes).get_id()))
            obs.count('second_was_split')
        elif past == 'merged':
            second.merge_mesh(gen.load(mk(rng, obs, second_region(rng, r2, place=rng.choice(['inside', 'corner', 'all'])))))
            obs.count('second_was_merged')
        doc2 = json.loads(json.dumps(second.to_json()))
        if len(doc2['cellboxes']) > gen.size(r2)[0] * gen.size(r2)[1]:
            obs.count('refined_seconds')
        before2 = canon(second.to_json())
        before1 = first.to_json()
        first.merge_mesh(second)
        after = json.loads(json.dumps(first.to_json()))
        obs.count('merges')
        obs.count('second_merges', k > 0)
        obs.check(canon(second.to_json()) == before2, 'second-modified', 'merging modified the second mesh')
        # model
        old = ref.parse_cells(before1, west)
        keep = [c for c in old if not inside(c, r2, west)]
        new = ref.parse_cells(doc2, west)
        obs.count('kept_cells', len(keep))
        obs.count('replaced_cells', len(old) - len(keep))
        obs.nontrivial |= len(old) != len(keep) or bool(new)
        got = ref.parse_cells(after, west)
        ids = [c.id for c in got]
        obs.check(len(ids) == len(set(ids)), 'ids', 'duplicate ids after merging: %s' % sorted(i for i in set(ids) if ids.count(i) > 1)[:5])
        obs.check(all(str(cb.get_id()) == str(c['id']) for cb, c in zip(first.agg_cellboxes, after['cellboxes'])), 'ids-json', 'ids in the document differ from those of the cells')
        for cb in first.agg_cellboxes:
            x = cb.get_agg_data().get('id', cb.get_id())
            obs.check(str(x) == str(cb.get_id()), 'ids-data', 'cell %s carries the id %s in its data' % (cb.get_id(), x))
        want = sorted([sig(c, True) for c in keep] + [sig(c, False) for c in new])
        have_ids = {c.id for c in keep}
        have = sorted(sig(c, c.id in have_ids and not insider(c, r2, west)) for c in got)
        if not obs.check(have == want, 'cells', 'cells after merging are not those of the first outside plus those of the second'):
            obs.violations[-1]['detail'] = 'missing %s, extra %s' % ([x for x in want if x not in have][:3], [x for x in have if x not in want][:3])
        errs = overlaps(got)
        obs.check(not errs, 'overlap', 'merged cells overlap: %s' % errs[:2])
        errs = ref.graph_errors(after, got, 360)
        obs.check(not errs, 'graph:' + (errs[0][0] if errs else ''), 'graph after merge %d disagrees with geometry: %s' % (k + 1, errs[:3]),
                  first=r, second=r2)
        obs.state(ref.shape_sig(got))
        merged = after['config']['mesh_info'].get('merged', [])
        if case['kind'] == 'overhang' and obs.violations:
            # one finding, whatever it shows as
            v = obs.violations[0]
            obs.violations[:] = []
            return obs.fail('overhang', 'the second mesh, itself merged, reaches beyond the region it was built for: ' + v['msg'])
        obs.check(len(merged) == k + 1 and canon(merged[-1]) == canon(doc2['config']['mesh_info']), 'config', 'the merged configuration is not recorded')
        if obs.violations:
            break
    obs.sample = dict(first=r, merged=places)


insider = inside


def sig(c, with_id):
    d = {k: v for k, v in c.raw.items() if k != 'id'}
    return (canon(d), str(c.raw['id']) if with_id else '')


def overlaps(cells):
    errs = []
    for i, a in enumerate(cells):
        for b in cells[i + 1:]:
            if a.lat0 < b.lat1 and b.lat0 < a.lat1:
                if any(a.u0 < b.u1 + s and b.u0 + s < a.u1 for s in (0, 360, -360)):
                    errs.append('%r and %r' % (a, b))
                    if len(errs) > 3:
                        return errs
    return errs


def bad(case, obs):
    rng = obs.rng
    r = gen.region(rng, rng.choice(['plain', 'anti', 'touch_e']), max_cols=4, max_rows=3)
    first = gen.load(mk(rng, obs, r, 1))
    r2 = second_region(rng, r)
    w, h = r['cell_width'], r['cell_height']
    kind = rng.choice(['shift_long', 'shift_lat', 'width', 'height'])
    f = rng.choice([0.5, 0.25])
    if kind == 'shift_long':
        r2['long_min'] = ref.wrap_e(r2['long_min'] + w * f)
        r2['long_max'] = ref.wrap_e(r2['long_max'] + w * f)
    elif kind == 'shift_lat':
        s = -1 if r2['lat_max'] + h * f > 90 else 1
        r2['lat_min'] += s * h * f
        r2['lat_max'] += s * h * f
        if r2['lat_min'] < -90:
            return
    elif kind == 'width':
        W = w * (1 + f)
        r2['long_max'] = ref.wrap_e(r2['long_min'] + W)
        r2['cell_width'] = W
    else:
        H = h * (1 + f)
        r2['lat_max'] = r2['lat_min'] + H
        r2['cell_height'] = H
        if r2['lat_max'] > 90:
            return
    second = gen.load(gen.build(gen.config(r2, [], 0, 1)).to_json())
    b1, b2 = canon(first.to_json()), canon(second.to_json())
    obs.nontrivial = True
    obs.sample = dict(first=r, second=r2, misaligned=kind)
    obs.state(kind, canon(r), canon(r2))
    with obs.expect_raise('accepted-misaligned', 'a misaligned mesh (%s) was merged: %s into %s' % (kind, r2, r)):
        first.merge_mesh(second)
    obs.check(canon(first.to_json()) == b1 and canon(second.to_json()) == b2, 'refused-but-changed', 'a refused merge changed a mesh')
