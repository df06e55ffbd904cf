"""Cases: (coverage) scalar and vector tables and grids, and polygons, asked for
the share of random boundaries they cover; (parts) the magnitude and direction
kept for every vector, and those added to a table or grid handed over, with
names of its own; (spread) curl and difference from the mean over random
boundaries as a field, a mean and an extreme, with and without the points handed
over; (names) components renamed. Non-trivial when a value was computed from
data. Monitor: recomputed from the raw points and polygons."""
import json
import math
import os

import numpy as np
import pandas as pd

from mon import core, gen, ref
from mon.props import _lut, c09, c20

KINDS = [('coverage:df', 3), ('coverage:xr', 3), ('coverage:lut', 3), ('parts', 3), ('spread:dmag', 4), ('spread:curl', 4), ('names', 2)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'coverage_df': 300, 'coverage_xr': 300, 'coverage_lut': 300, 'coverage_partial': 300, 'coverage_zero': 50, 'coverage_full': 50,
           'vectors': 2000, 'handed_over': 60, 'dmag_fields': 200, 'curl_fields': 100, 'dmag_MEAN': 100, 'dmag_MAX': 100, 'curl_MEAN': 50, 'curl_MAX': 50,
           'curl_negative_extreme': 10, 'refused': 20, 'renamed': 20}
ASSUMPTIONS = ['coverage is judged on regions that do not cross the antimeridian, for data of at least two latitudes and longitudes',
               'curl is judged on lattices of points, per step of the lattice, as the code defines it']


def cases(tier, seed):
    return core.mkcases('C28', KINDS, tier, seed, 1400, 9000)


def run_case(case, obs):
    mode, _, how = case['kind'].partition(':')
    obs.nontrivial = False
    dict(coverage=coverage, parts=parts, spread=spread, names=names)[mode](obs, how)


def make(s, r, mindp=5):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    return DataLoaderFactory.get_dataloader(s.loader, c20.bounds(r), json.loads(json.dumps(s.params)), min_dp=mindp)


def whole(r):
    return ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max']))


def pieces(obs, r, n=6):
    out = [whole(r)]
    for _ in range(n):
        out.append(_lut.rand_cell(obs.rng, r))
    return out


def coverage(obs, how):
    rng = obs.rng
    r = gen.region(rng, 'plain', max_cols=3, max_rows=3)
    west = r['long_min']
    if how == 'lut':
        for _ in range(20):
            rws = _lut.rows(rng, r, rng.choice([1, 2, 4]), nan=0.1)
            if _lut.covered(rws, r):
                break
        else:
            return
        from shapely.ops import unary_union
        ld = _lut.make_loader(_lut.boundary(whole(r), west, (gen.START, gen.END)), rws)
        allp = unary_union([x['poly'] for x in rws])
        for c in pieces(obs, r):
            cp = _lut.cell_poly(c, west)
            want = allp.intersection(cp).area / cp.area
            b = _lut.boundary(c, west, (gen.START, gen.END))
            arg = {} if rng.random() < 0.6 else dict(data=ld.data) if rng.random() < 0.5 else dict(data=ld.data['geometry'])
            judge(obs, 'lut', ld.calculate_coverage(b, **arg), want, c)
        none = ld.data.iloc[:0]
        judge(obs, 'lut', ld.calculate_coverage(_lut.boundary(whole(r), west), data=none), 0, 'no polygons')
        obs.nontrivial = True
        return
    vec = rng.random() < 0.4
    kw = dict(form=how, n=rng.choice([6, 12, 30]), nan=rng.choice([0, 0.1, 0.5, 0.8]))
    s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], **kw) if vec else gen.scalar_source(rng, obs.scratch, r, 'q', conds=[], **kw)
    ld = make(s, r)
    inside = [p for p in ref.select(s.pts, whole(r), west, gen.START, gen.END) if not ref.isnan(p['v'][0])]
    lats, us = [p['lat'] for p in inside], [p['long'] for p in inside]
    obs.sample = dict(region=r, form=how, vector=vec, points=len(s.pts), with_value=len(inside))
    if not inside or min(lats) == max(lats) or min(us) == max(us):
        return
    obs.nontrivial = True
    # a loader keeps the points of its region (all of them when they cover nothing of it)
    for c in pieces(obs, r):
        sub = None
        pts = inside
        b = _lut.boundary(c, west, (gen.START, gen.END))
        if rng.random() < 0.4:              # the extent of a part of the data, handed over
            c2 = _lut.rand_cell(rng, r)
            sub = ld.trim_datapoints(_lut.boundary(c2, west, (gen.START, gen.END)))
            pts = [p for p in ref.select(s.pts, c2, west, gen.START, gen.END) if not ref.isnan(p['v'][0])]
        if pts and (len({p['lat'] for p in pts}) < 2 or len({p['long'] for p in pts}) < 2):
            continue
        if not pts:
            want = 0
        else:
            la0, la1 = min(p['lat'] for p in pts), max(p['lat'] for p in pts)
            lo0, lo1 = min(p['long'] for p in pts), max(p['long'] for p in pts)
            h = max(0, min(la1, c.lat1) - max(la0, c.lat0))
            w = max(0, min(lo1, west + c.u1) - max(lo0, west + c.u0))
            want = h * w / ((c.lat1 - c.lat0) * (c.u1 - c.u0))
        judge(obs, how, ld.calculate_coverage(b) if sub is None else ld.calculate_coverage(b, data=sub), want, c)


def judge(obs, how, got, want, where):
    obs.count('coverage_' + how)
    obs.count('coverage_zero', want == 0)
    obs.count('coverage_full', abs(want - 1) < 1e-9)
    obs.count('coverage_partial', 1e-9 < want < 1 - 1e-9)
    obs.state(how, round(float(want), 3))
    obs.check(ref.close(float(got), float(want), 1e-8), 'coverage:' + how, 'the data covers %r of %s, not %r' % (want, where, got))


def flat(x):
    return [float(v) for v in np.asarray(x).ravel()]


def same_bag(a, b):
    a, b = sorted(a), sorted(b)
    return len(a) == len(b) and all(ref.close(x, y, 1e-7) for x, y in zip(a, b))


def mag_dir_ok(obs, data, x, y, n, what):
    xs, ys = flat(data[x]), flat(data[y])
    ms, ds = flat(data['_magnitude']), flat(data['_direction'])
    bad = [(a, b, m, d) for a, b, m, d in zip(xs, ys, ms, ds)
           if not (ref.close(m, math.hypot(a, b)) and ref.close(d, math.atan2(b, a))) and not (ref.isnan(a) or ref.isnan(b))]
    bad += [(a, b, m, d) for a, b, m, d in zip(xs, ys, ms, ds) if (ref.isnan(a) or ref.isnan(b)) and not ref.isnan(m)]
    obs.count('vectors', len(xs))
    obs.check(len(xs) == len(ys) == len(ms) == len(ds) and (n is None or len(xs) == n), 'parts-count', '%s: %d vectors, %d magnitudes, %d directions' % (what, len(xs), len(ms), len(ds)))
    obs.check(not bad, 'parts', '%s: vectors with another magnitude or direction' % what, vectors=bad[:5])


def parts(obs, how):
    rng = obs.rng
    r = gen.region(rng, rng.choice(['plain', 'anti', 'touch_e']), max_cols=3, max_rows=3)
    s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([6, 20, 60]), nan=rng.choice([0, 0.2]), partial=rng.random() < 0.3, vmax=rng.choice([1, 8, 64]))
    ld = make(s, r)
    mag_dir_ok(obs, ld.data, 'uC', 'vC', None, 'loader of %s' % s.form)
    obs.state('parts', s.form, len(s.pts))
    # a data set handed over
    k = rng.randint(1, 12)
    v = [[rng.randint(-40, 40) / 4 for _ in range(k)] for _ in range(2)]
    a, b = rng.choice([('uC', 'vC'), ('vC', 'uC'), ('east', 'north'), ('y', 'x')])
    if rng.random() < 0.5:
        d = pd.DataFrame({'lat': range(k), 'long': range(k), a: v[0], b: v[1]})
    else:
        import xarray as xr
        d = xr.Dataset({a: (('lat', 'long'), [v[0]]), b: (('lat', 'long'), [v[1]])}, coords=dict(lat=[0.0], long=[float(i) for i in range(k)]))
    before = flat(ld.data['_magnitude'])
    out = ld.add_mag_dir(data=d) if (a, b) == ('uC', 'vC') and rng.random() < 0.5 else ld.add_mag_dir(data=d, data_names=[a, b])
    mag_dir_ok(obs, out, a, b, k, 'data handed over')
    obs.check(flat(out[a]) == v[0] and flat(out[b]) == v[1], 'parts-kept', 'the components of the data handed over changed')
    after = flat(ld.data['_magnitude'])
    obs.check(len(before) == len(after) and all(ref.close(x, y) for x, y in zip(before, after)), 'parts-own', 'the data of the loader changed')
    obs.count('handed_over')
    obs.nontrivial = True


def spread(obs, how):
    rng = obs.rng
    r = gen.region(rng, 'plain' if how == 'curl' else rng.choice(['plain', 'anti']), max_cols=3, max_rows=3)
    west = r['long_min']
    s = c09.lattice(rng, obs, r) if how == 'curl' else \
        gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([8, 20, 60]), nan=rng.choice([0, 0.2]), vmax=rng.choice([2, 8, 64]))
    ld = make(s, r)
    fn = ld.calc_curl if how == 'curl' else ld.calc_dmag
    obs.sample = dict(region=r, what=how, form=s.form, points=len(s.pts))
    for c in pieces(obs, r):
        b = _lut.boundary(c, west, (gen.START, gen.END))
        sel = ref.select(s.pts, c, west, gen.START, gen.END)
        good = [p for p in sel if not ref.isnan(p['v'][0])]
        q = c09.field(how, sel, good)
        arg = dict(data=ld.trim_datapoints(b)) if rng.random() < 0.4 else {}
        f = fn(b, collapse=False, **arg)
        got = [x for x in flat(f) if not ref.isnan(x)]
        obs.state(how, s.form, c.rect, len(q))
        obs.count(how + '_fields', bool(q))
        obs.nontrivial |= bool(q)
        obs.check(same_bag(got, q), 'field:' + how, '%s of the vectors in %r (%s) differs from its definition' % (how, c, s.form), got=sorted(got)[:6], want=sorted(q)[:6],
                  points=[(p['lat'], p['long'], p['time'], p['v']) for p in sel][:20])
        for agg in ['MEAN', 'MAX', None]:
            kw = {} if agg is None else dict(agg_type=agg)
            v = float(fn(b, **kw, **arg))
            a = agg or ('MAX' if how == 'curl' else 'MEAN')
            if not q:
                obs.check(ref.isnan(v), 'no-' + how, '%s %s without vectors is %r' % (a, how, v))
                continue
            obs.count('%s_%s' % (how, a))
            if a == 'MEAN':
                ok, want = ref.close(v, math.fsum(q) / len(q), 1e-7), math.fsum(q) / len(q)
            else:
                m = max(abs(x) for x in q)
                ok, want = any(ref.close(v, x, 1e-7) for x in q if ref.close(abs(x), m, 1e-7)), m
                obs.count('curl_negative_extreme', how == 'curl' and v < 0)
            obs.check(ok, '%s:%s' % (how, a), '%s %s in %r is %r, expected %r' % (a, how, c, v, want))
        if q and rng.random() < 0.3:
            obs.count('refused')
            with obs.expect_raise('agg', 'the %s of %s is not refused' % ('MIN', how), ValueError):
                fn(b, agg_type=rng.choice(['MIN', 'MEDIAN', 'sum']))


def names(obs, how):
    rng = obs.rng
    r = gen.region(rng, 'plain', max_cols=3, max_rows=3)
    s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([8, 20]), nan=0, agg='MEAN')
    ld = make(s, r)
    b = c20.bounds(r)
    old = ld.get_value(b)
    x, y = flat(ld.data['uC']), flat(ld.data['vC'])
    obs.check(ld.get_data_col_name() == 'uC,vC' and ld.get_data_col_name_list() == ['uC', 'vC'], 'names', 'the components are called %s' % ld.get_data_col_name())
    if rng.random() < 0.5:
        ld.data = ld.set_data_col_name_list(rng.choice([['vC', 'uC'], ['north', 'east'], ['p', 'P']]))
    new = rng.choice([['east', 'north'], ['a', 'b'], ['vC', 'uC'], ['uC', 'w']])
    ld.data = ld.set_data_col_name_list(list(new))
    obs.check(ld.get_data_col_name_list() == new, 'renamed', 'the components are called %s after renaming to %s' % (ld.get_data_col_name_list(), new))
    obs.check(flat(ld.data[new[0]]) == x and flat(ld.data[new[1]]) == y, 'renamed-data', 'renaming changed the data')
    got = ld.get_value(b)
    obs.check(list(got) == new and all(ref.close(float(g), float(o)) for g, o in zip(got.values(), old.values())), 'renamed-value',
              'values %s under the old names are %s under the new ones' % (old, got))
    for bad in (rng.choice([['a'], ['a', 'b', 'c'], [], ('a', 'b'), 'ab', ['a', 1], None]),):
        with obs.expect_raise('names-bad', 'the names %r are not refused' % (bad,), AssertionError):
            ld.set_data_col_name_list(bad)
    obs.count('renamed')
    obs.state('names', s.form, tuple(new))
    obs.nontrivial = True
