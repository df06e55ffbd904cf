"""Cases: (mesh) vector sources, tabular (one or more files) and gridded with a
time axis, in refined meshes; (direct) a loader asked for arbitrary boundaries,
every statistic. Non-trivial when some boundary holds data. Monitor: values
against per-component statistics, and the extreme-magnitude point, of the raw
points selected by the window rule; MEDIAN must be refused."""
import json
import math

from mon import core, gen, ref
from mon.props.c05 import wrap_w, ddof

KINDS = [('mesh:' + k, w) for k, w in [('plain', 2), ('anti', 2), ('global', 1), ('wide', 1), ('touch_e', 1), ('pole', 1)]] + \
        [('direct:' + k, w) for k, w in [('plain', 2), ('anti', 3), ('global', 1), ('wide', 1), ('touch_e', 1), ('touch_w', 1)]]
AGGS = ['MIN', 'MAX', 'MEAN', 'STD', 'COUNT']
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = dict({'big_cases': 2, 'values': 2000, 'values_with_data': 800, 'gridded': 300, 'multi_file': 100, 'median_refused': 50, 'half_missing': 150, 'keep_missing': 30}, **{'agg_' + a: 100 for a in AGGS})


def cases(tier, seed):
    return core.mkcases('C07', KINDS, tier, seed, 1600, 10000)


def expect(sel, agg, form):
    """-> list of acceptable (x, y)"""
    good = [tuple(p['v']) for p in sel if not any(ref.isnan(x) for x in p['v'])]
    nan = float('nan')
    if agg in ('MEAN', 'STD', 'COUNT'):
        out = [tuple(ref.stat([p['v'][i] for p in sel], agg, ddof(form)) for i in (0, 1))]
        if not good and agg != 'COUNT':
            out.append((nan, nan))      # only vectors with a missing component
        return out
    if not good:
        return [(nan, nan)]
    m = [math.hypot(*v) for v in good]
    ext = min(m) if agg == 'MIN' else max(m)
    return [v for v, k in zip(good, m) if abs(k - ext) <= 1e-9 * max(1, ext)]


def ok(got, names, want):
    return any(all(ref.close(got[n], w) for n, w in zip(names, v)) for v in want)


def note(obs, s, sel, agg):
    obs.count('values')
    obs.count('values_with_data', any(not ref.isnan(p['v'][0]) for p in sel))
    obs.count('half_missing', any(ref.isnan(p['v'][0]) != ref.isnan(p['v'][1]) for p in sel))
    obs.count('gridded', s.form == 'xr')
    obs.count('multi_file', len(s.params['files']) > 1)
    obs.count('agg_' + agg)


def run_case(case, obs):
    mode, kind = case['kind'].split(':')
    rng = obs.rng
    r = gen.region(rng, kind, max_cols=4, max_rows=3)
    west = r['long_min']
    if mode == 'mesh':
        drv = gen.scalar_source(rng, obs.scratch, r, 'drv', n=40, time=False, nan=0, conds=[dict(threshold=0, lower_bound=0, upper_bound=1)])
        s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], fill='Nan', partial=True)
        doc = json.loads(json.dumps(gen.build(gen.config(r, [drv, s], rng.choice([0, 1, 2]), 2)).to_json()))
        cells = ref.parse_cells(doc, west)
        obs.sample = dict(region=r, form=s.form, agg=s.agg, points=len(s.pts), cells=len(cells))
        for c in cells:
            sel = ref.select(s.pts, c, west, gen.START, gen.END)
            note(obs, s, sel, s.agg)
            want = expect(sel, s.agg, s.form)
            obs.check(all(n in c.raw for n in s.names) and ok(c.raw, s.names, want), 'value:' + s.agg,
                      '%s of %s source in %r is %r, should be %r' % (s.agg, s.form, c, {n: c.raw.get(n) for n in s.names}, want[:3]),
                      region=r, points=[(p['lat'], p['long'], p['time'], p['v']) for p in sel][:12])
            obs.check('uC,vC' not in c.raw, 'stray', 'stray attribute named after both components')
        return
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([6, 20, 60, 120]), partial=True)
    bnd = Boundary([r['lat_min'], r['lat_max']], [r['long_min'], r['long_max']], [gen.START, gen.END])
    loader = DataLoaderFactory.get_dataloader(s.loader, bnd, json.loads(json.dumps(s.params)), min_dp=5)
    nx, ny = gen.size(r)
    obs.sample = dict(region=r, form=s.form, points=len(s.pts))
    last = None
    for _ in range(10):
        div = rng.choice([1, 2, 4])
        i0, j0 = rng.randint(0, nx * div - 1), rng.randint(0, ny * div - 1)
        i1, j1 = rng.randint(i0 + 1, nx * div), rng.randint(j0 + 1, ny * div)
        cw, ch = r['cell_width'] / div, r['cell_height'] / div
        c = ref.Cell(r['lat_min'] + j0 * ch, r['lat_min'] + j1 * ch, i0 * cw, i1 * cw)
        if last and rng.random() < 0.3:
            c = last
        if c.u1 - c.u0 >= 360:
            continue
        last = c
        t0, t1 = gen.START, gen.END
        if s.pts[0]['time'] is not None and rng.random() < 0.5:
            t0, t1 = sorted(rng.sample([gen.day(k) for k in (0, 1, 4, 5, 8, 9)], 2))
            if rng.random() < 0.15:     # one single day
                t0 = t1 = gen.day(rng.choice([1, 4, 5, 8, 9]))
                obs.count('one_day')
        b = Boundary([c.lat0, c.lat1], [wrap_w(west + c.u0), ref.wrap_e(west + c.u1)], [t0, t1])
        sel = ref.select(s.pts, c, west, t0, t1)
        for agg in rng.sample(AGGS, 3):
            note(obs, s, sel, agg)
            obs.state(west, c.rect, agg, len(sel))
            want = expect(sel, agg, s.form)
            pre = loader.trim_datapoints(b) if rng.random() < 0.3 else None
            if agg not in ('MIN', 'MAX') and rng.random() < 0.3 and not any(ref.isnan(p['v'][0]) != ref.isnan(p['v'][1]) for p in sel):
                full = want
                if agg == 'COUNT':
                    full = [(float(len(sel)),) * 2]
                elif any(ref.isnan(p['v'][0]) for p in sel):
                    full = [(float('nan'),) * 2]
                got = loader.get_value(b, agg_type=gen.anycase(rng, agg), data=pre, skipna=False)
                obs.count('keep_missing', any(ref.isnan(p['v'][0]) for p in sel))
                obs.check(set(got) == set(s.names) and ok(got, s.names, full), 'keep:' + agg,
                          '%s of %s source keeping missing values over %s is %r, should be %r' % (agg, s.form, b, got, full[:3]))
            got = loader.get_value(b, agg_type=gen.anycase(rng, agg), data=pre)
            obs.check(set(got) == set(s.names) and ok(got, s.names, want), 'value:' + agg,
                      '%s of %s source over %s is %r, should be %r' % (agg, s.form, b, got, want[:3]),
                      points=[(p['lat'], p['long'], p['time'], p['v']) for p in sel][:12])
        if any(not ref.isnan(p['v'][0] + p['v'][1]) for p in sel):
            obs.count('median_refused')
            with obs.expect_raise('median', 'MEDIAN of vectors was not refused', ValueError):
                loader.get_value(b, agg_type='MEDIAN')
