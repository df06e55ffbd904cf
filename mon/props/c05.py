"""Cases: (mesh) meshes of one or two scalar sources, tabular and gridded, dated
or not, every statistic; (direct) a loader asked for values of arbitrary
boundaries inside the region, including cells crossing or ending at the
antimeridian, every statistic, with and without preselected data. Non-trivial
when some boundary holds data. Monitor: each value against the statistic of the
points selected by the half-open window rule from the raw points."""
import json

from mon import core, gen, ref

KINDS = [('mesh:' + k, w) for k, w in [('plain', 2), ('anti', 2), ('global', 1), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('pole', 1)]] + \
        [('direct:' + k, w) for k, w in [('plain', 2), ('anti', 3), ('global', 1), ('wide', 1), ('touch_e', 1), ('touch_w', 1)]]
AGGS = ['MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT']
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = dict({'big_cases': 2, 'values': 3000, 'values_with_data': 1500, 'edge_points': 300, 'dated': 100, 'gridded': 100, 'seam_values': 50, 'rewritten': 10, 'same_place': 200, 'keep_missing': 100},
               **{'agg_' + a: 100 for a in AGGS})


def cases(tier, seed):
    return core.mkcases('C05', KINDS, tier, seed, 1800, 12000)


def ddof(form):
    return 1 if form == 'df' else 0


def note(obs, s, c, sel, agg):
    obs.count('values')
    obs.count('values_with_data', any(not ref.isnan(p['v'][0]) for p in sel))
    obs.count('edge_points', sum(p['lat'] == c.lat1 for p in sel))
    obs.count('dated', bool(s.pts) and s.pts[0]['time'] is not None)
    obs.count('gridded', s.form == 'xr')
    obs.count('agg_' + agg)


def run_case(case, obs):
    mode, kind = case['kind'].split(':')
    rng = obs.rng
    r = gen.region(rng, kind, max_cols=4, max_rows=3)
    west = r['long_min']
    if mode == 'mesh':
        # depth only driven by a dedicated source; 'Nan' fill so values are the cell's own
        srcs = [gen.scalar_source(rng, obs.scratch, r, 'q%d' % k, fill='Nan', vmax=rng.choice([4, 64])) for k in range(rng.choice([1, 2]))]
        depth = rng.choice([0, 1, 2])
        extra = []
        if rng.random() < 0.08:
            depth = rng.choice([3, 4, 5])
            extra = [gen.deep_source(rng, obs.scratch, r, 'deep')]
            srcs = srcs[:1]
            if srcs[0].conds and rng.random() < 0.7:
                srcs[0].params.pop('splitting_conditions', None)
        doc = json.loads(json.dumps(gen.build(gen.config(r, srcs + extra, depth, rng.choice([0, 2, 5]))).to_json()))
        cells = ref.parse_cells(doc, west)
        obs.sample = dict(region=r, sources=[(s.form, s.agg, len(s.pts)) for s in srcs], cells=len(cells))
        for s in srcs:
            for c in cells:
                sel = ref.select(s.pts, c, west, gen.START, gen.END)
                note(obs, s, c, sel, s.agg)
                obs.count('seam_values', west + c.u0 < 180 < west + c.u1 or west + c.u1 == 180)
                want = ref.stat([p['v'][0] for p in sel], s.agg, ddof(s.form))
                got = c.raw.get(s.names[0], 'absent')
                if ref.isnan(want) and got != 'absent' and not isinstance(got, str) and got is not None and ref.isnan(got):
                    obs.check(True, '', '')
                    continue
                obs.check(got != 'absent' and not (got is None) and ref.close(got, want), 'value:' + s.agg,
                          '%s of %s source in %r is %r, should be %r' % (s.agg, s.form, c, got, want), region=r,
                          points=[(p['lat'], p['long'], p['time'], p['v'][0]) for p in sel][:12])
        return
    from meshiphi.mesh_generation.boundary import Boundary
    s = gen.scalar_source(rng, obs.scratch, r, 'q', n=rng.choice([6, 20, 60, 150]), conds=[])
    bnd = Boundary([r['lat_min'], r['lat_max']], [r['long_min'], r['long_max']], [gen.START, gen.END])
    obs.sample = dict(region=r, form=s.form, points=len(s.pts))
    loader = direct(obs, rng, r, s, bnd, 12)
    if rng.random() < 0.2 and s.form == 'df' and not obs.violations:
        # the same files, now with other contents
        files = s.params.get('files') or [s.params['file']]
        for p in s.pts:
            p['v'] = [7.25 - 2 * x for x in p['v']]
        for k, f in enumerate(files):
            gen.write_csv(f, s.pts[k::len(files)], s.names)
        obs.count('rewritten')
        direct(obs, rng, r, s, bnd, 3)
    with obs.expect_raise('unknown-agg', 'an unknown statistic was accepted', ValueError):
        # only meaningful where there is data
        if not any(not ref.isnan(p['v'][0]) for p in ref.select(s.pts, ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max'])), west, gen.START, gen.END)):
            raise ValueError('no data')
        loader.get_value(bnd, agg_type='MODE')


def direct(obs, rng, r, s, bnd, n):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    west = r['long_min']
    loader = DataLoaderFactory.get_dataloader(s.loader, bnd, json.loads(json.dumps(s.params)), min_dp=5)
    nx, ny = gen.size(r)
    last = None
    for _ in range(n):
        div = rng.choice([1, 2, 4])
        i0, j0 = rng.randint(0, nx * div - 1), rng.randint(0, ny * div - 1)
        i1, j1 = rng.randint(i0 + 1, nx * div), rng.randint(j0 + 1, ny * div)
        cw, ch = r['cell_width'] / div, r['cell_height'] / div
        c = ref.Cell(r['lat_min'] + j0 * ch, r['lat_min'] + j1 * ch, i0 * cw, i1 * cw)
        if last and rng.random() < 0.3:      # the same place again, at another time
            c = last
            obs.count('same_place')
        if c.u1 - c.u0 >= 360:
            continue
        last = c
        lo, hi = wrap_w(west + c.u0), ref.wrap_e(west + c.u1)
        t0, t1 = gen.START, gen.END
        if s.pts[0]['time'] is not None and rng.random() < 0.5:
            t0, t1 = sorted(rng.sample([gen.day(k) for k in (0, 1, 4, 5, 8, 9)], 2))
            if rng.random() < 0.15:     # one single day
                t0 = t1 = gen.day(rng.choice([1, 4, 5, 8, 9]))
                obs.count('one_day')
        b = Boundary([c.lat0, c.lat1], [lo, hi], [t0, t1])
        sel = ref.select(s.pts, c, west, t0, t1)
        for agg in rng.sample(AGGS, 3):
            note(obs, s, c, sel, agg)
            obs.count('seam_values', west + c.u0 < 180 < west + c.u1 or west + c.u1 == 180)
            obs.state(r['long_min'], c.rect, agg, len(sel))
            want = ref.stat([p['v'][0] for p in sel], agg, ddof(s.form))
            pre = loader.trim_datapoints(b) if rng.random() < 0.3 else None
            if rng.random() < 0.2:      # told to keep missing values
                keep = [p['v'][0] for p in sel]
                full = float(len(keep)) if agg == 'COUNT' else float('nan') if any(ref.isnan(x) for x in keep) else want
                got = loader.get_value(b, data=pre, agg_type=gen.anycase(rng, agg), skipna=False)
                obs.count('keep_missing', any(ref.isnan(x) for x in keep))
                obs.check(set(got) == {'q'} and ref.close(got['q'], full), 'keep:' + agg,
                          '%s of %s source keeping missing values over %s..%s / %s..%s is %r, should be %r' % (agg, s.form, c.lat0, c.lat1, lo, hi, got, full))
            got = loader.get_value(b, data=pre, agg_type=gen.anycase(rng, agg))
            obs.check(set(got) == {'q'} and ref.close(got['q'], want), 'value:' + agg,
                      '%s of %s source over %s..%s / %s..%s is %r, should be %r' % (agg, s.form, c.lat0, c.lat1, lo, hi, got, want),
                      points=[(p['lat'], p['long'], p['time'], p['v'][0]) for p in sel][:12])
    return loader


def wrap_w(x):
    """angle in [-180, 180)"""
    return x - 360 if x >= 180 else x
