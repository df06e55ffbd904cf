"""Cases: loaders of every kind (scalar tabular/gridded, vector tabular/gridded,
user-defined polygon tables) asked for verdicts on random boundaries with
conditions whose bounds and thresholds are often hit exactly, with missing
values, small point counts and optional keys left out. Non-trivial when a
boundary reaches the data minimum (scalar/vector) or is judged at all (polygon).
Monitor: verdict recomputed from the raw points or polygons."""
import json
import math

import numpy as np

from mon import core, gen, ref
from mon.props import _lut
from mon.props.c05 import wrap_w

KINDS = [('scalar:plain', 3), ('scalar:anti', 2), ('scalar:global', 1), ('scalar:touch_e', 1),
         ('dmag:plain', 2), ('dmag:anti', 1.5), ('curl:plain', 3), ('lut:plain', 2), ('lut:anti', 1)]
BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'verdicts': 3000, 'scalar_CLR': 100, 'scalar_HET': 100, 'scalar_HOM': 50, 'scalar_tie': 50, 'vector_CLR': 50, 'vector_HET': 50,
           'vector_HOM': 20, 'curl_gridded': 30, 'dmag_gridded': 30, 'lut_CLR': 30, 'lut_HET': 50, 'lut_HOM': 10, 'below_minimum': 50}
ASSUMPTIONS = ['vector cases where missing values decide whether the data minimum is met are skipped (the text leaves it open)',
               'curl is checked on boundaries that do not cross the antimeridian, on points forming a lattice']


def cases(tier, seed):
    return core.mkcases('C09', KINDS, tier, seed, 2400, 9000)


def run_case(case, obs):
    mode, kind = case['kind'].split(':')
    rng = obs.rng
    r = gen.region(rng, kind, max_cols=3, max_rows=3)
    if mode == 'lut':
        return lut(case, obs, r)
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    west = r['long_min']
    mindp = rng.choice([0, 1, 2, 5, 8])
    bnd = Boundary([r['lat_min'], r['lat_max']], [r['long_min'], r['long_max']], [gen.START, gen.END])
    if mode == 'scalar':
        s = gen.scalar_source(rng, obs.scratch, r, 'q', conds=[], n=rng.choice([8, 20, 60, 150]), vmax=rng.choice([1, 2, 64]))
    elif mode == 'dmag':
        s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=rng.choice([8, 20, 60]), nan=rng.choice([0, 0.2]), vmax=rng.choice([2, 8, 64]))
    else:
        s = lattice(rng, obs, r)
    loader = DataLoaderFactory.get_dataloader(s.loader, bnd, json.loads(json.dumps(s.params)), min_dp=mindp)
    obs.nontrivial = False
    obs.sample = dict(region=r, mode=mode, form=s.form, points=len(s.pts), min_dp=mindp)
    for _ in range(12):
        c = _lut.rand_cell(rng, r)
        if rng.random() < 0.3:
            c = ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max']))
        b = _lut.boundary(c, west, (gen.START, gen.END))
        sel = ref.select(s.pts, c, west, gen.START, gen.END)
        cond = gen.scalar_cond(rng)
        pre = loader.trim_datapoints(b) if rng.random() < 0.3 else None
        if mode == 'scalar':
            vals = [p['v'][0] for p in sel]
            good = [v for v in vals if not ref.isnan(v)]
            if good and rng.random() < 0.5:
                cond['threshold'] = rng.choice(good)
            want = ref.scalar_verdict(vals, cond, mindp)
            share = sum(v > cond['threshold'] for v in good) / len(good) if good else 0
            obs.count('scalar_' + want)
            obs.count('scalar_tie', len(vals) >= mindp and bool(good) and share in (cond['lower_bound'], cond['upper_bound']))
            obs.count('below_minimum', len(vals) < mindp)
            obs.nontrivial |= len(vals) >= mindp and bool(good)
            got = loader.get_hom_condition(b, dict(cond), data=pre)
        else:
            n_all, good = len(sel), [p for p in sel if not ref.isnan(p['v'][0])]
            if (n_all < mindp) != (len(good) < mindp):
                obs.count('skipped_open')
                continue
            cond['threshold'] = rng.choice([0.06, 0.3, 1.7, 3.3, 20.2, 60.1])
            if n_all < mindp:
                want = 'CLR'
                obs.count('below_minimum')
            else:
                q = field(mode, sel, good)
                if any(abs(x - cond['threshold']) < 1e-9 for x in q):
                    continue
                want = verdict(q, cond)
                obs.count(mode + '_gridded', s.form == 'xr')
                obs.nontrivial |= bool(q)
            obs.count('vector_' + want)
            got = loader.get_hom_condition(b, {mode: dict(cond)}, data=pre)
        obs.count('verdicts')
        obs.state(mode, c.rect, len(sel), json.dumps(cond, sort_keys=True))
        obs.check(got == want, 'verdict:' + mode, '%s %s verdict on %r is %s, should be %s' % (s.form, mode, c, got, want), condition=cond,
                  min_dp=mindp, points=[(p['lat'], p['long'], p['time'], p['v']) for p in sel][:20])


def verdict(q, cond):
    share = sum(x > cond['threshold'] for x in q) / len(q) if q else 0
    if share <= cond['lower_bound']:
        return 'CLR'
    if share >= cond['upper_bound']:
        return 'HOM' if cond.get('split_lock') else 'CLR'
    return 'HET'


def lut_verdict(allp, cp, cond):
    meets = [x for x in allp if x['poly'].intersects(cp)]
    if not meets:
        return 'HOM' if cond.get('split_lock') else 'CLR'
    if cond.get('boundary') and any(x['poly'].boundary.intersects(cp) for x in meets):
        return 'HET'
    return 'CLR'


def field(mode, sel, good):
    if not good:
        return []
    if mode == 'dmag':
        mx = math.fsum(p['v'][0] for p in good) / len(good)
        my = math.fsum(p['v'][1] for p in good) / len(good)
        return [math.hypot(p['v'][0] - mx, p['v'][1] - my) for p in good]
    lats, longs = sorted({p['lat'] for p in sel}), sorted({p['long'] for p in sel})
    if len(lats) < 2 or len(longs) < 2:
        return []
    times = sorted({p['time'] for p in sel}, key=str)
    out = []
    for t in times:
        F = {(p['lat'], p['long']): p['v'] for p in sel if p['time'] == t}

        def g(i, j, k):
            return F.get((lats[i], longs[j]), (float('nan'),) * 2)[k]

        def grad(f, n, i):
            if i == 0:
                return f(1) - f(0)
            if i == n - 1:
                return f(n - 1) - f(n - 2)
            return (f(i + 1) - f(i - 1)) / 2
        for i in range(len(lats)):
            for j in range(len(longs)):
                dy_dx = grad(lambda jj: g(i, jj, 1), len(longs), j)
                dx_dy = grad(lambda ii: g(ii, j, 0), len(lats), i)
                v = dy_dx - dx_dy
                if v == v:
                    out.append(v)
    return out


def lattice(rng, obs, r):
    """vectors on a lattice, as a table or a grid"""
    if rng.random() < 0.5:
        s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], form='xr', nan=rng.choice([0, 0.1]))
        return s
    g = gen.rand_grid(rng, r, 2, nan=0, time=False)
    pts = gen.grid_points(g)
    if rng.random() < 0.4:
        pts = [p for p in pts if rng.random() < 0.9] or pts
    rng.shuffle(pts)
    f = obs.scratch + '/lat.csv'
    gen.write_csv(f, pts, ['uC', 'vC'])
    return gen.Source('vector_csv', dict(files=[f], data_name='uC,vC'), ['uC', 'vC'], pts, 'df', 'MEAN')


def lut(case, obs, r):
    rng = obs.rng
    west = r['long_min']
    for _ in range(20):
        rws = _lut.rows(rng, r, rng.choice([1, 1, 2, 4]), nan=0.1)
        if _lut.covered(rws, r):
            break
    else:
        return
    whole = ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max']))
    loader = _lut.make_loader(_lut.boundary(whole, west, (gen.START, gen.END)), rws)
    allp = _lut.parts(rws)
    obs.nontrivial = True
    obs.sample = dict(region=r, polygons=[x['poly'].wkt for x in rws][:3])
    for _ in range(12):
        c = _lut.rand_cell(rng, r)
        cp = _lut.cell_poly(c, west)
        cond = {}
        if rng.random() < 0.8:
            cond['boundary'] = rng.random() < 0.8
        if rng.random() < 0.6:
            cond['split_lock'] = rng.random() < 0.6
        meets = [x for x in allp if x['poly'].intersects(cp)]
        want = lut_verdict(allp, cp, cond)
        b = _lut.boundary(c, west, (gen.START, gen.END))
        pre = loader.trim_datapoints(b) if rng.random() < 0.3 else None
        got = loader.get_hom_condition(b, dict(cond), data=pre)
        obs.count('verdicts')
        obs.count('lut_' + want)
        obs.state('lut', c.rect, len(meets), json.dumps(cond, sort_keys=True))
        obs.check(got == want, 'verdict:lut', 'polygon verdict on %r is %s, should be %s' % (c, got, want), condition=cond,
                  polygons=[x['poly'].wkt for x in meets][:5])
