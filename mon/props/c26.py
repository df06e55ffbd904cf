"""Cases: for each of 24 products, files written in the product's own
conventions (variable and coordinate names, longitudes in 0..360, latitudes
downwards, fractions, depths, directions, one file per day, forecast runs,
clouds, layers), over regions of every kind, with steps and files outside the
region and time range and missing values. Non-trivial when at least one point of
the file lies in the region. Monitor: the data the loader holds, point by point
both ways, and the aggregate it returns for the region."""
import math

from mon import core, gen, native, ref
from mon.props import c20

KINDS = [(k, 1) for k in sorted(native.MAKERS)] + [('amsr', 1.5), ('iced:nc', .7), ('iced:tiff', .7)]
MIN_OBS = dict({'points': 30000, 'missing': 15000, 'outside': 90000, 'dated': 25000, 'unread_files': 400, 'negative_longs': 10000, 'antimeridian': 120, 'aggregates': 800, 'bad_units': 4, 'reprojected': 1500},
               **{'kind_' + k: 25 for k in native.MAKERS})
ASSUMPTIONS = ['native longitudes of exactly 180 degrees and steps later on the last day than midnight are not generated',
               'the last day of an IceNet range may or may not be read',
               'ERA5 winds (vector), DUACS, ECMWF and ORAS5 files have longitudes in -180..180, as their loaders expect']


def cases(tier, seed):
    return core.mkcases('C26', KINDS, tier, seed, 1500, 10000)


def same(nat, a, b):
    if nat.name == 'era5_wind_dir':     # degrees, in single precision
        return abs((a - b + 180) % 360 - 180) < 1e-3 and 0 <= a <= 360
    return ref.close(a, b, 1e-5 if nat.name.startswith('era5') else 1e-9)


def compare(obs, nat, r, ld, cols, key):
    want, opt = native.expected(nat, r)
    got = native.table(ld, cols, r)
    miss = [q for q in want if q not in got]
    if not obs.check(not miss, key + '-lost', '%d of %d points of the file in the region are not in the data' % (len(miss), len(want)), region=r, miss=miss[:4], have=sorted(got, key=str)[:4]):
        return 0
    extra = [q for q in got if q not in want and q not in opt]
    obs.check(not extra, key + '-extra', 'data where the file has none for the region', region=r, extra=extra[:4], want=sorted(want, key=str)[:4])
    for q in got:
        w = want.get(q) or opt.get(q)
        if w is None:
            continue
        ok = len(w) == len(got[q]) and all(same(nat, a, b) for x, y in zip(sorted(got[q]), sorted(w)) for a, b in zip(x, y))
        if not obs.check(ok, key + '-value', 'the value at %s is %s, the file says %s' % (q, got[q], w)):
            break
    return len(want)


def run_case(case, obs):
    rng, k = obs.rng, case['kind']
    if k == 'amsr':
        return c20.amsr(case, obs)
    if k.startswith('iced'):
        return c20.iced(case, obs, k[5:])
    r = gen.region(rng, None, max_cols=4, max_rows=4)
    if gen.reg_kind(r) == 'global' and rng.random() < 0.5:
        r = gen.region(rng, 'plain', max_cols=4, max_rows=4)
    nat = native.MAKERS[k](rng, r, obs.scratch)
    if not nat.files:
        return
    want, opt = native.expected(nat, r)
    ld = c20.get(nat.name, r, dict(files=list(nat.files), **nat.params))
    obs.sample = dict(loader=k, region=r, files=[f.split('/')[-1] for f in nat.files][:6], points=len(want))
    n = compare(obs, nat, r, ld, nat.cols, k)
    obs.count('points', n)
    obs.count('kind_' + k, n > 0)
    obs.count('missing', sum(1 for p in nat.points if any(ref.isnan(x) for x in p[3])))
    obs.count('outside', sum(1 for p in nat.points if not (native.inside(r, p[1], p[2]) and native.in_time(p[0]))))
    obs.count('dated', sum(1 for q in want if q[0]))
    obs.count('negative_longs', sum(1 for q in want if q[2] < 0))
    obs.count('antimeridian', gen.reg_kind(r) == 'anti' and n > 0)
    obs.count('unread_files', len(nat.files) - len(ld.files))
    names = ld.data_name.split(',')
    obs.check(sorted(names) == sorted(nat.cols), k + '-name', 'the data is named %s, expected %s' % (ld.data_name, nat.cols))
    # what a cell covering the region would be given
    if want and not opt and len(nat.cols) == 1 and k != 'era5_wind_dir':
        v = [x[0] for vs in want.values() for x in vs]
        for agg in ('MIN', 'MAX'):
            g = ld.get_value(c20.bounds(r), agg_type=agg)
            obs.count('aggregates')
            obs.check(list(g) == nat.cols and same(nat, float(list(g.values())[0]), (min if agg == 'MIN' else max)(v)), k + '-' + agg,
                      'over the region the loader gives %s, the file says %s' % (g, (min if agg == 'MIN' else max)(v)), region=r)
    if want and not opt and len(nat.cols) == 2:
        vs = [x for q in want.values() for x in q]
        for agg, f in (('MIN', min), ('MAX', max)):
            g = ld.get_value(c20.bounds(r), agg_type=agg)
            obs.count('aggregates')
            v = [float(g[c]) for c in nat.cols]
            ok = any(all(same(nat, a, b) for a, b in zip(v, x)) for x in vs) and ref.close(math.hypot(*v), f(math.hypot(*x) for x in vs), 1e-5)
            obs.check(ok, k + '-' + agg, 'over the region the loader gives %s, which is not the vector of %s magnitude in the file' % (g, agg), region=r)
    if k == 'bsose_sic' and rng.random() < 0.3:
        obs.count('bad_units')
        with obs.expect_raise('bsose_sic-units', 'an unknown unit is not refused', ValueError):
            c20.get(nat.name, r, dict(files=list(nat.files), units='percent'))
    obs.state(k, gen.reg_kind(r), min(len(nat.files), 3), len(ld.files) < len(nat.files), min(n, 2))
    obs.nontrivial = n > 0


