"""Files in the native conventions of the supported products.

Each maker returns a Native: the loader's name, the params, the names of the
loaded columns and the points the file holds, in degrees east of Greenwich in
-180..180, with the values the loader documents (units, signs, directions)."""
import math
import os
from datetime import datetime, timedelta

import numpy as np
import pandas as pd

from mon import gen, ref

FMT = '%Y-%m-%d %H:%M'


def d0():
    return datetime.fromisoformat(gen.START)


def d1():
    return datetime.fromisoformat(gen.END)


class Native:
    def __init__(self, name, files, cols, points, either=(), **params):
        self.name, self.files, self.cols, self.points, self.params = name, files, cols, points, params
        self.either = set(either)      # dates that may or may not be in the window


def stamp(t):
    return None if t is None else t.strftime(FMT)


def base(rng, r, ncomp, nan=0.1, nt=1, maxn=12):
    """lats ascending, longs in -180..180 without +-180, values[comp][time][lat][long]"""
    g = gen.rand_grid(rng, r, 1, nan=0, maxn=maxn)
    la = g['lats']
    lo = [x for x in g['longs'] if abs(x) != 180]
    if not lo:
        lo = [ref.wrap_e(r['long_min'] + r['cell_width'] / 4)]
    n = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    v = n.randint(-256, 257, size=(ncomp, nt, len(la), len(lo))) / 4.0
    if nan:
        v[:, n.rand(nt, len(la), len(lo)) < nan] = np.nan
    return la, lo, v


def pts(la, lo, times, v, f=None):
    out = []
    for t in range(v.shape[1]):
        for i, a in enumerate(la):
            for j, x in enumerate(lo):
                w = tuple(float(c[t, i, j]) for c in v)
                out.append((stamp(times[t]) if times else None, a, x, tuple(f(*w)) if f else w))
    return out


def dset(la, lo, times, arrays, latn, lonn, timen='time', desc=False, wrap=False, extra=None, dtype='f8'):
    import xarray as xr
    la, lo = np.array(la), np.array(lo)
    if wrap:
        lo = np.where(lo < 0, lo + 360, lo)
    o = np.argsort(lo)
    arrays = {k: np.asarray(a)[..., o] for k, a in arrays.items()}
    lo = lo[o]
    if desc:
        la = la[::-1]
        arrays = {k: a[..., ::-1, :] for k, a in arrays.items()}
    dims = (latn, lonn)
    co = {latn: la, lonn: lo}
    if times is not None:
        dims, co = (timen,) + dims, dict(co, **{timen: pd.to_datetime([stamp(t) for t in times])})
    arrays = {k: a.astype(dtype) for k, a in arrays.items()}
    ds = xr.Dataset({k: (dims, a if times is not None else a[0]) for k, a in arrays.items()}, coords=co)
    for k, a in (extra or {}).items():
        ds[k] = a
    return ds


def save(ds, d, name):
    f = os.path.join(d, name)
    ds.to_netcdf(f)
    return f


def halves(rng, ds, d, stem, latn):
    """the data as one file, or as two files split in latitude"""
    n = ds.sizes[latn]
    if n < 4 or rng.random() < 0.6:
        return [save(ds, d, stem + '.nc')]
    k = n // 2
    return [save(ds.isel({latn: slice(0, k)}), d, stem + '_a.nc'), save(ds.isel({latn: slice(k, n)}), d, stem + '_b.nc')]


def hours(rng, day):
    hs = rng.choice([[0], [0, 12], [0, 6, 12, 18]])
    if day == d1():
        hs = [0]
    return [day + timedelta(hours=h) for h in hs]


def days(rng, lo=-3, hi=13):
    n = rng.randint(1, 4)
    ks = rng.sample(range(lo, hi), n)
    if rng.random() < 0.7:
        ks += rng.sample([0, 9, -1, 10], rng.randint(1, 2))
    if not any(0 <= k <= 9 for k in ks):
        ks.append(rng.randint(0, 9))
    return [d0() + timedelta(days=k) for k in sorted(set(ks))]


def gebco(rng, r, d):
    la, lo, v = base(rng, r, 1)
    ds = dset(la, lo, None, {'elevation': v[0]}, 'lat', 'lon')
    return Native('gebco', halves(rng, ds, d, 'gebco', 'lat'), ['elevation'], pts(la, lo, None, v))


def bsose_depth(rng, r, d):
    import xarray as xr
    la, lo, v = base(rng, r, 1, nan=0)
    v = np.abs(v)
    ds = dset(la, lo, None, {'Depth': v[0], 'SIarea': v[0] * 0}, 'YC', 'XC', wrap=True).set_coords('Depth')
    return Native('bsose_depth', halves(rng, ds, d, 'bsose', 'YC'), ['elevation'], pts(la, lo, None, v, lambda x: [-x]))


def bsose_sic(rng, r, d):
    timed = rng.random() < 0.5
    ts = days(rng) if timed else None
    la, lo, v = base(rng, r, 1, nt=len(ts) if ts else 1)
    v = np.abs(v) / 64
    u = rng.choice([None, 'percentage', 'fraction'])
    k = 1 if u == 'fraction' else 100
    ds = dset(la, lo, ts, {'SIarea': v[0]}, 'YC', 'XC', wrap=True)
    return Native('bsose_sic', halves(rng, ds, d, 'bsose', 'YC'), ['SIC'], pts(la, lo, ts, v, lambda x: [x * k]), **({'units': u} if u else {}))


def baltic_sic(rng, r, d):
    ts = days(rng) if rng.random() < 0.5 else None
    la, lo, v = base(rng, r, 1, nt=len(ts) if ts else 1)
    ds = dset(la, lo, ts, {'ice_concentration': v[0], 'ice_thickness': v[0] + 1}, 'lat', 'lon', desc=True)
    return Native('baltic_sic', [save(ds, d, 'baltic.nc')], ['SIC'], pts(la, lo, ts, v))


def modis(rng, r, d):
    la, lo, v = base(rng, r, 1)
    n = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    cloud = (n.rand(1, len(la), len(lo)) < 0.3).astype(float)
    ds = dset(la, lo, None, {'iceArea': v[0], 'cloud': cloud}, 'lat', 'long')
    w = v.copy()
    w[0][cloud == 1] = np.nan
    return Native('modis', halves(rng, ds, d, 'modis', 'lat'), ['SIC'], pts(la, lo, None, w))


def icenet(rng, r, d):
    """forecasts issued on some days, each holding the leadtimes 1..n"""
    import xarray as xr
    if rng.random() < 0.4:
        d = os.path.join(d, 'v2.%d' % rng.randint(0, 9), 'run')
        os.makedirs(d)
    la, lo, v = base(rng, r, 1, maxn=6)
    issued = rng.sample([-6, -4, -3, -2, -1, 0, 1, 3], rng.randint(1, 4))
    if min(issued) >= 0:
        issued.append(-rng.randint(1, 4))
    lead = rng.choice([20, 24, 31])
    files, best = [], max(k for k in issued if k < 0)
    P = []
    n = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    for k in issued:
        day = d0() + timedelta(days=k)
        sic = n.randint(0, 65, size=(1, len(la), len(lo), lead)) / 64
        sic[n.rand(*sic.shape) < 0.1] = np.nan
        LA, LO = np.meshgrid(la, lo, indexing='ij')
        ds = xr.Dataset({'sic_mean': (('time', 'yc', 'xc', 'leadtime'), sic), 'sic_stddev': (('time', 'yc', 'xc', 'leadtime'), sic * 0 + 0.5),
                         'Lambert_Azimuthal_Grid': ((), 1), 'ensemble_members': (('time',), [3])},
                        coords=dict(time=[np.datetime64(day)], yc=np.arange(len(la)) * 25.0, xc=np.arange(len(lo)) * 25.0, leadtime=np.arange(1, lead + 1),
                                    lat=(('yc', 'xc'), LA), lon=(('yc', 'xc'), LO),
                                    forecast_date=(('time', 'leadtime'), [[np.datetime64(day + timedelta(days=q)) for q in range(1, lead + 1)]])))
        files.append(save(ds, d, 'south_daily_forecast.%s.nc' % day.strftime('%Y-%m-%d')))
        if k == best:
            for q in range(1, lead + 1):
                for i in range(len(la)):
                    for j in range(len(lo)):
                        P.append((stamp(day + timedelta(days=q)), la[i], lo[j], (float(sic[0, i, j, q - 1]) * 100,)))
    rng.shuffle(files)
    return Native('icenet', files, ['SIC'], P, either=[stamp(d1())])


def daily(rng, r, d, name, var, cols, f=None, ncomp=1, vec=None, wrap=True, desc=True, extra=None, latn='latitude', lonn='longitude'):
    ds_, files, P = days(rng), [], []
    la, lo, _ = base(rng, r, ncomp)
    wrap = wrap and rng.random() < 0.7     # else in -180..180, as cut out of the product
    n = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    dt = rng.choice(['f8', 'f8', 'f4'])
    for day in ds_:
        hs = hours(rng, day)
        v = n.randint(-256, 257, size=(ncomp, len(hs), len(la), len(lo))) / 4.0
        v[:, n.rand(*v.shape[1:]) < 0.1] = np.nan
        ds = dset(la, lo, hs, dict(zip(var, v)), latn, lonn, desc=desc, wrap=wrap, dtype=dt, extra=extra)
        files.append(save(ds, d, name[:10] + day.strftime('%Y-%m-%d') + '.nc'))
        P += pts(la, lo, hs, v, f)
    rng.shuffle(files)
    return files, cols, P


def era5(loader, var, cols, f=None, ncomp=1, wrap=True):
    def make(rng, r, d):
        files, c, P = daily(rng, r, d, 'era5_data_', var, cols, f, ncomp, wrap=wrap)
        return Native(loader, files, c, P)
    return make


def wind_dir(u, v):
    return [(180 + math.degrees(math.atan2(v, u))) % 360]


def wave_vec(m):
    return [-math.sin(math.radians(m)), -math.cos(math.radians(m))]


def ecmwf(rng, r, d):
    la, lo, v = base(rng, r, 1, maxn=8)
    runs = rng.sample([-72, -48, -24, -12, 0, 12, 24], rng.randint(1, 3))
    if min(runs) >= 0:
        runs.append(-12)
    best = max(k for k in runs if k < 0)
    n = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
    files, P = [], []
    for k in runs:
        b = d0() + timedelta(hours=k)
        for lead in sorted(rng.sample(range(0, 300, 6), rng.randint(1, 5)) + [96]):
            w = n.randint(0, 64, size=(1, 1, len(la), len(lo))) / 4.0
            w[:, n.rand(1, len(la), len(lo)) < 0.1] = np.nan
            ds = dset(la, lo, None, {'swh': w[0], 'mwp': w[0] + 1}, 'latitude', 'longitude', desc=True)
            f = save(ds, d, '%s-%dh-wave-fc.nc' % (b.strftime('%Y%m%d%H0000'), lead))
            if f not in files:
                files.append(f)
            t = b + timedelta(hours=lead)
            if k == best:
                P = [p for p in P if p[0] != stamp(t)] + pts(la, lo, [t], w)
    rng.shuffle(files)
    return Native('ecmwf_sig_wave_height', files, ['swh'], P)


def baltic_cur(rng, r, d):
    import xarray as xr
    ts = days(rng)
    la, lo, v = base(rng, r, 2, nt=len(ts))
    top = dset(la, lo, ts, dict(uo=v[0], vo=v[1]), 'latitude', 'longitude')
    low = top + 1000
    ds = xr.concat([top, low], dim=pd.Index([0.5, 3.0], name='depth'))
    k = [i for i, t in enumerate(ts) if d0() <= t <= d1()]
    with np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = np.nanmean(v[:, k], axis=1)[:, None]
    return Native('baltic_currents', halves(rng, ds, d, 'balt', 'latitude'), ['uC', 'vC'], pts(la, lo, None, m))


def northsea(rng, r, d):
    ts = days(rng)
    la, lo, v = base(rng, r, 2, nt=len(ts))
    ds = dset(la, lo, ts, dict(U=v[0], V=v[1], depth_x=v[0]), 'lat', 'lon', timen='times')
    return Native('northsea_currents', halves(rng, ds, d, 'ns', 'lat'), ['uC', 'vC'], pts(la, lo, ts, v))


def oras5(rng, r, d):
    la, lo, v = base(rng, r, 2)
    ds = dset(la, lo, None, dict(uo=v[0], vo=v[1], other=v[0]), 'nav_lat', 'nav_lon')
    return Native('oras5_currents', halves(rng, ds, d, 'oras', 'nav_lat'), ['uC', 'vC'], pts(la, lo, None, v))


def sose(rng, r, d):
    la, lo, v = base(rng, r, 2)
    ds = dset(la, lo, None, dict(uC=v[0], vC=v[1]), 'lat', 'lon', wrap=True)
    return Native('sose', halves(rng, ds, d, 'sose', 'lat'), ['uC', 'vC'], pts(la, lo, None, v))


def duacs(rng, r, d):
    import xarray as xr
    ex = rng.choice([None, {'crs': xr.DataArray(1)}])
    files, c, P = daily(rng, r, d, 'dt_global_', ['ugos', 'vgos'], ['uC', 'vC'], ncomp=2, wrap=False, desc=False, extra=ex)
    return Native('duacs_currents', files, c, P)


def csv(loader, ncomp):
    def make(rng, r, d):
        names = ['a', 'b'][:ncomp]
        P, files = [], []
        timed = rng.random() < 0.5
        for k in range(rng.randint(1, 3)):
            ps = gen.rand_points(rng, r, rng.randint(1, 25), ncomp, time=timed)
            ps = [p for p in ps if abs(p['long']) != 180]
            seen = set()
            ps = [p for p in ps if not ((p['lat'], p['long'], p['time']) in seen or seen.add((p['lat'], p['long'], p['time'])))]
            if not ps:
                continue
            f = os.path.join(d, 'part%d.csv' % k)
            gen.write_csv(f, ps, names)
            files.append(f)
            P += [(p['time'] and p['time'] + ' 00:00', p['lat'], p['long'], tuple(p['v'])) for p in ps]
        return Native(loader, files, names, P)
    return make


MAKERS = {
    'scalar_csv': csv('scalar_csv', 1), 'vector_csv': csv('vector_csv', 2), 'gebco': gebco, 'bsose_depth': bsose_depth, 'bsose_sic': bsose_sic,
    'baltic_sic': baltic_sic, 'modis': modis, 'icenet': icenet, 'ecmwf_sig_wave_height': ecmwf,
    'era5_sig_wave_height': era5('era5_sig_wave_height', ['swh', 'other'], ['swh'], lambda a, b: [a], 2),
    'era5_max_wave_height': era5('era5_max_wave_height', ['other', 'hmax'], ['hmax'], lambda a, b: [b], 2),
    'era5_wave_period': era5('era5_wave_period', ['mwp', 'swh'], ['mwp'], lambda a, b: [a], 2),
    'era5_wave_dir': era5('era5_wave_dir', ['mwd', 'mwp'], ['mwd'], lambda a, b: [a], 2),
    'era5_wind_mag': era5('era5_wind_mag', ['u10', 'v10'], ['wind_mag'], lambda a, b: [math.hypot(a, b)], 2),
    'era5_wind_dir': era5('era5_wind_dir', ['u10', 'v10'], ['wind_dir'], wind_dir, 2),
    'era5_wind': era5('era5_wind', ['u10', 'v10'], ['u10', 'v10'], None, 2),
    'era5_wave_direction': era5('era5_wave_direction', ['mwd', 'swh'], ['uW', 'vW'], lambda a, b: wave_vec(a), 2),
    'baltic_currents': baltic_cur, 'northsea_currents': northsea, 'oras5_currents': oras5, 'sose': sose, 'duacs_currents': duacs,
}


def inside(r, la, x):
    lo, hi = r['long_min'], r['long_max']
    return r['lat_min'] < la <= r['lat_max'] and (lo < x <= hi if lo < hi else x > lo or x <= hi)


def in_time(t):
    return t is None or d0().strftime(FMT) <= t <= d1().strftime(FMT)


def table(ld, names, r):
    """the loader's data in the region and time range: {(time, lat, long): [values..]}, missing values left out"""
    d = ld.data
    df = d if isinstance(d, pd.DataFrame) else d.to_dataframe().reset_index()
    ts = [stamp(pd.Timestamp(t)) for t in df['time']] if 'time' in df else [None] * len(df)
    out = {}
    for t, la, lo, *v in zip(ts, df['lat'], df['long'], *[df[n] for n in names]):
        if inside(r, la, lo) and in_time(t) and not any(ref.isnan(x) for x in v):
            out.setdefault((t, float(la), float(lo)), []).append(tuple(float(x) for x in v))
    return out


def expected(nat, r):
    out, opt = {}, {}
    for t, la, lo, v in nat.points:
        if inside(r, la, lo) and in_time(t) and not any(ref.isnan(x) for x in v):
            (opt if t in nat.either else out).setdefault((t, la, lo), []).append(v)
    return out, opt
