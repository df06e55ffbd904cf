"""Cases: circle, rectangle, gradient and checkerboard sources and their vector
variants over generated regions with grids of 2..17 points a side, default and
chosen centres (inside, outside, on the equator and prime meridian), sizes from
nothing to beyond the region, multipliers of either sign; scalar, binary and
vector random fields with sizes 2..24, every range, threshold, multiplier and
offset. Non-trivial when the pattern takes at least two values. Monitor: the
loader's stored grid, point by point, against the pattern evaluated from its
definition; random fields against the same seed loaded again and against the
unscaled field of that seed."""
import math
import random

import numpy as np

from mon import core, gen
from mon.props.c20 import get, table

KINDS = [('circle', 3), ('rectangle', 3), ('gradient', 2), ('checkerboard', 3), ('vector_circle', 2), ('vector_rectangle', 2), ('vector_gradient', 2),
         ('scalar_grf', 4), ('binary_grf', 3), ('vector_grf', 4), ('anti', 1), ('full', 1)]
MIN_OBS = {'points': 4000, 'on': 600, 'off': 600, 'default_centre': 15, 'default_size': 5, 'axis_centre': 8, 'boundary_points': 30,
           'grf_points': 3000, 'grf_repeat': 40, 'clipped': 200, 'binary_on': 200, 'binary_off': 200, 'vectors': 800, 'offset': 10}
ASSUMPTIONS = ['a rectangle holds the points no further than width and height from its centre, as the existing tests require (the docstring says side lengths)',
               'points on the western and southern edges of the region belong to no cell and are not compared',
               'points closer than 1e-9 degrees to the outline of a shape may be on either side unless the arithmetic is exact',
               'the random draw itself is not prescribed: fields are compared with the unscaled field of the same seed',
               'regions crossing the antimeridian: known finding']


def cases(tier, seed):
    return core.mkcases('C21', KINDS, tier, seed, 1300, 5000)


def run_case(case, obs):
    k = case['kind']
    if k.endswith('grf'):
        grf(case, obs, k)
    elif k == 'anti':
        anti(case, obs)
    else:
        shape(case, obs, k)


def inside(r, la, x):
    return r['lat_min'] < la <= r['lat_max'] and r['long_min'] < x <= r['long_max']


def line(a, b, n, end=True):
    m = (n - 1) if end else n
    return [a + (b - a) * i / m if m else a for i in range(n)]


def shape(case, obs, k):
    rng = obs.rng
    full = k == 'full'
    if full:
        k = rng.choice(['circle', 'rectangle', 'gradient', 'vector_circle'])
    r = gen.region(rng, rng.choice(['plain', 'plain', 'touch_e', 'touch_w', 'pole', 'global']))
    if rng.random() < 0.25:   # around the origin
        r.update(lat_min=-r['cell_height'], lat_max=r['cell_height'], long_min=-r['cell_width'], long_max=r['cell_width'])
    if full and case['i'] > 24:
        return
    la0, la1, lo0, lo1 = r['lat_min'], r['lat_max'], r['long_min'], r['long_max']
    exact = rng.random() < 0.6
    nx, ny = (rng.choice([3, 5, 9, 17]), rng.choice([3, 5, 9, 17])) if exact else (rng.randint(2, 14), rng.randint(2, 14))
    vec = k.startswith('vector')
    base = k.replace('vector_', '')
    p = dict(nx=nx, ny=ny)
    end = base != 'checkerboard'
    if not end and exact:
        p['nx'], p['ny'] = nx, ny = nx - 1, ny - 1
    if full:
        nx = ny = 101
        p = {}
        exact = False
        if rng.random() < 0.5:
            p['ny'] = ny = 3
        else:
            p['nx'] = nx = 3
    lats, longs = line(la0, la1, ny, end), line(lo0, lo1, nx, end)
    names = ['u', 'v'] if vec else ['val']
    if rng.random() < 0.8:
        p['data_name'] = ','.join(names)
    else:
        names = ['dummy_data_u', 'dummy_data_v'] if vec else ['dummy_data']
    mult = [1, 1]
    if base != 'checkerboard' and rng.random() < 0.6:
        mult = [rng.choice([-3, -0.5, 0.25, 2, 7]), rng.choice([-3, -0.5, 0.25, 2, 7])]
        if vec:
            if rng.random() < 0.8:
                p['multiplier_u'] = mult[0]
            else:
                mult[0] = 1
            if rng.random() < 0.8:
                p['multiplier_v'] = mult[1]
            else:
                mult[1] = 1
        else:
            p['multiplier'] = mult[0]
    H, W = la1 - la0, lo1 - lo0
    cy, cx = lats[ny // 2], longs[nx // 2]
    if base in ('circle', 'rectangle'):
        q = rng.random()
        if q < 0.3:
            obs.count('default_centre')
        else:
            my = rng.choice([None, rng.choice(lats), rng.choice(lats), 0, 0.0, la0 + H * rng.uniform(-0.5, 1.5), la0 + H * rng.uniform(0, 1)])
            mx = rng.choice([None, rng.choice(longs), rng.choice(longs), 0, 0.0, lo0 + W * rng.uniform(-0.5, 1.5), lo0 + W * rng.uniform(0, 1)])
            p['centre'] = (my, mx) if rng.random() < 0.5 else [my, mx]
            obs.count('axis_centre', my == 0 or mx == 0)
            cy = cy if my is None else my
            cx = cx if mx is None else mx
    sizes = [0, H / 8, H / 4, H / 2, W / 8, W / 4, W / 2, H, W, 2 * (H + W), rng.uniform(0, 1) * H, rng.uniform(0, 1) * W]
    if base == 'circle':
        R = rng.choice(sizes)
        if rng.random() < 0.15:
            R = 1
            obs.count('default_size')
        else:
            p['radius'] = R

        def f(i, j):
            d = math.hypot(longs[j] - cx, lats[i] - cy)
            return (None if abs(d - R) < 1e-9 and not (exact and lats[i] == cy or longs[j] == cx) else float(d <= R)), abs(d - R) < 1e-9
    elif base == 'rectangle':
        w, h = rng.choice(sizes), rng.choice(sizes)
        if rng.random() < 0.15:
            w = 1
            obs.count('default_size')
        else:
            p['width'] = w
        if rng.random() < 0.15:
            h = 1
            obs.count('default_size')
        else:
            p['height'] = h

        def f(i, j):
            dx, dy = abs(longs[j] - cx) - w, abs(lats[i] - cy) - h
            near = abs(dx) < 1e-9 or abs(dy) < 1e-9
            if near and not exact:
                return None, True
            return float(dx <= 0 and dy <= 0), near
        exact = exact and all(float(z * 4096).is_integer() for z in (cx, cy, w, h))
    elif base == 'gradient':
        vert = True
        if rng.random() < 0.7:
            vert = p['vertical'] = rng.random() < 0.4

        def f(i, j):
            return (i / (ny - 1) if vert else j / (nx - 1)), False
    else:
        gx, gy = rng.choice([1, 2, W / nx, W / 4, 0.5, rng.uniform(0.1, 1) * W]), rng.choice([1, 2, H / ny, H / 4, 0.5, rng.uniform(0.1, 1) * H])
        if rng.random() < 0.15:
            gx = gy = 1
            obs.count('default_size')
        else:
            p['gridsize'] = (gx, gy) if rng.random() < 0.5 else [gx, gy]
        ok = exact and all(float(z * 4096).is_integer() for z in (gx, gy))

        def f(i, j):
            a, b = (longs[j] - lo0) / gx, (lats[i] - la0) / gy
            near = min(abs(a - round(a)), abs(b - round(b))) < 1e-9
            if near and not ok and not (i == 0 or j == 0):
                if abs(a - round(a)) < 1e-9 and j or abs(b - round(b)) < 1e-9 and i:
                    return None, True
            return float((math.floor(a) + math.floor(b)) % 2), near
    ld = get(k if rng.random() < 0.7 else k.upper(), r, p)
    got = table(ld, names)
    obs.sample = dict(region=r, shape=k, params={a: repr(b) for a, b in p.items()})
    arr = np.array([[q[1], q[2]] for q in got]) if got else np.zeros((0, 2))
    keys = list(got)
    seen, n = set(), 0
    for i in range(ny):
        for j in range(nx):
            if not inside(r, lats[i], longs[j]):
                continue
            n += 1
            w_, near = f(i, j)
            hit = np.nonzero((np.abs(arr[:, 0] - lats[i]) < 1e-9) & (np.abs(arr[:, 1] - longs[j]) < 1e-9))[0]
            if not obs.check(len(hit) == 1, 'grid', 'no single value at grid point %r %r' % (lats[i], longs[j]), have=keys[:5]):
                return
            v = got[keys[hit[0]]]
            obs.count('points')
            if w_ is None:
                continue
            obs.count('boundary_points', near)
            obs.count('on' if w_ else 'off')
            seen.add(w_)
            if base == 'gradient' and vec:
                want = (0.0, w_ * mult[1]) if p.get('vertical', True) else (w_ * mult[0], 0.0)
            else:
                want = tuple(w_ * m for m in mult[:len(names)])
            obs.check(len(v) == 1 and all(abs(a - b) < 1e-9 * max(1, abs(b)) for a, b in zip(v[0], want)), k + '-value', '%s at %r %r has %s, expected %s' % (k, lats[i], longs[j], v, want), centre=(cy, cx))
    extra = sum(1 for q in keys if inside(r, q[1], q[2]))
    obs.check(extra == n, 'grid-size', 'the region holds %d values, expected %d' % (extra, n))
    obs.nontrivial = len(seen) > 1
    obs.state(k, 'centre' in p, sorted(p), len(seen) > 1, nx % 2, ny % 2)


def grf(case, obs, k):
    from meshiphi.utils import gaussian_random_field
    rng = obs.rng
    r = gen.region(rng, rng.choice(['plain', 'plain', 'touch_e', 'touch_w', 'pole', 'global']))
    vec = k == 'vector_grf'
    size = rng.choice([2, 3, 4, 5, 8, 9, 16, 17, 24])
    alpha = rng.choice([None, 0, 1, 2, 3, 4.5, 8])
    seed = rng.choice([0, 1, 2, 16, rng.randrange(2 ** 32)])
    common = dict(size=size, seed=seed)
    if alpha is not None:
        common['alpha'] = alpha
    lats, longs = line(r['lat_min'], r['lat_max'], size), line(r['long_min'], r['long_max'], size)

    def load(nm, **p):
        # the state of the process's generator must not matter
        np.random.seed(rng.randrange(2 ** 32))
        np.random.normal(size=rng.randint(0, 3))
        names = p.pop('names')
        t = table(get(nm, r, dict(common, **p)), names)
        out = {}
        for i in range(size):
            for j in range(size):
                if not inside(r, lats[i], longs[j]):
                    continue
                hit = [v for q, v in t.items() if abs(q[1] - lats[i]) < 1e-9 and abs(q[2] - longs[j]) < 1e-9]
                if len(hit) != 1 or len(hit[0]) != 1:
                    raise core.Violation('grf-grid', 'no single value at grid point %r %r' % (lats[i], longs[j]), list(t)[:4])
                out[i, j] = hit[0][0]
        extra = sum(1 for q in t if inside(r, q[1], q[2]))
        if extra != len(out):
            raise core.Violation('grf-grid', 'the region holds %d values, expected %d' % (extra, len(out)))
        return out
    obs.sample = dict(region=r, loader=k, size=size, seed=seed, alpha=alpha)
    if vec:
        base = load(k, min=0, max=1, names=['a', 'b'], data_name='a,b')
        lo = rng.choice([0, 0, 1, 2.5])
        hi = lo + rng.choice([0.5, 1, 10, 40])
        p = dict(min=lo, max=hi)
        names = ['a', 'b']
        q = rng.random()
        if q < 0.3:
            p['data_name'] = 'a,b'
        elif q < 0.5:
            names = ['uC', 'vC']
        elif q < 0.8:
            names = ['p', 'q']
            p.update(vec_x='p', vec_y='q')
        else:
            names = ['p', 'vC']
            p.update(vec_x='p')
        if rng.random() < 0.2:
            del p['min'], p['max']
            lo, hi = 0, 10
        got = load(k, names=names, **dict(p))
        again = load(k, names=names, **dict(p))
        obs.check(got == again, 'repeat', 'the same seed gave another field')
        obs.count('grf_repeat')
        obs.check(len(base) < 2 or len(set(base.values())) > 1, 'constant', 'the field is constant')
        for ij, (u, v) in got.items():
            bu, bv = base[ij]
            m0, m1 = math.hypot(bu, bv), math.hypot(u, v)
            obs.count('grf_points')
            obs.count('vectors')
            obs.check(lo - 1e-9 <= m1 <= hi + 1e-9, 'range', 'magnitude %r outside %r..%r' % (m1, lo, hi))
            obs.check(abs(m1 - (m0 * (hi - lo) + lo)) < 1e-9 * (1 + hi), 'scale', 'magnitude %r, expected %r' % (m1, m0 * (hi - lo) + lo))
            if m0 > 1e-6:
                obs.check(abs(u * bv - v * bu) < 1e-7 * (1 + hi) * m0 and u * bu + v * bv >= -1e-9, 'direction', 'the direction changed with the range')
        obs.nontrivial = len(got) > 1
        # the directions of a field are not all alike
    else:
        base = load('scalar_grf', binary=False, min=0, max=1, names=['g'], data_name='g')
        base = {a: b[0] for a, b in base.items()}
        g = gaussian_random_field(size, 3)
        obs.check(g.shape == (size, size) and abs(g.min()) < 1e-12 and abs(g.max() - 1) < 1e-12, 'field', 'a random field does not span 0..1', shape=g.shape)
        if k == 'scalar_grf':
            p = dict(binary=False)
            lo, hi, t, m, o = -10, 10, [0, 1], 1, 0
            if rng.random() < 0.8:
                lo = p['min'] = rng.choice([-5, 0, 0, 1, 100, 0.5])
            if rng.random() < 0.8:
                hi = p['max'] = lo + rng.choice([0.5, 1, 3, 1000])
            if rng.random() < 0.6:
                t = p['threshold'] = rng.choice([[0, 0.5], [0.5, 1], [0.25, 0.75], [0.4, 0.6], [0, 1], [0.1, 1]])
            if rng.random() < 0.5:
                m = p['multiplier'] = rng.choice([-2, 0.5, 3, 0])
            if rng.random() < 0.5:
                o = p['offset'] = rng.choice([-7, 0.25, 1000])
                obs.count('offset')
            nm = 'scalar_data'
            if rng.random() < 0.7:
                nm = p['data_name'] = 'val'
            got = load('scalar_grf', names=[nm], **dict(p))
            again = load('scalar_grf', names=[nm], **dict(p))
            for ij, (v,) in got.items():
                c = min(max(base[ij], t[0]), t[1])
                obs.count('clipped', c != base[ij])
                obs.count('grf_points')
                want = ((c - t[0]) / (t[1] - t[0]) * (hi - lo) + lo) * m + o
                obs.check(abs(v - want) < 1e-8 * (1 + abs(m) * max(abs(lo), abs(hi)) + abs(o)), 'scale', 'value %r, expected %r' % (v, want), params=repr(p), base=base[ij])
        else:
            p = dict(binary=True)
            t = 0.5
            if rng.random() < 0.7:
                t = p['threshold'] = rng.choice([0, 0.25, 0.4, 0.6, 0.9, 1])
            nm = 'binary_data'
            if rng.random() < 0.7:
                nm = p['data_name'] = 'val'
            got = load('binary_grf', names=[nm], **dict(p))
            again = load('binary_grf', names=[nm], **dict(p))
            for ij, (v,) in got.items():
                obs.count('grf_points')
                if abs(base[ij] - t) < 1e-12:
                    obs.check(v in (0, 1), 'binary', 'a binary field holds %r' % v)
                    continue
                obs.count('binary_on' if v else 'binary_off')
                obs.check(v == float(base[ij] >= t), 'binary', 'value %r where the field is %r and the threshold %r' % (v, base[ij], t))
        obs.check(got == again, 'repeat', 'the same seed gave another field')
        obs.count('grf_repeat')
        obs.nontrivial = len(set(base.values())) > 1
    obs.state(k, size, alpha, sorted(p))


def anti(case, obs):
    """every source covers the region, also across the antimeridian"""
    rng = random.Random(case['seed'])
    r = gen.region(rng, 'anti')
    k = rng.choice(['circle', 'gradient', 'checkerboard', 'vector_gradient', 'scalar_grf'])
    p = dict(nx=9, ny=5) if k != 'scalar_grf' else dict(size=9, seed=1, binary=False)
    names = ['dummy_data_u', 'dummy_data_v'] if k.startswith('vec') else ['scalar_data'] if k == 'scalar_grf' else ['dummy_data']
    got = table(get(k, r, p), names)
    lo, hi = r['long_min'], r['long_max']
    W = (hi - lo) % 360
    want = {((lo + W * j / (9 if k == 'checkerboard' else 8) + 180) % 360) - 180 for j in range(1, 8)}
    have = {q[2] for q in got}
    obs.count('anti')
    ok = all(any(abs(a - b) < 1e-9 or abs(abs(a - b) - 360) < 1e-9 for b in have) for a in want)
    obs.check(ok, 'antimeridian', 'a %s source holds no grid over a region crossing the antimeridian' % k, region=r, have=sorted(have)[:9])
    obs.nontrivial = True
