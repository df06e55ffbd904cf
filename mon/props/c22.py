"""Cases: batches of angles (in range, on and around multiples of 180 and 360,
huge, negative, as number, list, nested list and array), angle pairs, numbers to
round (zero, negative, 1e-280..1e280, ties, infinite, missing, whole numbers; as
number, list and array; 1..10 figures), month and date pairs over leap and
century years, durations, linear flow fields and random-field sizes.
Non-trivial when the batch has a number. Monitor: results against exact decimal,
calendar and modular arithmetic."""
import calendar
import math
from datetime import date, datetime, timedelta
from decimal import Decimal, ROUND_HALF_EVEN, localcontext

import numpy as np

from mon import core, ref

KINDS = [('domain', 3), ('distance', 3), ('sigfig', 4), ('month', 2), ('days', 2), ('duration', 2), ('field', 2), ('grf', 1), ('wrap', 1)]
MIN_OBS = {'angles': 8000, 'wrapped': 3000, 'pairs': 5000, 'rounded': 4000, 'rounded_special': 250, 'rounded_whole': 800, 'months': 1000, 'durations': 3000, 'flows': 400, 'decorated': 100, 'random_fields': 40}
ASSUMPTIONS = ['a rounded number may lie on either side of an exact tie', 'numbers below 1e-280 are not rounded']


def cases(tier, seed):
    return core.mkcases('C22', KINDS, tier, seed, 1800, 12000)


def angle(rng):
    k = rng.random()
    if k < 0.25:
        return float(rng.choice([-180, 180, 0, -90, 90, 179.5, -179.5, 360, -360, 540, -540, 720, 181, -181, 359.75, 900]))
    if k < 0.5:
        return rng.uniform(-180, 180)
    if k < 0.6:
        return rng.randint(-2000, 2000)
    if k < 0.7:
        return rng.choice([-180, 180]) * rng.randint(1, 9) + rng.choice([-1, 1]) * 2.0 ** -rng.randint(1, 30)
    return rng.uniform(-5000, 5000)


def same_angle(a, b):
    d = (a - b) % 360
    return min(d, 360 - d) < 1e-9


def domain(obs, rng, u):
    def one(x, y, how):
        obs.count('angles')
        obs.count('wrapped', not -180 <= x <= 180)
        obs.check(-180 <= y <= 180, 'range', '%r wrapped (%s) to %r' % (x, how, y))
        obs.check(same_angle(x, y), 'equivalent', '%r wrapped (%s) to %r' % (x, how, y))
        if -180 <= x <= 180:
            obs.check(abs(x - y) < 1e-9, 'identity', 'the in-range angle %r became %r' % (x, y))
    for _ in range(60):
        x = angle(rng)
        one(x, u.longitude_domain(x), 'number')
    xs = [angle(rng) for _ in range(rng.randint(0, 40))]
    ys = u.longitude_domain(list(xs))
    if obs.check(isinstance(ys, list) and len(ys) == len(xs), 'list', 'a list of %d angles gave %r' % (len(xs), type(ys))):
        for x, y in zip(xs, ys):
            one(x, y, 'list')
    a = np.array(xs, dtype=float)
    a0 = a.copy()
    ya = u.longitude_domain(a)
    if obs.check(isinstance(ya, np.ndarray) and ya.shape == a.shape, 'array', 'an array of %s gave %r' % (a.shape, type(ya))):
        for x, y in zip(xs, ya):
            one(x, y, 'array')
    obs.check(np.array_equal(a, a0), 'input', 'wrapping changed its input')
    if xs:
        m = np.array([xs, xs[::-1]], dtype=float)
        ym = u.longitude_domain(m)
        if obs.check(np.shape(ym) == m.shape, 'array', 'shape %s became %s' % (m.shape, np.shape(ym))):
            for x, y in zip(m.ravel(), np.ravel(ym)):
                one(x, y, 'matrix')
        yn = u.longitude_domain([xs, [xs[0]]])
        obs.check([len(q) for q in yn] == [len(xs), 1], 'list', 'nested list shape')


def distance(obs, rng, u):
    for _ in range(100):
        a, b = angle(rng), angle(rng)
        if rng.random() < 0.2:
            b = a + rng.choice([0, 360, 180, -180, 0.5, 359.5])
        d = float(u.longitude_distance(a, b))
        w = (b - a) % 360
        w = min(w, 360 - w)
        obs.count('pairs')
        obs.check(abs(d - w) < 1e-8, 'distance', 'distance of %r and %r is %r, expected %r' % (a, b, d, w))
        obs.check(abs(d - float(u.longitude_distance(b, a))) < 1e-9, 'symmetry', 'distance of %r and %r depends on the order' % (a, b))
        obs.check(0 <= d <= 180, 'range', 'distance of %r and %r is %r' % (a, b, d))


def number(rng):
    k = rng.random()
    if k < 0.08:
        return rng.choice([0.0, float('inf'), float('-inf'), float('nan'), -0.0])
    if k < 0.2:
        return float(rng.randint(-10 ** 7, 10 ** 7))
    if k < 0.3:
        return rng.choice([9.9995, 0.99995, 99999.5, -999.996, 0.000999995, 1.0, 10.0, 1000.0, 0.1, 0.001, 1e15, 123456.789])
    if k < 0.5:
        return rng.choice([-1, 1]) * rng.random() * 10.0 ** rng.randint(-280, 280)
    return rng.choice([-1, 1]) * rng.random() * 10.0 ** rng.randint(-8, 8)


def okround(x, y, n):
    if x != x:
        return y != y
    if math.isinf(x):
        return y == x
    if x == 0:
        return y == 0
    with localcontext() as c:
        c.prec = 800
        d = Decimal(x)
        q = Decimal(10) ** (d.adjusted() - n + 1)
        r = (d / q).to_integral_value(rounding=ROUND_HALF_EVEN) * q
        near = abs(d - r)
        other = r + q if d > r else r - q
        cand = [r] + ([other] if abs(abs(d - other) - near) <= q * Decimal('1e-6') else [])
        return any(abs(Decimal(float(y)) - z) <= abs(z) * Decimal('1e-14') for z in cand)


def sigfig(obs, rng, u):
    n = rng.randint(1, 10)
    kw = dict(sigfig=n)
    if rng.random() < 0.2:
        n, kw = 5, {}

    def note(x):
        obs.count('rounded')
        obs.count('rounded_special', x == 0 or x != x or math.isinf(x))
    for _ in range(25):
        x = number(rng)
        note(x)
        y = u.round_to_sigfig(x, **kw)
        if obs.check(isinstance(y, float), 'type', 'rounding a number gave %r' % type(y)):
            obs.check(okround(x, y, n), 'round', '%r to %d figures gave %r' % (x, n, y))
    for mk in ('list', 'array'):
        xs = [number(rng) for _ in range(rng.randint(1, 30))]
        inp = list(xs) if mk == 'list' else np.array(xs)
        y = u.round_to_sigfig(inp, **kw)
        obs.check(isinstance(y, list if mk == 'list' else np.ndarray) and len(y) == len(xs), 'type', 'rounding a %s gave %r' % (mk, type(y)))
        for a, b in zip(xs, y):
            note(a)
            obs.check(okround(a, b, n), 'round-' + mk, '%r to %d figures in a %s gave %r' % (a, n, mk, b))
        obs.check(repr(list(inp)) == repr(list(np.array(xs)) if mk == 'array' else xs), 'input', 'rounding changed its input')
    for _ in range(8):
        x = rng.choice([0, 1, 9, 10, 99995, -123456, rng.randint(-10 ** 9, 10 ** 9)])
        obs.count('rounded_whole')
        y = u.round_to_sigfig(x, **kw)
        obs.check(okround(float(x), float(y), n), 'round-whole', 'the whole number %r to %d figures gave %r' % (x, n, y))
    xs = [rng.randint(-10 ** 6, 10 ** 6) for _ in range(5)]
    for inp in (list(xs), np.array(xs)):
        for a, b in zip(xs, u.round_to_sigfig(inp, **kw)):
            obs.count('rounded_whole')
            obs.check(okround(float(a), float(b), n), 'round-whole', 'the whole number %r to %d figures gave %r' % (a, n, b))
    x = np.float64(number(rng))
    y = u.round_to_sigfig(x, **kw)
    obs.check(okround(float(x), float(np.ravel(y)[0]), n) and np.size(y) == 1, 'round', 'np.float64 %r gave %r' % (x, y))
    for bad in ('1.5', None, {'a': 1}):
        with obs.expect_raise('refuse', 'rounding %r was not refused' % (bad,), ValueError):
            u.round_to_sigfig(bad, **kw)


def month(obs, rng, u):
    for _ in range(30):
        y, m = rng.choice([1900, 2000, 2019, 2020, 2021, 2024, 2100, rng.randint(1980, 2050)]), rng.randint(1, 12)
        n = calendar.monthrange(y, m)[1]
        a, b = sorted([rng.randint(1, n), rng.randint(1, n)])
        kw = {}
        sa, sb = 1, n
        if rng.random() < 0.7:
            kw['start_date'], sa = datetime(y, m, a), a
        if rng.random() < 0.7:
            kw['end_date'], sb = datetime(y, m, b), b
        obs.count('months')
        got = u.frac_of_month(y, m, **kw)
        obs.check(abs(got - (sb - sa + 1) / n) < 1e-12, 'month', 'share of %d-%d from %d to %d is %r' % (y, m, sa, sb, got))
        o = m % 12 + 1
        with obs.expect_raise('month-refuse', 'a start date in another month was accepted', AssertionError):
            u.frac_of_month(y, m, start_date=datetime(y, o, 1), end_date=datetime(y, m, n))
        with obs.expect_raise('month-refuse', 'an end date in another month was accepted', AssertionError):
            u.frac_of_month(y, m, start_date=datetime(y, m, 1), end_date=datetime(y, o, 1))


def days(obs, rng, u):
    for _ in range(20):
        a = datetime(rng.choice([1999, 2000, 2019, 2020, 2100]), rng.randint(1, 12), rng.randint(1, 28))
        n = rng.choice([0, 1, 2, 31, 366, rng.randint(0, 800)])
        b = a + timedelta(days=n)
        got = list(u.date_range(a, b))
        obs.count('ranges')
        obs.check(got == [a + timedelta(days=k) for k in range(n)], 'dates', '%s to %s gave %d dates, expected %d' % (a, b, len(got), n))
        s = a.strftime('%Y-%m-%d')
        obs.check(u.str_to_datetime(s) == a, 'parse', '%s parsed as %s' % (s, u.str_to_datetime(s)))
    for bad in ('2020-13-01', '2020-02-30', '01/02/2020', ''):
        with obs.expect_raise('parse-refuse', '%r was parsed as a date' % bad, ValueError):
            u.str_to_datetime(bad)


def duration(obs, rng, u):
    import re
    for _ in range(60):
        k = rng.random()
        if k < 0.3:
            x = rng.randint(0, 4000) / 24 / rng.choice([1, 60])
        elif k < 0.5:
            x = rng.randint(0, 40) + rng.choice([0, -1, 1]) * rng.choice([1e-7, 1e-5, 1e-4, 1 / 1440, 1 / 2880, 1 / 24])
        else:
            x = rng.random() * rng.choice([0.01, 0.2, 1, 10, 400])
        x = max(0.0, x)
        for mins in (False, True):
            s = u.convert_decimal_days(x, mins=mins) if mins or rng.random() < 0.5 else u.convert_decimal_days(x)
            obs.count('durations')
            m = re.fullmatch(r'(?:(\d+) days )?(?:(\d+) hours )?(\d+) minutes' if mins else r'(?:(\d+) days )?()(\d+(?:\.\d+)?) hours', s)
            if not obs.check(m, 'duration-form', '%r days read as %r' % (x, s)):
                continue
            d, h = int(m.group(1) or 0), 0
            if mins:
                h, mi = int(m.group(2) or 0), int(m.group(3))
                obs.check(abs(d * 1440 + h * 60 + mi - x * 1440) <= 0.5 + 1e-6, 'duration', '%r days read as %r' % (x, s))
                obs.check(mi < 60 and h < 24, 'duration-carry', '%r days read as %r' % (x, s))
            else:
                h = float(m.group(3))
                obs.check(abs(d * 24 + h - x * 24) <= 0.005 + 1e-6, 'duration', '%r days read as %r' % (x, s))
                obs.check(h < 24, 'duration-carry', '%r days read as %r' % (x, s))


def field(obs, rng, u):
    for _ in range(10):
        ny, nx = rng.randint(2, 9), rng.randint(2, 9)
        a, b, c, d, e, f = [rng.randint(-8, 8) / 2 for _ in range(6)]
        Y, X = np.mgrid[:ny, :nx].astype(float)
        flow = np.dstack([a + b * X + c * Y, d + e * X + f * Y])
        f0 = flow.copy()
        obs.count('flows')
        cu, di = u.curl(flow), u.divergence(flow)
        obs.check(np.shape(cu) == (nx, ny) and np.allclose(cu, e - c), 'curl', 'curl of a linear field', got=np.asarray(cu).tolist(), want=e - c)
        obs.check(np.shape(di) == (nx, ny) and np.allclose(di, b + f), 'divergence', 'divergence of a linear field', got=np.asarray(di).tolist(), want=b + f)
        obs.check(np.array_equal(flow, f0), 'input', 'the flow was changed')


def grf(obs, rng, u):
    for _ in range(3):
        n, al = rng.choice([2, 3, 4, 7, 16, 33]), rng.choice([0, 1, 2.0, 3.0, 5])
        s = rng.randint(0, 10 ** 6)
        np.random.seed(s)
        a = u.gaussian_random_field(n, al)
        np.random.seed(s)
        b = u.gaussian_random_field(n, al)
        obs.count('random_fields')
        obs.check(np.shape(a) == (n, n), 'grf-shape', 'a field of size %d has shape %s' % (n, np.shape(a)))
        obs.check(np.array_equal(a, b), 'grf-repeat', 'the same seed gave different fields')
        obs.check(abs(a.min()) < 1e-12 and abs(a.max() - 1) < 1e-12 and np.isfinite(a).all(), 'grf-range', 'the field spans %r to %r' % (a.min(), a.max()))


def wrap(obs, rng, u):
    from meshiphi.mesh_generation.boundary import Boundary
    seen = []

    def f(x, y=2):
        """doc"""
        seen.append((x, y))
        if x < 0:
            raise KeyError(x)
        return [x, y]
    for deco in (u.timed_call, u.memory_trace):
        g = deco(f)
        obs.count('decorated', 3)
        x, y = rng.randint(0, 9), rng.randint(0, 9)
        obs.check(g(x, y=y) == [x, y] and g(x) == [x, 2], 'decorator', 'a decorated function returned something else')
        obs.check(g.__name__ == 'f' and g.__doc__ == 'doc', 'decorator', 'name lost')
        with obs.expect_raise('decorator-raise', 'a decorated function lost its exception', KeyError):
            g(-1)
    obs.check(len(seen) == 6, 'decorator', 'called %d times, not 6' % len(seen))
    la, lo = rng.randint(-80, 70), rng.randint(-170, 160)
    b = Boundary([la, la + 5], [lo, lo + 7])
    obs.check(u.boundary_to_coords(b) == ((la, lo), (la + 5, lo + 7)), 'coords', 'corners of a boundary', got=u.boundary_to_coords(b))


def run_case(case, obs):
    from meshiphi import utils as u
    globals()[case['kind']](obs, obs.rng, u)
    obs.state(case['kind'], case['i'] % 7)
    obs.nontrivial = True
