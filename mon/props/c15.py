"""Cases: random rectangles on a dyadic lattice (plain, crossing, starting or
ending at the antimeridian, global, degenerate in time), random dates, malformed
ranges and dates, and pairs differing in one edge or date. Every case is
non-trivial. Monitor: exact arithmetic on longitudes measured east of the
western edge."""
import json
import math
from datetime import date, timedelta

from mon import core, gen, ref

KINDS = [('geometry', 5), ('refuse', 3), ('dates', 2), ('equality', 2)]
MIN_OBS = {'geometry': 300, 'crossing': 60, 'at_seam': 60, 'global': 5, 'splits': 300, 'round_trips': 300, 'refusals_expected': 200, 'relative_dates': 50, 'differing_pairs': 60}
ASSUMPTIONS = ['relative dates accept the date before or after the call, should midnight pass between']


def cases(tier, seed):
    return core.mkcases('C15', KINDS, tier, seed, 12000, 60000)


def rect(rng, seam=True):
    la0 = rng.randint(-90 * 4, 90 * 4 - 1) / 4
    la1 = rng.randint(int(la0 * 4) + 1, 360) / 4
    k = rng.choice(['plain', 'cross', 'start', 'end', 'global', 'plain', 'cross', 'to180', 'from-180'])
    w = rng.randint(1, 359 * 4) / 4 if rng.random() < 0.6 else rng.choice([0.5, 1, 5, 90, 179.75, 180, 180.25])
    if k == 'global':
        return k, la0, la1, -180, 180, 360
    if k == 'plain':
        w = min(w, 350)
        lo = -180 + rng.randint(1, int((359 - w) * 4)) / 4
        return k, la0, la1, lo, lo + w, w
    if k == 'to180':
        return k, la0, la1, 180 - w, 180, w
    if k == 'from-180':
        return k, la0, la1, -180, -180 + w, w
    if k == 'start':
        return k, la0, la1, 180, -180 + w, w
    if k == 'end':
        return k, la0, la1, 180 - w, -180, w
    lo = 180 - rng.randint(1, max(1, int(w * 4) - 1)) / 4
    hi = lo + w - 360
    if hi <= -180:
        return 'end', la0, la1, 180 - w, -180, w
    return k, la0, la1, lo, hi, w


def east_of(long, west):
    return (long - west) % 360


def run_case(case, obs):
    from meshiphi.mesh_generation.boundary import Boundary
    rng = obs.rng
    obs.nontrivial = True
    globals()['do_' + case['kind']](obs, rng, Boundary)


def times(rng):
    a = date(2020, 1, 1) + timedelta(days=rng.randint(-9000, 9000))
    b = a + timedelta(days=rng.choice([0, 1, 30, 400]))
    return a.isoformat(), b.isoformat()


def do_geometry(obs, rng, Boundary):
    k, la0, la1, lo, hi, w = rect(rng)
    t = times(rng)
    with_t = rng.random() < 0.7
    if rng.random() < 0.3 and with_t:
        b = Boundary.from_json(dict(region=dict(lat_min=la0, lat_max=la1, long_min=lo, long_max=hi, start_time=t[0], end_time=t[1], cell_width=1, cell_height=1)))
    else:
        b = Boundary([la0, la1], [lo, hi], list(t) if with_t else None)
    d = dict(rect=(la0, la1, lo, hi))
    obs.count('geometry')
    obs.count('crossing', k == 'cross')
    obs.count('at_seam', k in ('start', 'end', 'to180', 'from-180'))
    obs.count('global', k == 'global')
    obs.state(la0, la1, lo, hi)
    obs.sample = d
    h = la1 - la0
    obs.check(b.get_width() == w, 'width', 'width of %s is %s, should be %s' % (b, b.get_width(), w))
    obs.check(b.get_height() == h, 'height', 'height of %s is %s' % (b, b.get_height()))
    obs.check(b.getdcx() == w / 2 and b.getdcy() == h / 2, 'half', 'half sizes of %s are %s %s' % (b, b.getdcx(), b.getdcy()))
    cx, cy = b.getcx(), b.getcy()
    obs.check(-180 <= cx <= 180 and east_of(cx, lo) == w / 2 % 360 and cy == la0 + h / 2, 'centre', 'centre of %s is %s %s' % (b, cx, cy))
    obs.check((b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max()) == (la0, la1, lo, hi), 'edges', 'edges of %s' % b)
    if with_t:
        obs.check((b.get_time_min(), b.get_time_max()) == t and list(b.get_time_range()) == list(t), 'times', 'times of %s, should be %s' % (b, t))
    corners = b.get_bounds()
    obs.check([tuple(c) for c in corners] == [(lo, la0), (lo, la1), (hi, la1), (hi, la0), (lo, la0)], 'corners', 'corners of %s are %s' % (b, corners))
    # size in metres: half diagonal over the sphere
    def vec(la, lo_):
        la, lo_ = math.radians(la), math.radians(lo_)
        return (math.cos(la) * math.cos(lo_), math.cos(la) * math.sin(lo_), math.sin(la))
    p, q = vec(la0, lo), vec(la1, hi)
    cr = (p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0])
    ang = math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(p, q)))
    want = 6371000 * ang / math.sqrt(2)
    if ang < 3.1:
        obs.check(abs(b.calc_size() - want) <= 1e-6 * want + 0.5, 'size', 'size of %s is %s m, should be %s' % (b, b.calc_size(), want))
    # polygon
    poly = b.to_polygon()
    obs.check(poly.is_valid and abs(poly.area - w * h) < 1e-6 * w * h, 'area', 'polygon of %s has area %s, should be %s' % (b, poly.area, w * h))
    try:
        pr = ref.poly_rect(poly.wkt)
        ok = pr[0] == la0 and pr[1] == la1 and east_of(pr[2], lo) == 0 and pr[3] - pr[2] == w
    except ValueError as e:
        ok, pr = False, str(e)
    obs.check(ok, 'polygon', 'polygon of %s is %s' % (b, pr))
    s = b.to_poly_string()
    obs.check(s == poly.wkt, 'string', 'polygon string differs from polygon')
    back = Boundary.from_poly_string(s)
    obs.count('round_trips')
    obs.check(back.get_lat_min() == la0 and back.get_lat_max() == la1 and east_of(back.get_long_min(), lo) == 0 and back.get_width() == w,
              'round-trip', '%s became %s through %s' % (b, back, s))
    # split
    parts = b.split()
    obs.count('splits')
    obs.check(len(parts) == 4, 'split-n', 'split gave %d parts' % len(parts))
    want = sorted((la, la + h / 2, u, w / 2) for la in (la0, la0 + h / 2) for u in (0, w / 2))
    got = sorted((x.get_lat_min(), x.get_lat_max(), east_of(x.get_long_min(), lo), x.get_width()) for x in parts)
    obs.check(got == want, 'split', 'split of %s gave %s' % (b, [str(x) for x in parts]))
    order = [(x.get_lat_min() > la0, east_of(x.get_long_min(), lo) > 0) for x in parts]
    obs.check(order == [(False, False), (True, False), (False, True), (True, True)], 'split-order', 'split of %s is not ordered SW, NW, SE, NE: %s' % (b, [str(x) for x in parts]))
    if with_t:
        obs.check(all(list(x.get_time_range()) == list(t) for x in parts), 'split-time', 'split changed the time range')
    obs.check((b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max()) == (la0, la1, lo, hi), 'changed', 'using %s changed it' % b)


def do_refuse(obs, rng, Boundary):
    k, la0, la1, lo, hi, w = rect(rng)
    t = list(times(rng))
    fault = rng.choice(['lat', 'long_min_low', 'long_max_high', 'long_min_high', 'long_max_low', 'time', 'date', 'short_lat', 'short_long', 'short_time', 'long_time'])
    lat, lon = [la0, la1], [lo, hi]
    e = rng.choice([1 / 64, 1, 40, 360])
    if fault == 'lat':
        lat = [la1, la0]
    elif fault == 'long_min_low':
        lon[0] = -180 - e
    elif fault == 'long_max_high':
        lon[1] = 180 + e
    elif fault == 'long_min_high':
        lon[0] = 180 + e
    elif fault == 'long_max_low':
        lon[1] = -180 - e
    elif fault == 'time':
        t = [(date.fromisoformat(t[1]) + timedelta(days=rng.choice([1, 31, 365]))).isoformat(), t[1]]
    elif fault == 'date':
        t[rng.randint(0, 1)] = rng.choice(['2020-13-01', '2020-02-30', 'yesterday', '2020/01/01', 'TODAY+x', 'TODAY 5', '', 'TODAY + ', 'TODAY - y', '01-02-2020', 'TODAY*3'])
    elif fault == 'short_lat':
        lat = [la0]
    elif fault == 'short_long':
        lon = [lo]
    elif fault == 'short_time':
        t = t[:1]
    else:
        t = t + [t[1]]
    obs.count('fault_' + fault)
    obs.state(fault, tuple(lat), tuple(lon), tuple(t))
    obs.sample = dict(fault=fault, lat=lat, long=lon, time=t)
    with obs.expect_raise('accepted:' + fault, 'a boundary with a fault (%s) was accepted: %s %s %s' % (fault, lat, lon, t)):
        Boundary(list(lat), list(lon), list(t))


def do_dates(obs, rng, Boundary):
    n = rng.choice([0, 1, 3, 16, 31, 400, rng.randint(0, 3000)])
    sign = rng.choice([1, -1])
    s = 'TODAY%s%s%s%d%s' % (' ' * rng.randint(0, 2), '+' if sign > 0 else '-', ' ' * rng.randint(0, 2), n, ' ' * rng.randint(0, 1))
    if rng.random() < 0.15:
        s, n = rng.choice(['TODAY', ' TODAY ', 'today']), 0
    if rng.random() < 0.2:
        s = s.lower()
    before = date.today()
    got = Boundary.parse_datetime(s)
    after = date.today()
    want = {(d + timedelta(days=sign * n)).isoformat() for d in (before, after)}
    obs.count('relative_dates')
    obs.state(s)
    obs.sample = dict(date=s)
    obs.check(got in want, 'relative', '%r resolves to %s, should be %s' % (s, got, want))
    # used in a boundary
    lo, hi = sorted([sign * n, 0])
    ta = s if sign * n <= 0 else 'TODAY'
    tb = 'TODAY' if sign * n <= 0 else s
    b = Boundary([0, 1], [0, 1], [ta, tb])
    after = date.today()
    obs.check(b.get_time_min() in {(d + timedelta(days=lo)).isoformat() for d in (before, after)} and
              b.get_time_max() in {(d + timedelta(days=hi)).isoformat() for d in (before, after)}, 'relative-range', 'range %s..%s resolves to %s' % (ta, tb, b.get_time_range()))
    a = times(rng)[0]
    obs.check(Boundary.parse_datetime(a) == a, 'absolute', '%s resolves to %s' % (a, Boundary.parse_datetime(a)))


def do_equality(obs, rng, Boundary):
    k, la0, la1, lo, hi, w = rect(rng)
    if k in ('global', 'start', 'end', 'to180', 'from-180'):
        lo, hi = 10, 20
    t = list(times(rng))
    a = Boundary([la0, la1], [lo, hi], list(t))
    b = Boundary([float(la0), float(la1)], [float(lo), float(hi)], list(t))
    obs.check(a == b and not (a != b), 'equal', 'equal boundaries compare unequal')
    e = 1 / 8
    which = rng.choice(['lat0', 'lat1', 'long0', 'long1', 'start', 'end'])
    lat, lon, t2 = [la0, la1], [lo, hi], list(t)
    if which == 'lat0':
        lat[0] -= e
    elif which == 'lat1':
        lat[1] += e
    elif which == 'long0':
        lon[0] = lon[0] - e if lon[0] - e >= -180 else lon[0] + e
    elif which == 'long1':
        lon[1] = lon[1] + e if lon[1] + e <= 180 else lon[1] - e
    elif which == 'start':
        t2[0] = (date.fromisoformat(t2[0]) - timedelta(days=1)).isoformat()
    elif which == 'end':
        t2[1] = (date.fromisoformat(t2[1]) + timedelta(days=1)).isoformat()
    c = Boundary(lat, lon, t2)
    obs.count('differing_pairs')
    obs.state(which, la0, la1, lo, hi, tuple(t))
    obs.sample = dict(differs=which)
    obs.check(not (a == c) and not (c == a), 'unequal:' + ('time' if which in ('start', 'end') else 'space'), 'boundaries differing in %s compare equal: %s %s' % (which, a, c))
    n1, n2 = Boundary([la0, la1], [lo, hi]), Boundary([la0, la1], [lo, hi])
    obs.check(n1 == n2, 'equal', 'equal boundaries without times compare unequal')
