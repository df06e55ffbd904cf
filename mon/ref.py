"""Reference models, written from the property texts, sharing no code with the
implementation."""
import math
import re
from collections import defaultdict

NUM = r'-?[0-9.]+(?:[eE][-+]?[0-9]+)?'
DIRS = {'1': 'NE', '2': 'E', '3': 'SE', '4': 'S', '-1': 'SW', '-2': 'W', '-3': 'NW', '-4': 'N'}


def wrap_e(x):
    """angle in (-180, 180]"""
    while x > 180:
        x -= 360
    while x <= -180:
        x += 360
    return x


def width(lo, hi):
    return hi - lo if lo < hi else hi - lo + 360


def lat_in(lo, hi, x):
    return lo < x <= hi


class Cell:
    __slots__ = ('id', 'lat0', 'lat1', 'u0', 'u1', 'west', 'raw', 'depth')

    def __init__(self, lat0, lat1, u0, u1, id=None, raw=None, depth=None):
        self.lat0, self.lat1, self.u0, self.u1, self.id, self.raw, self.depth = lat0, lat1, u0, u1, id, raw, depth

    @property
    def rect(self):
        return (self.lat0, self.lat1, self.u0, self.u1)

    def __repr__(self):
        return 'Cell(id=%s lat %s..%s u %s..%s)' % (self.id, self.lat0, self.lat1, self.u0, self.u1)

    def quarters(self):
        lm, um = (self.lat0 + self.lat1) / 2, (self.u0 + self.u1) / 2
        d = None if self.depth is None else self.depth + 1
        return [Cell(lm, self.lat1, self.u0, um, depth=d), Cell(lm, self.lat1, um, self.u1, depth=d),
                Cell(self.lat0, lm, self.u0, um, depth=d), Cell(self.lat0, lm, um, self.u1, depth=d)]


def poly_rect(wkt):
    """WKT of a cell -> (lat0, lat1, west, east) with east possibly > 180"""
    parts = re.findall(r'\(\(([^()]*)\)\)', wkt)
    if not parts:
        raise ValueError('unreadable polygon ' + wkt)
    boxes = []
    for p in parts:
        xy = [tuple(map(float, c.split())) for c in p.split(',')]
        xs, ys = [a for a, _ in xy], [b for _, b in xy]
        box = (min(ys), max(ys), min(xs), max(xs))
        if set(xy) != {(x, y) for x in box[2:] for y in box[:2]} or len(xy) != 5 or xy[0] != xy[-1]:
            raise ValueError('cell polygon is not a rectangle: ' + wkt)
        # ring must walk round the rectangle
        for a, b in zip(xy, xy[1:]):
            if (a[0] != b[0]) == (a[1] != b[1]):
                raise ValueError('cell polygon ring is not a rectangle: ' + wkt)
        boxes.append(box)
    if len(boxes) == 1:
        return boxes[0]
    if len(boxes) != 2:
        raise ValueError('cell polygon has %d parts' % len(boxes))
    a, b = sorted(boxes, key=lambda q: -q[2])
    if a[3] != 180 or b[2] != -180 or a[:2] != b[:2]:
        raise ValueError('cell polygon parts do not join at the antimeridian: ' + wkt)
    return (a[0], a[1], a[2], b[3] + 360)


def parse_cells(doc, west):
    """cells of a mesh document, longitudes measured east from `west`"""
    out = []
    for c in doc['cellboxes']:
        la0, la1, w, e = poly_rect(c['geometry'])
        u0 = (w - west) % 360
        out.append(Cell(la0, la1, u0, u0 + (e - w), id=str(c['id']), raw=c))
    return out


def check_fields(obs, doc, key='fields'):
    """polygon, centre and half sizes describe the same rectangle"""
    for c in doc['cellboxes']:
        la0, la1, w, e = poly_rect(c['geometry'])
        cx = wrap_e((w + e) / 2)
        ok = (c['cy'] == (la0 + la1) / 2 and c['dcy'] == (la1 - la0) / 2 and c['dcx'] == (e - w) / 2
              and (wrap_e(c['cx']) == cx) and -180 <= c['cx'] <= 180)
        obs.check(ok, key, 'centre/half sizes do not describe the polygon', cell={k: c.get(k) for k in ('id', 'geometry', 'cx', 'cy', 'dcx', 'dcy')})


def tiling_errors(cells, H0, H1, W, allow_wrap=False):
    """gaps/overlaps/outside of cells against the region lat H0..H1, u 0..W.
    Exact: paints the coordinate-compressed grid."""
    errs = []
    lats = sorted({H0, H1} | {c.lat0 for c in cells} | {c.lat1 for c in cells})
    us = sorted({0, W} | {c.u0 for c in cells} | {c.u1 for c in cells})
    li = {v: i for i, v in enumerate(lats)}
    ui = {v: i for i, v in enumerate(us)}
    paint = defaultdict(int)
    for c in cells:
        if not (c.lat0 < c.lat1 and c.u0 < c.u1):
            errs.append(('degenerate', repr(c)))
        if c.lat0 < H0 or c.lat1 > H1 or c.u0 < 0 or c.u1 > W:
            errs.append(('outside', repr(c)))
        for i in range(li[c.lat0], li[c.lat1]):
            for j in range(ui[c.u0], ui[c.u1]):
                paint[i, j] += 1
    for i in range(li[H0], li[H1]):
        for j in range(ui[0], ui[W]):
            n = paint.get((i, j), 0)
            if n != 1:
                errs.append(('gap' if n == 0 else 'overlap', 'lat %s..%s u %s..%s covered %d times' % (lats[i], lats[i + 1], us[j], us[j + 1], n)))
                if len(errs) > 5:
                    return errs
    return errs


def adjacency(cells, period=None):
    """{id: {dir: set(ids)}} from geometry. period: 360 when the cells ring the
    globe (u taken modulo 360), None for a strip."""
    G = {c.id: {d: set() for d in DIRS} for c in cells}
    byw = defaultdict(list)
    bys = defaultdict(list)
    m = (lambda x: x % period) if period else (lambda x: x)
    for c in cells:
        byw[m(c.u0)].append(c)
        bys[c.lat0].append(c)
    for a in cells:
        for b in byw.get(m(a.u1), ()):      # b's west edge on a's east edge
            if b.lat0 < a.lat1 and b.lat1 > a.lat0:
                G[a.id]['2'].add(b.id); G[b.id]['-2'].add(a.id)
            elif b.lat0 == a.lat1:
                G[a.id]['1'].add(b.id); G[b.id]['-1'].add(a.id)
            elif b.lat1 == a.lat0:
                G[a.id]['3'].add(b.id); G[b.id]['-3'].add(a.id)
        for b in bys.get(a.lat1, ()):       # b's south edge on a's north edge
            shifts = (0, 360, -360) if period else (0,)
            if any(b.u0 + s < a.u1 and b.u1 + s > a.u0 for s in shifts):
                G[a.id]['-4'].add(b.id); G[b.id]['4'].add(a.id)
    return G


def graph_errors(doc, cells, period):
    """differences between the stored graph and geometric adjacency"""
    errs = []
    ids = [c.id for c in cells]
    G = {str(k): v for k, v in doc['neighbour_graph'].items()}
    if set(G) != set(ids):
        errs.append(('nodes', 'graph nodes differ from cells: only graph %s, only cells %s' % (sorted(set(G) - set(ids))[:6], sorted(set(ids) - set(G))[:6])))
        return errs
    want = adjacency(cells, period)
    for i in ids:
        g = {str(k): v for k, v in G[i].items()}
        if set(g) != set(DIRS):
            errs.append(('directions', 'cell %s has directions %s' % (i, sorted(g))))
            continue
        for d in DIRS:
            got = [str(x) for x in g[d]]
            if len(got) != len(set(got)):
                errs.append(('duplicate', 'cell %s direction %s lists %s' % (i, DIRS[d], got)))
            if set(got) != want[i][d]:
                errs.append(('adjacency', 'cell %s direction %s lists %s, geometry says %s' % (i, DIRS[d], sorted(set(got)), sorted(want[i][d]))))
    return errs


def nedges(doc):
    return sum(len(v) for g in doc['neighbour_graph'].values() for v in g.values())


def shape_sig(cells):
    return tuple(sorted((c.lat0, c.lat1, c.u0, c.u1) for c in cells))


# ---------------------------------------------------------------- data windows
def norm_u(long, west):
    """longitude -> distance east of west in (0, 360]"""
    u = (long - west) % 360
    return 360.0 if u == 0 else u


def in_cell(p, c, west, start, end):
    if p['time'] is not None and not (start <= p['time'] <= end):
        return False
    u = norm_u(p['long'], west)
    return c.lat0 < p['lat'] <= c.lat1 and (c.u0 < u <= c.u1)


def select(pts, c, west, start, end):
    return [p for p in pts if in_cell(p, c, west, start, end)]


def isnan(x):
    return x != x


def stat(values, agg, ddof):
    v = [x for x in values if not isnan(x)]
    if agg == 'COUNT':
        return float(len(v))
    if not v:
        return float('nan')
    if agg == 'MIN':
        return min(v)
    if agg == 'MAX':
        return max(v)
    if agg == 'MEAN':
        return math.fsum(v) / len(v)
    if agg == 'MEDIAN':
        s = sorted(v)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    if agg == 'STD':
        if len(v) - ddof <= 0:
            return float('nan')
        m = math.fsum(v) / len(v)
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (len(v) - ddof))
    raise ValueError(agg)


def close(a, b, tol=1e-9):
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, bool) or isinstance(b, bool):
        return False
    if a is None or b is None:
        return a is b
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def scalar_verdict(vals, cond, min_dp):
    """CLR / HOM / HET"""
    if len(vals) < min_dp:
        return 'CLR'
    good = [x for x in vals if not isnan(x)]
    share = sum(x > cond['threshold'] for x in good) / len(good) if good else 0
    if share <= cond['lower_bound']:
        return 'CLR'
    if share >= cond['upper_bound']:
        return 'HOM' if cond.get('split_lock') else 'CLR'
    return 'HET'


def expected_refinement(r, sources, depth, min_dp, start, end):
    """Simulate the passes over sources; -> list of Cell with depth and parent
    chain (attribute raw = parent)"""
    west = r['long_min']
    nx = int(round(width(r['long_min'], r['long_max']) / r['cell_width']))
    ny = int(round((r['lat_max'] - r['lat_min']) / r['cell_height']))
    w, h = r['cell_width'], r['cell_height']
    cells = [Cell(r['lat_min'] + j * h, r['lat_min'] + (j + 1) * h, i * w, (i + 1) * w, depth=0)
             for j in range(ny) for i in range(nx)]
    stats = defaultdict(int)

    def verdicts(c, upto):
        out = []
        for s in sources[:upto + 1]:
            if getattr(s, 'verdicts', None):        # a source of another kind judges itself
                out += s.verdicts(c)
            elif s.conds:
                vals = [p['v'][0] for p in select(s.pts, c, west, start, end)]
                out += [scalar_verdict(vals, cond, min_dp) for cond in s.conds]
        return out
    for k, s in enumerate(sources):
        if not s.conds:
            continue
        work, done = list(cells), []
        while work:
            c = work.pop()
            v = verdicts(c, k)
            for x in v:
                stats['verdict_' + x] += 1
            if 'HET' in v and 'HOM' in v:
                stats['het_but_locked'] += 1
            if 'HET' in v and 'HOM' not in v and c.depth < depth:
                stats['splits'] += 1
                qs = c.quarters()
                for q in qs:
                    q.raw = c
                work += qs
            else:
                if 'HET' in v and 'HOM' not in v:
                    stats['stopped_by_depth'] += 1
                done.append(c)
        cells = done
    return cells, stats
