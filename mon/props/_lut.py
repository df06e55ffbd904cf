"""Polygon look-up workloads"""
import json

import numpy as np
import pandas as pd
from shapely.geometry import MultiPolygon, Point, Polygon, box

from mon import gen, ref
from mon.props.c05 import wrap_w


def cell_poly(c, west):
    lo, hi = west + c.u0, west + c.u1
    if lo >= 180:
        lo, hi = lo - 360, hi - 360
    if hi <= 180:
        return box(lo, c.lat0, hi, c.lat1)
    return MultiPolygon([box(lo, c.lat0, 180, c.lat1), box(-180, c.lat0, hi - 360, c.lat1)])


def boundary(c, west, t=None):
    from meshiphi.mesh_generation.boundary import Boundary
    if c.u1 - c.u0 >= 360:
        return Boundary([c.lat0, c.lat1], [-180, 180], list(t) if t else None)
    return Boundary([c.lat0, c.lat1], [wrap_w(west + c.u0), ref.wrap_e(west + c.u1)], list(t) if t else None)


def rand_poly(rng, r):
    """polygon with corners on a fine dyadic lattice of the region"""
    nx, ny = gen.size(r)
    dx, dy = r['cell_width'] / 8, r['cell_height'] / 8
    west = r['long_min']

    def rect():
        i0, j0 = rng.randint(-4, nx * 8 - 1), rng.randint(-4, ny * 8 - 1)
        i1, j1 = i0 + rng.randint(1, nx * 6), j0 + rng.randint(1, ny * 6)
        lo, hi = west + i0 * dx, west + i1 * dx
        if lo >= 180:
            lo, hi = lo - 360, hi - 360
        hi = min(hi, 180.0) if lo < 180 else hi
        if hi <= lo:
            hi = lo + dx
        la0 = max(-90, r['lat_min'] + j0 * dy)
        la1 = min(90, r['lat_min'] + j1 * dy)
        if la1 <= la0:
            la0, la1 = r['lat_min'], r['lat_min'] + dy
        return lo, la0, hi, la1
    k = rng.choice(['rect', 'rect', 'tri', 'hole', 'multi'])
    a = rect()
    if k == 'rect':
        return box(*a)
    if k == 'tri':
        return Polygon([(a[0], a[1]), (a[2], a[1]), (a[0], a[3])])
    if k == 'hole':
        w, h = (a[2] - a[0]) / 4, (a[3] - a[1]) / 4
        return Polygon(box(*a).exterior.coords, [box(a[0] + w, a[1] + h, a[2] - w, a[3] - h).exterior.coords])
    b = rect()
    # a second part to the north of / apart from the first
    if b[0] < a[2] and b[2] > a[0] and b[1] < a[3] and b[3] > a[1]:
        return box(*a)
    m = MultiPolygon([box(*a), box(*b)])
    return m if m.is_valid else box(*a)


def rows(rng, r, n, nan=0.1, dated=False):
    out = []
    for _ in range(n):
        v = float(rng.randint(-40, 40)) / 4
        if rng.random() < nan:
            v = float('nan')
        t = rng.choice([gen.day(k) for k in (-1, 0, 2, 2, 6, 9, 10)]) if dated else None
        out.append(dict(poly=rand_poly(rng, r), v=v, t=t))
    return out


def parts(rws):
    out = []
    for x in rws:
        if x['poly'].geom_type == 'MultiPolygon':
            out += [dict(x, poly=g) for g in x['poly'].geoms]
        else:
            out.append(x)
    return out


def make_loader(bnd, rws, name='lutv', params=None, dated=False):
    """A user-defined look-up source, as the documentation describes"""
    from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader

    class Custom(LutDataLoader):
        def import_data(self, bounds):
            d = dict(geometry=[x['poly'] for x in rws], **{name: [x['v'] for x in rws]})
            if dated:
                d['time'] = pd.to_datetime([x['t'] for x in rws])
            df = pd.DataFrame(d)
            if dated:
                df = df.set_index('time').sort_index()
            return df
    return Custom(bnd, dict(params or {}))


def expect(sel, cellp, agg):
    """sel: parts intersecting the cell -> list of acceptable values, or None: anything (undecided)"""
    nan = float('nan')
    if agg == 'COUNT':
        return [float(len(sel))]
    if not sel:
        return [nan]
    vals = [x['v'] for x in sel]
    if agg in ('MIN', 'MAX'):
        if any(ref.isnan(v) for v in vals):
            return [nan]
        return [min(vals) if agg == 'MIN' else max(vals)]
    ws = [x['poly'].intersection(cellp).area for x in sel]
    if any(0 < w < 1e-9 for w in ws):
        return None
    pos = [(v, w) for v, w in zip(vals, ws) if w > 0]
    if not pos:
        return [nan]
    if any(ref.isnan(v) for v, _ in pos):
        return [nan]
    W = sum(w for _, w in pos)
    mean = sum(v * w for v, w in pos) / W
    if agg == 'MEAN':
        return [mean]
    if agg == 'STD':
        return [(sum(w * (v - mean) ** 2 for v, w in pos) / W) ** 0.5]
    eps = 1e-9 * W
    return [v for v, _ in pos if sum(w for x, w in pos if x < v) <= W / 2 + eps and sum(w for x, w in pos if x > v) <= W / 2 + eps]


def rand_cell(rng, r):
    nx, ny = gen.size(r)
    div = rng.choice([1, 2, 4, 8])
    i0, j0 = rng.randint(0, nx * div - 1), rng.randint(0, ny * div - 1)
    i1, j1 = min(i0 + rng.randint(1, div), nx * div), min(j0 + rng.randint(1, div), ny * div)
    cw, ch = r['cell_width'] / div, r['cell_height'] / div
    return ref.Cell(r['lat_min'] + j0 * ch, r['lat_min'] + j1 * ch, i0 * cw, i1 * cw)


def covered(rws, r):
    whole = cell_poly(ref.Cell(r['lat_min'], r['lat_max'], 0, ref.width(r['long_min'], r['long_max'])), r['long_min'])
    return any(x['poly'].intersection(whole).area > 1e-6 for x in rws)
