"""Cases: meshes (plain, polar, touching and crossing the antimeridian, global) saved as
PNG through save() and through the plotter, with colour map layers, layers of
flagged cells, both, and two pictures one after the other. Non-trivial when the
cells differ in colour. Monitor: the colour of the picture's pixel at the middle
of each cell and at points near its corners against the value of that cell; the
mesh before and after."""
import json
import os

import numpy as np

from mon import core, gen, ref
from mon.props import c11

KINDS = [('plain', 5), ('pole', 1), ('touch_e', 1), ('touch_w', 1), ('wide', 1), ('anti', 2), ('global', 1)]
BIG = 60      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'pictures': 150, 'extents': 150, 'pixels': 4000, 'cmap_pixels': 1500, 'flag_pixels': 500, 'unflagged_pixels': 500, 'second_pictures': 30, 'colours': 1000, 'plotter': 30, 'crossing': 8, 'merged': 20}
ASSUMPTIONS = ['cells without a value, with an infinite one, and layers of one single value have no colour of their own and are not judged',
               'the place of a point in the picture is taken from the axes of the figure at the moment it is saved']
CMAPS = ['viridis', 'Blues', 'jet', 'coolwarm', 'gray', 'YlOrRd', 'plasma_r']
COLOURS = {'red': (255, 0, 0), 'lime': (0, 255, 0), 'gold': (255, 215, 0), 'black': (0, 0, 0), '#102030': (16, 32, 48)}


def cases(tier, seed):
    return core.mkcases('C29', KINDS, tier, seed, 360, 3000)


def run_case(case, obs):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.figure
    import matplotlib.pyplot as plt
    rng = obs.rng
    r, srcs, depth, mindp = gen.refining_workload(rng, obs.scratch, kind=case['kind'], max_cols=4, max_rows=3, depth=rng.choice([0, 1, 1, 2]), nsrc=rng.choice([1, 2]))
    m = gen.build(gen.config(r, srcs, depth, mindp))
    if rng.random() < 0.25:
        r2 = c11.second_region(rng, r, place=rng.choice(['inside', 'corner', 'all', 'seam']))
        m.merge_mesh(gen.build(gen.config(r2, srcs, rng.choice([0, 1, 2]), mindp)))
        obs.count('merged')
    doc = json.loads(json.dumps(m.to_json()))
    W, H = ref.width(r['long_min'], r['long_max']), r['lat_max'] - r['lat_min']
    if not 0.05 < W / H < 6:
        obs.count('too_narrow')
        return
    for c in doc['cellboxes']:
        c['flag'] = rng.random() < 0.5
        c['land'] = rng.random() < 0.3
    names = [n for n in ('q0', 'q1') if n in doc['cellboxes'][0]]
    if rng.random() < 0.3:
        rng.shuffle(doc['cellboxes'])
    mesh = gen.load(doc)
    before = json.dumps(mesh.to_json())
    seen = {}
    orig = matplotlib.figure.Figure.savefig

    def savefig(fig, *a, **k):
        out = orig(fig, *a, **k)
        seen['fig'] = fig
        return out
    matplotlib.figure.Figure.savefig = savefig
    try:
        for k in range(rng.choice([1, 1, 2])):
            lay = dict(cmaps=[], bools=[])
            if rng.random() < 0.8:
                lay['cmaps'] = [dict(data_name=rng.choice(names), cmap=rng.choice(CMAPS))]
            if not lay['cmaps'] or rng.random() < 0.6:
                lay['bools'] = [dict(data_name=n, colour=rng.choice(sorted(COLOURS))) for n in rng.sample(['flag', 'land'], rng.choice([1, 1, 2]))]
            png = os.path.join(obs.scratch, 'p%d.png' % k)
            seen.clear()
            if rng.random() < 0.7:
                conf = os.path.join(obs.scratch, 'conf%d.json' % k)
                json.dump(lay, open(conf, 'w'))
                mesh.save(png, rng.choice(['PNG', 'png']), conf)
            else:
                from meshiphi.mesh_plotting.mesh_plotter import MeshPlotter
                p = MeshPlotter(mesh.to_json(), figscale=rng.choice([6, 10]))
                for x in lay['cmaps']:
                    p.plot_cmap(x['data_name'], x['cmap'])
                for x in lay['bools']:
                    p.plot_bool(x['data_name'], x['colour'])
                p.save(png)
                obs.count('plotter')
            obs.count('pictures')
            obs.count('second_pictures', k == 1)
            obs.count('crossing', case['kind'] == 'anti')
            picture(obs, r, doc, lay, png, seen.get('fig') or plt.gcf())
    finally:
        matplotlib.figure.Figure.savefig = orig
        plt.close('all')
    obs.check(json.dumps(mesh.to_json()) == before, 'changed', 'drawing a mesh changed it')


def picture(obs, r, doc, lay, png, fig):
    import cartopy.crs as ccrs
    import matplotlib
    import matplotlib.image
    rng = obs.rng
    obs.check(os.path.exists(png) and open(png, 'rb').read(8) == b'\x89PNG\r\n\x1a\n', 'file', 'no PNG file was written')
    img = np.asarray(np.round(matplotlib.image.imread(png) * 255), dtype=int)
    ax = fig.axes[0]
    height = fig.canvas.get_width_height()[1]
    cells = ref.parse_cells(doc, r['long_min'])
    val = {}
    for x in lay['cmaps']:
        vs = [c.raw[x['data_name']] for c in cells]
        ok = [v for v in vs if not ref.isnan(v)]
        if ok and max(ok) > min(ok):
            cm = matplotlib.colormaps[x['cmap']]
            for c in cells:
                v = c.raw[x['data_name']]
                if not ref.isnan(v):
                    val[id(c)] = tuple(int(round(255 * y)) for y in cm((v - min(ok)) / (max(ok) - min(ok)))[:3])
    obs.count('colours', len(set(val.values())))
    obs.nontrivial = bool(obs.nontrivial) or len(set(val.values())) > 1 or bool(lay['bools'])
    obs.sample = dict(region=r, layers=lay, cells=len(cells), size=list(img.shape))
    obs.state(json.dumps(lay, sort_keys=True), len(cells))
    W = ref.width(r['long_min'], r['long_max'])
    sw, ne = [pixel(ax, ccrs, r['long_min'] + f * W, r['lat_min'] + f * (r['lat_max'] - r['lat_min'])) for f in (0.01, 0.99)]
    b = ax.get_window_extent()
    tol = 0.02 * max(b.width, b.height) + 2
    obs.check(abs(sw[0] - b.x0) < tol and abs(sw[1] - b.y0) < tol and abs(ne[0] - b.x1) < tol and abs(ne[1] - b.y1) < tol and b.width > 0 and b.height > 0,
              'extent', 'the region does not fill the picture, west left and north up', corners=[[float(q) for q in z] for z in (sw, ne)], axes=[float(q) for q in (b.x0, b.y0, b.x1, b.y1)])
    obs.count('extents')
    bad = []
    for c in cells:
        want, why = None, None
        if not lay['cmaps']:
            want, why = (255, 255, 255), 'unflagged'
        if id(c) in val:
            want, why = val[id(c)], 'cmap'
        for x in lay['bools']:
            if c.raw[x['data_name']]:
                want, why = COLOURS[x['colour']], 'flag'
        if want is None:
            continue
        for fx, fy in [(0.5, 0.5), (rng.choice([0.15, 0.85]), rng.choice([0.15, 0.85]))]:
            lo, la = r['long_min'] + c.u0 + fx * (c.u1 - c.u0), c.lat0 + fy * (c.lat1 - c.lat0)
            px = pixel(ax, ccrs, lo, la)
            e = [pixel(ax, ccrs, r['long_min'] + c.u0 + gx * (c.u1 - c.u0), c.lat0 + gy * (c.lat1 - c.lat0)) for gx, gy in ((0.001, 0.001), (0.999, 0.999))]
            # the seam is an edge too
            if min(abs(px[i] - q[i]) for i in (0, 1) for q in e) < 5 or (c.u0 < 180 - r['long_min'] < c.u1 and abs(lo - 180) < 0.1 * (c.u1 - c.u0)):
                continue
            j, i = int(px[0]), int(height - px[1])
            if not (0 <= i < img.shape[0] and 0 <= j < img.shape[1]):
                bad.append((c, (lo, la), 'outside the picture'))
                continue
            got = tuple(img[i, j, :3])
            obs.count('pixels')
            obs.count(why + '_pixels')
            if any(abs(int(a) - b) > 2 for a, b in zip(got, want)):
                bad.append((c, (lo, la), 'is %s, should be %s (%s)' % (tuple(int(a) for a in got), want, why)))
    obs.check(not bad, 'colour', 'cells drawn in another colour: %d points' % len(bad), points=[str(b) for b in bad[:4]], layers=lay)


def pixel(ax, ccrs, lo, la):
    x, y = ax.projection.transform_point(lo, la, ccrs.PlateCarree())
    return ax.transData.transform((x, y))
