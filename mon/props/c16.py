"""Cases: configurations mixing scalar, vector, polygon and synthetic sources
(seeded random fields and shapes), files given as file, files or folder, fixed
and relative dates, all region kinds. Non-trivial when the mesh has more than
one cell. Monitor: the documents of independent builds, of a build from the very
same configuration object, and of two generations of rebuilds from the stored
configuration (through text), compared field by field; hashes of every input
file before and after; the stored dates and file lists against those used."""
import copy
import hashlib
import json
import os
import random
import shutil
from datetime import date, datetime, timedelta

from mon import core, gen, native, ref
from mon.props import _lut

KINDS = [('plain', 4), ('anti', 2), ('global', 1), ('touch_e', 1), ('pole', 1)]
BIG = 50      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'builds': 600, 'rebuilds': 250, 'folder': 20, 'single_file': 12, 'relative_dates': 40, 'synthetic': 40, 'random_field': 20, 'polygons': 20, 'refined': 60, 'files_hashed': 300, 'product': 25, 'unread_files': 20, 'edited': 120, 'rewritten': 50, 'rewritten_seen': 45}
ASSUMPTIONS = ['random fields are given a seed; without one the field is documented to be random',
               'when midnight passes between the builds of one case, the case is skipped']


def cases(tier, seed):
    return core.mkcases('C16', KINDS, tier, seed, 300, 4000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def digest(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return out


def synthetic(rng, r, k):
    """shapes and random fields; only for regions they cover in one stretch"""
    what = rng.choice(['circle', 'rectangle', 'gradient', 'checkerboard', 'scalar_grf', 'binary_grf', 'vector_grf', 'vector_gradient'])
    p = dict(data_name='y%d' % k)
    conds = rng.random() < 0.5
    c = dict(threshold=0.5, lower_bound=0.05, upper_bound=0.95)
    if what in ('circle', 'rectangle', 'gradient', 'checkerboard', 'vector_gradient'):
        p.update(nx=rng.choice([5, 9, 12]), ny=rng.choice([5, 8, 12]))
        if what == 'circle':
            p['radius'] = r['cell_width']
        if what == 'rectangle':
            p.update(width=r['cell_width'], height=r['cell_height'])
        if what == 'checkerboard':
            p['gridsize'] = [r['cell_width'] / 2, r['cell_height'] / 2]
        if what in ('gradient', 'vector_gradient'):
            p['vertical'] = rng.random() < 0.5
        if what == 'vector_gradient':
            p.update(multiplier_u=2, multiplier_v=3)
    else:
        p.update(seed=rng.randint(0, 10 ** 6), size=rng.choice([8, 16]))
        if what != 'vector_grf':
            p['binary'] = what == 'binary_grf'
        if what == 'scalar_grf' and rng.random() < 0.5:
            p.update(min=-1, max=3, multiplier=2, offset=-0.5, threshold=[0.2, 0.8])
    if what.startswith('vector'):
        p['data_name'] = 'yu%d,yv%d' % (k, k)
        conds = False
    if conds:
        p['splitting_conditions'] = [{p['data_name']: c}]
    return what, dict(loader=what, params=p)


def read_of(nat):
    """the files of a product that cover the time range: one a day, or the latest run before it"""
    out = []
    if nat.name.startswith('ecmwf'):
        at = {f: datetime.strptime(os.path.basename(f)[:10], '%Y%m%d%H') for f in nat.files}
        last = max(t for t in at.values() if t < native.d0())
        for f in nat.files:
            t = at[f] + timedelta(hours=int(os.path.basename(f).split('-')[1][:-1]))
            if at[f] == last and native.d0() <= t <= native.d1():
                out.append(f)
    else:
        for f in nat.files:
            if gen.START <= os.path.basename(f)[10:-3] <= gen.END:
                out.append(f)
    return set(out)


def make(case, obs, rng):
    r = gen.region(rng, case['kind'], max_cols=3, max_rows=3)
    srcs, used = [], []
    dated = rng.random() < 0.7
    for k in range(rng.choice([1, 2, 2, 3])):
        t = rng.choice(['scalar', 'scalar', 'vector', 'lut', 'synthetic', 'synthetic', 'product'])
        if t == 'product' and dated:
            d = os.path.join(obs.scratch, 'prod%d' % k)
            os.makedirs(d)
            name = rng.choice(['era5_wind_mag', 'era5_wave_period', 'duacs_currents', 'ecmwf_sig_wave_height', 'era5_wind'])
            nat = native.MAKERS[name](rng, r, d)
            p = dict(files=list(nat.files)) if rng.random() < 0.6 else dict(folder=d)
            srcs.append(dict(loader=nat.name, params=p))
            used.append(read_of(nat))
            obs.count('product')
            obs.count('unread_files', len(nat.files) - len(used[-1]))
            continue
        if t == 'synthetic' and gen.reg_kind(r) == 'plain':
            what, s = synthetic(rng, r, k)
            obs.count('synthetic')
            obs.count('random_field', 'grf' in what)
            srcs.append(s)
            used.append(None)
            continue
        if t == 'lut':
            from shapely.geometry import box
            path = os.path.join(obs.scratch, 'lut%d.csv' % k)
            with open(path, 'w') as f:
                f.write('geometry,z%d\n' % k)
                la, lo = r['lat_min'], min(r['long_min'], 170)
                h = (r['lat_max'] - la)
                f.write('"%s",%d\n' % (box(lo, la, lo + r['cell_width'] * 0.75, la + h / 2).wkt, rng.randint(1, 9)))
                f.write('"%s",%d\n' % (box(lo, la + h / 2, lo + r['cell_width'] * 0.75, la + h).wkt, rng.randint(1, 9)))
            s = dict(loader='lut_csv', params=dict(files=[path]))
            if rng.random() < 0.5:
                s['params']['splitting_conditions'] = [{'z%d' % k: dict(boundary=True)}]
            srcs.append(s)
            used.append([path])
            obs.count('polygons')
            continue
        if t == 'vector':
            s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=20, form='df', conds=[{'dmag': dict(threshold=16.125, lower_bound=0.125, upper_bound=0.875)}] if rng.random() < 0.4 else None)
        else:
            s = gen.scalar_source(rng, obs.scratch, r, 'q%d' % k, n=rng.choice([20, 60]), time=False if rng.random() < 0.7 else None)
        files = s.params.get('files') or [s.params['file']]
        how = rng.choice(['as is', 'folder', 'as is'])
        if how == 'folder':
            d = os.path.join(obs.scratch, 'dir%d' % k)
            os.makedirs(d)
            new = []
            for i, f in enumerate(files):
                n = os.path.join(d, '%s_%s' % (rng.choice('zmab'), os.path.basename(f)))
                os.rename(f, n)
                new.append(n)
            files = sorted(new)
            s.params.pop('files', None)
            s.params.pop('file', None)
            s.params['folder'] = d + rng.choice(['', '/'])
            obs.count('folder')
        obs.count('single_file', 'file' in s.params)
        srcs.append(s.cfg())
        used.append(files)
    cfg = dict(region=dict(r), data_sources=srcs, splitting=dict(split_depth=rng.choice([0, 1, 2, 2]), minimum_datapoints=rng.choice([0, 1, 2])))
    dates = (r['start_time'], r['end_time'])
    if not dated:
        a, b = rng.choice([('TODAY', 'TODAY+5'), ('TODAY - 3', 'TODAY'), ('TODAY-10', 'TODAY + 2'), ('2020-01-03', 'TODAY')])
        t = date.today()
        f = {'TODAY': 0, 'TODAY+5': 5, 'TODAY - 3': -3, 'TODAY-10': -10, 'TODAY + 2': 2}
        res = [x if x not in f else (t + timedelta(days=f[x])).isoformat() for x in (a, b)]
        cfg['region'].update(start_time=a, end_time=b)
        dates = tuple(res)
        obs.count('relative_dates')
    return r, cfg, used, dates


def double(src, dst):
    """a copy of a data file with every value doubled"""
    if src.endswith('.csv'):
        import pandas as pd
        d = pd.read_csv(src)
        for c in d.columns:
            if c not in ('lat', 'long', 'time', 'geometry'):
                d[c] = d[c] * 2
        d.to_csv(dst, index=False)
    elif src.endswith('.nc'):
        import xarray as xr
        with xr.open_dataset(src) as f:
            d = f.load()
        for c in d.data_vars:
            if d[c].dtype.kind == 'f':
                d[c] = d[c] * 2
        d.to_netcdf(dst)
    else:
        shutil.copy(src, dst)


def rewrite(root, cfg):
    """double every data file in place, and under another name; the configuration for the latter"""
    new = root + '_moved'
    for d, _, fs in os.walk(root):
        to = new + d[len(root):]
        os.makedirs(to)
        for f in fs:
            double(os.path.join(d, f), os.path.join(to, f))
            shutil.copy(os.path.join(to, f), os.path.join(d, f) + '~')
            os.replace(os.path.join(d, f) + '~', os.path.join(d, f))
    return json.loads(json.dumps(cfg).replace(json.dumps(root)[1:-1] + '/', json.dumps(new)[1:-1] + '/')), new


def run_case(case, obs):
    rng = obs.rng
    d0 = date.today()
    r, cfg, used, dates = make(case, obs, rng)
    before = digest(obs.scratch)
    obs.count('files_hashed', len(before))
    pristine = copy.deepcopy(cfg)

    def build(c, what):
        import numpy as np
        np.random.seed(rng.randint(0, 10 ** 6))     # whatever happened before must not matter
        random.seed(rng.randint(0, 10 ** 6))
        obs.count('builds')
        text = json.dumps(gen.build(c).to_json())
        return json.loads(text)
    first = build(cfg, 'first')
    docs = [('a second build', build(copy.deepcopy(pristine), 'second')), ('a build from the configuration object used before', build(cfg, 'same object'))]
    gen1 = build(copy.deepcopy(first['config']['mesh_info']), 'rebuild')
    gen2 = build(json.loads(json.dumps(gen1['config']['mesh_info'])), 'rebuild 2')
    obs.count('rebuilds', 2)
    docs += [('the rebuild', gen1), ('the second rebuild', gen2)]
    if date.today() != d0:
        return
    obs.count('cells', len(first['cellboxes']))
    obs.state(canon(first['cellboxes']))
    nx, ny = gen.size(r)
    obs.count('refined', len(first['cellboxes']) > nx * ny)
    obs.nontrivial = len(first['cellboxes']) > 1
    obs.sample = dict(region=pristine['region'], loaders=[s['loader'] for s in pristine['data_sources']], cells=len(first['cellboxes']))
    for what, d in docs:
        for part in ('cellboxes', 'neighbour_graph', 'config'):
            obs.check(canon(d[part]) == canon(first[part]), 'differs:' + part, '%s of %s differ from those of the first build of %s' % (part, what, obs.sample))
    again = json.loads(json.dumps(first['config']['mesh_info']))
    want = copy.deepcopy(pristine)
    for c in (again, want):      # a stored configuration, edited: what it says now counts
        c['splitting'] = dict(split_depth=3 - pristine['splitting']['split_depth'], minimum_datapoints=7)
    if not any(s['loader'].startswith(('era5', 'duacs', 'ecmwf')) for s in pristine['data_sources']) and rng.random() < 0.5:
        for c in (again, want):
            c['region'].update(start_time=gen.day(1), end_time=gen.day(8))
    a, b = build(again, 'edited'), build(want, 'edited from scratch')
    obs.count('edited')
    for part in ('cellboxes', 'neighbour_graph'):
        obs.check(canon(a[part]) == canon(b[part]), 'edited:' + part, '%s of a mesh built from an edited stored configuration differ from those of the same settings from scratch' % part)
    reg = first['config']['mesh_info']['region']
    obs.check((reg['start_time'], reg['end_time']) == dates, 'dates', 'stored dates %s..%s, resolved ones are %s' % (reg['start_time'], reg['end_time'], dates))
    want = pristine['region']
    obs.check(all(reg[k] == want[k] for k in want if 'time' not in k), 'region', 'stored region differs from the configured one')
    obs.check(first['config']['mesh_info']['splitting'] == pristine['splitting'], 'splitting', 'stored splitting settings differ')
    for s, p, files in zip(first['config']['mesh_info']['data_sources'], pristine['data_sources'], used):
        obs.check(s['loader'] == p['loader'], 'loader', 'stored loader differs')
        if files is not None:
            stored = s['params'].get('files')
            obs.check((set(stored or []) if isinstance(files, set) else stored) == files, 'files', 'stored files %s, files read are %s' % (s['params'].get('files'), files))
        for k, v in p['params'].items():
            if k not in ('file', 'folder', 'files', 'splitting_conditions', 'min_dp'):
                obs.check(k in s['params'] and canon(s['params'][k]) == canon(v), 'params', 'stored parameter %s is %r, configured was %r' % (k, s['params'].get(k), v))
    after = digest(obs.scratch)
    obs.check(before == after, 'inputs', 'building changed, added or removed files: %s' % sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
    if rng.random() < 0.5 and len(before):
        moved, d = rewrite(obs.scratch, pristine)
        try:
            a, b = build(copy.deepcopy(pristine), 'rewritten'), build(moved, 'rewritten, elsewhere')
        finally:
            shutil.rmtree(d)
        obs.count('rewritten')
        obs.count('rewritten_seen', canon(b['cellboxes']) != canon(first['cellboxes']))
        if date.today() == d0:
            for part in ('cellboxes', 'neighbour_graph'):
                obs.check(canon(a[part]) == canon(b[part]), 'rewritten:' + part, '%s of a mesh built after its data files were rewritten differ from those of the same data elsewhere' % part)
