"""Cases: create, rebuild, export and merge commands run in a directory of their
own, with the output named by -o, --output or left at its default, verbose or
not, over meshes and configs of every kind of region; merges with one file and
with a directory (holding sub-directories too); commands that must fail with an
existing output file; some as processes of their own. Non-trivial when an output
file was compared. Monitor: every file of the directory before and after, and
the output against the document the library calls give for the same input."""
import contextlib
import copy
import io
import itertools
import json
import os
import subprocess
import sys

from mon import core, gen
from mon.props import c11, c16, c17

KINDS = [('create', 4), ('rebuild', 3), ('export', 4), ('merge', 3), ('mergedir', 3), ('fail', 4), ('process', 1)]
MIN_OBS = {'create': 20, 'rebuild': 15, 'export_JSON': 8, 'export_GEOJSON': 8, 'export_TIF': 5, 'export_PNG': 3, 'merge': 12, 'mergedir': 12, 'dir_many': 5, 'default_output': 30, 'existing_output': 30,
           'failures': 20, 'untouched': 10, 'processes': 4, 'inputs_unchanged': 80, 'dir_meshes': 15}
ASSUMPTIONS = ['the order in which a directory of meshes is merged is that of the file system: any order is accepted']
DEFAULT = dict(create='create_mesh.output.json', rebuild='rebuild_mesh.output.json', merge='merged_mesh.output.json',
               JSON='mesh.json', GEOJSON='mesh_geo.json', TIF='mesh.tif', PNG='mesh.png')


def cases(tier, seed):
    return core.mkcases('C24', KINDS, tier, seed, 420, 3000)


def canon(x):
    return json.dumps(x, sort_keys=True)


def run(cmd, argv):
    from meshiphi import cli
    f = getattr(cli, cmd)
    old = sys.argv
    sys.argv = [cmd] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            f()
    finally:
        sys.argv = old


def files(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


class Dir:
    """the directory a command runs in, and what it may write there"""

    def __init__(self, obs, default):
        ext = os.path.splitext(default)[1]
        rng = obs.rng
        self.obs, self.d = obs, os.path.join(obs.scratch, 'cwd')
        os.mkdir(self.d)
        os.chdir(self.d)
        self.argv = []
        q = rng.random()
        if q < 0.35:
            self.out = default
            obs.count('default_output')
        else:
            self.out = rng.choice(['res' + ext, 'out put' + ext, 'x' + ext.replace('.json', ''), 'sub/res' + ext])
            if '/' in self.out:
                os.mkdir(os.path.join(self.d, 'sub'))
            self.argv = [rng.choice(['-o', '--output']), self.out if rng.random() < 0.7 else os.path.join(self.d, self.out)]
        self.existing = rng.random() < 0.5
        if self.existing:
            with open(self.out, 'w') as f:
                f.write('{"old": %s}' % ('1' * rng.choice([1, 20, 200000])))
            obs.count('existing_output')
        if rng.random() < 0.3:
            self.argv.append(rng.choice(['-v', '--verbose']))

    def put(self, name, doc):
        with open(name, 'w') as f:
            json.dump(doc, f, indent=self.obs.rng.choice([None, 2, 4]))
        return name

    def args(self, *pos):
        """positional arguments with the options before, between or after"""
        i = self.obs.rng.randint(0, len(pos))
        return list(pos[:i]) + self.argv + list(pos[i:])

    def compare(self, before, allow=()):
        after = files(self.d)
        obs = self.obs
        for f in before:
            if f != self.out and f not in allow:
                obs.check(after.get(f) == before[f], 'input', 'the command changed %s' % f)
                obs.count('inputs_unchanged')
        new = set(after) - set(before) - {self.out} - set(allow)
        obs.check(not new, 'stray', 'the command wrote unexpected files: %s' % sorted(new))
        if not obs.check(self.out in after, 'no-output', 'no output file %s; have %s' % (self.out, sorted(after))):
            return None
        return after[self.out]

    def doc(self, before):
        raw = self.compare(before)
        if raw is None:
            return None
        try:
            return json.loads(raw)
        except ValueError as e:
            self.obs.fail('output-json', 'the output is not a JSON document: %s' % e, head=raw[:80].decode(errors='replace'), size=len(raw))


def workload(obs, **kw):
    rng = obs.rng
    r, srcs, depth, mindp = gen.refining_workload(rng, obs.scratch, kind=rng.choice(['plain', 'plain', 'anti', 'global', 'wide', 'touch_e', 'pole']), **kw)
    cfg = gen.config(r, srcs, depth, mindp)
    if rng.random() < 0.2:
        cfg['data_sources'] = []
    return r, cfg


def lib(cfg):
    return gen.build(copy.deepcopy(cfg)).to_json()


def same(obs, got, want, key):
    if got is None:
        return
    got, want = json.loads(canon(got)), json.loads(canon(want))
    for part in sorted(set(got) | set(want)):
        obs.check(canon(got.get(part)) == canon(want.get(part)), key, '%s of the output differs from that of the library' % part)
    obs.count('documents')


def run_case(case, obs):
    k = case['kind']
    obs.nontrivial = True
    globals()[k](case, obs)
    obs.state(k, obs.counts['default_output'], obs.counts['existing_output'], tuple(sorted(obs.counts)))


def create(case, obs):
    r, cfg = workload(obs)
    d = Dir(obs, DEFAULT['create'])
    f = d.put('conf.json', cfg)
    before = files(d.d)
    run('create_mesh_cli', d.args(f))
    obs.count('create')
    same(obs, d.doc(before), lib(cfg), 'create')
    obs.sample = dict(region=r, argv=d.argv)


def rebuild(case, obs):
    r, cfg = workload(obs)
    doc = lib(cfg)
    if obs.rng.random() < 0.4:      # only the config counts
        doc['cellboxes'] = doc['cellboxes'][:1]
    if obs.rng.random() < 0.4:
        doc['config']['route_info'] = {'x': 1}
    d = Dir(obs, DEFAULT['rebuild'])
    f = d.put('m.json', doc)
    before = files(d.d)
    run('rebuild_mesh_cli', d.args(f))
    obs.count('rebuild')
    same(obs, d.doc(before), lib(cfg), 'rebuild')
    obs.sample = dict(region=r, argv=d.argv)


def picture(obs, d, doc, f, spell):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.image
    import matplotlib.pyplot as plt
    rng = obs.rng
    W = doc['config']['mesh_info']['region']
    if not 0.1 < (W['long_max'] - W['long_min']) / (W['lat_max'] - W['lat_min']) < 5:
        return
    lay = dict(cmaps=[dict(data_name='q0', cmap=rng.choice(['viridis', 'jet']))], bools=[])
    if 'land' in doc['cellboxes'][0]:
        lay['bools'].append(dict(data_name='land', colour='red'))
    conf = d.put('conf.json', lay)
    d.argv += [rng.choice(['-f', '--format_conf']), conf]
    before = files(d.d)
    want = os.path.join(obs.scratch, 'want.png')
    try:
        gen.load(doc).save(want, 'PNG', conf)
        run('export_mesh_cli', d.args(f, spell))
    finally:
        plt.close('all')
    if d.compare(before) is not None:
        a, b = matplotlib.image.imread(os.path.join(d.d, d.out), format='png'), matplotlib.image.imread(want)
        obs.check(a.shape == b.shape and bool((a == b).all()), 'export-png', 'the picture differs from that of the library')
        obs.count('export_PNG')


def export(case, obs):
    rng = obs.rng
    fmt = ['JSON', 'GEOJSON', 'JSON', 'GEOJSON', 'TIF', 'PNG'][case['i'] % 6]
    r, srcs, m = c17.mesh(core.Obs(case, obs.scratch), rng, rng.choice(['plain', 'plain', 'anti', 'global']) if fmt not in ('TIF', 'PNG') else 'plain')
    doc = json.loads(canon(m.to_json()))
    d = Dir(obs, DEFAULT[fmt])
    f = d.put('mesh_in.json', doc)
    spell = rng.choice([fmt, fmt.lower(), fmt.title()])
    if fmt == 'PNG':
        return picture(obs, d, doc, f, spell)
    if fmt == 'TIF':
        names = sorted({n for c in doc['cellboxes'] for n in c} & {'q0', 'part'})
        nm = rng.choice(names)
        conf = d.put('conf.json', {'data_name': nm, 'sampling_resolution': [rng.choice([12, 20]), rng.choice([12, 20])]})
        d.argv += [rng.choice(['-f', '--format_conf']), conf]
        before = files(d.d)
        with c17.quiet():
            want = os.path.join(obs.scratch, 'want.tif')
            here = os.getcwd()
            os.mkdir(os.path.join(obs.scratch, 'lib'))
            os.chdir(os.path.join(obs.scratch, 'lib'))
            gen.load(doc).save(want, spell, os.path.join(here, conf))
            os.chdir(here)
            run('export_mesh_cli', d.args(f, spell))
        raw = d.compare(before, allow=('grid_data',))
        if raw is not None:
            from osgeo import gdal
            a, b = gdal.Open(os.path.join(d.d, d.out)), gdal.Open(want)
            obs.check(a is not None and a.GetGeoTransform() == b.GetGeoTransform() and a.ReadAsArray().tolist() == b.ReadAsArray().tolist(), 'export-tif', 'the raster differs from that of the library')
            obs.count('export_TIF')
        return
    conf = None
    if fmt == 'GEOJSON' and rng.random() < 0.5:
        names = sorted({n for c in doc['cellboxes'] for n in c} - {'geometry', 'id', 'cx', 'cy', 'dcx', 'dcy'})
        names = [n for n in names if all(n in c for c in doc['cellboxes'])]
        if names:
            conf = d.put('layer.json', {'data_name': rng.choice(names)})
            d.argv += ['-f', conf]
    before = files(d.d)
    run('export_mesh_cli', d.args(f, spell))
    obs.count('export_' + fmt)
    m = gen.load(doc)
    same(obs, d.doc(before), m.to_json() if fmt == 'JSON' else m.to_geojson(conf), 'export')
    obs.sample = dict(region=r, argv=d.argv, format=spell)


def pair(obs, n):
    rng = obs.rng
    r, cfg = workload(obs, max_cells=40, depth=rng.choice([0, 1, 1]))
    docs = [lib(cfg)]
    for _ in range(n):
        r2 = c11.second_region(rng, r)
        s2 = gen.scalar_source(rng, obs.scratch, r2, 'q0', n=20, conds=[gen.scalar_cond(rng)])
        docs.append(lib(gen.config(r2, [s2], 1, 1)))
    return r, docs


def lib_merge(docs):
    m = gen.load(docs[0])
    for x in docs[1:]:
        m.merge_mesh(gen.load(x))
    return m.to_json()


def merge(case, obs):
    r, docs = pair(obs, 1)
    d = Dir(obs, DEFAULT['merge'])
    a, b = d.put('a.json', docs[0]), d.put('b.json', docs[1])
    before = files(d.d)
    run('merge_mesh_cli', d.args(a, b))
    obs.count('merge')
    same(obs, d.doc(before), lib_merge(docs), 'merge')
    obs.sample = dict(region=r, argv=d.argv)


def mergedir(case, obs):
    rng = obs.rng
    r, docs = pair(obs, rng.choice([0, 1, 2, 2, 3, 4, 5]))
    d = Dir(obs, DEFAULT['merge'])
    os.mkdir('many')
    a = d.put('a.json', docs[0])
    for i, x in enumerate(docs[1:]):
        d.put(os.path.join('many', 'm%d%s' % (rng.randint(i * 10, i * 10 + 9), rng.choice(['.json', '.json', '.mesh', '', '.JSON', '.out.json']))), x)
    if rng.random() < 0.3:
        os.mkdir('many/deeper')
    before = files(d.d)
    rest = docs[1:]

    def merged(perm):
        try:
            return canon(json.loads(json.dumps(lib_merge([docs[0]] + list(perm)))))
        except AssertionError:
            return None      # meshes that do not fit each other in this order
    some = list(itertools.islice(itertools.permutations(rest), 24))
    wants = [merged(perm) for perm in some]
    if None in wants:
        return
    run('merge_mesh_cli', d.args(a, rng.choice(['many', 'many/', os.path.abspath('many')]), rng.choice(['-d', '--directory'])))
    obs.count('mergedir')
    obs.count('dir_meshes', len(docs) - 1)
    obs.count('dir_many', len(docs) > 4)
    got = d.doc(before)
    if got is not None:
        ok = canon(got) in wants or any(canon(got) == merged(perm) for perm in itertools.islice(itertools.permutations(rest), 24, None))
        obs.check(ok, 'mergedir', 'merging a directory of %d meshes gives another mesh than merging them one by one' % (len(docs) - 1))
    obs.sample = dict(region=r, argv=d.argv, meshes=len(docs) - 1)


def bad(obs, rng):
    """command, inputs that it must refuse, default output"""
    r, cfg = workload(obs, depth=0)
    k = rng.choice(['create-region', 'create-json', 'create-missing', 'create-key', 'rebuild-noconf', 'merge-misaligned', 'merge-missing', 'merge-dir', 'export-json', 'export-noconf', 'usage'])
    if k == 'create-region':
        cfg['region']['lat_min'] = cfg['region']['lat_max'] + 5
        return k, 'create_mesh_cli', {'c.json': cfg}, ['c.json'], 'create'
    if k == 'create-key':
        del cfg['splitting']
        return k, 'create_mesh_cli', {'c.json': cfg}, ['c.json'], 'create'
    if k == 'create-json':
        return k, 'create_mesh_cli', {'c.json': None}, ['c.json'], 'create'
    if k == 'create-missing':
        return k, 'create_mesh_cli', {}, ['none.json'], 'create'
    doc = lib(cfg)
    if k == 'rebuild-noconf':
        del doc['config']['mesh_info']
        return k, 'rebuild_mesh_cli', {'m.json': doc}, ['m.json'], 'rebuild'
    if k in ('merge-misaligned', 'merge-dir'):
        r2 = dict(r, lat_min=0, lat_max=7, long_min=3, long_max=10, cell_width=7, cell_height=7)
        r1 = dict(r, lat_min=0, lat_max=4, long_min=0, long_max=4, cell_width=4, cell_height=4)
        one, two = lib(gen.config(r1, [], 0, 1)), lib(gen.config(r2, [], 0, 1))
        if k == 'merge-dir':
            return k, 'merge_mesh_cli', {'m.json': one, 'many/z.json': two}, ['m.json', 'many', '-d'], 'merge'
        return k, 'merge_mesh_cli', {'m.json': one, 'n.json': two}, ['m.json', 'n.json'], 'merge'
    if k == 'merge-missing':
        return k, 'merge_mesh_cli', {'m.json': doc}, ['m.json', 'none.json'], 'merge'
    if k == 'export-json':
        return k, 'export_mesh_cli', {'m.json': None}, ['m.json', 'JSON'], 'JSON'
    if k == 'export-noconf':
        return k, 'export_mesh_cli', {'m.json': doc}, ['m.json', rng.choice(['GEOJSON', 'TIF']), '-f', 'none.json'], 'GEOJSON'
    return k, rng.choice(['create_mesh_cli', 'rebuild_mesh_cli', 'merge_mesh_cli', 'export_mesh_cli']), {}, [], 'create'


def fail(case, obs):
    rng = obs.rng
    k, cmd, inputs, pos, dflt = bad(obs, rng)
    d = Dir(obs, DEFAULT[dflt])
    os.makedirs('many', exist_ok=True)
    for f, x in inputs.items():
        if x is None:
            open(f, 'w').write('{"region": ')
        else:
            d.put(f, x)
    before = files(d.d)
    try:
        run(cmd, d.argv + list(pos))
        obs.fail('accepted', '%s of an invalid input (%s) succeeded' % (cmd, k))
    except SystemExit as e:
        obs.check(e.code not in (0, None), 'exit-code', '%s of an invalid input (%s) exits with 0' % (cmd, k))
    except Exception:
        pass
    obs.count('failures')
    after = files(d.d)
    obs.check(after == before, 'touched', 'a failing %s (%s) changed files: %s' % (cmd, k, sorted(f for f in set(after) | set(before) if after.get(f) != before.get(f))))
    obs.count('untouched', d.existing)
    obs.state(k)
    obs.sample = dict(command=cmd, why=k)


def process(case, obs):
    """as a process of its own"""
    rng = obs.rng
    r, cfg = workload(obs)
    d = Dir(obs, DEFAULT['create'])
    good = rng.random() < 0.7
    if not good:
        cfg['region']['lat_min'] = cfg['region']['lat_max'] + 5
    f = d.put('conf.json', cfg)
    before = files(d.d)
    env = dict(os.environ, PYTHONPATH=core.REPO + os.pathsep + os.environ.get('PYTHONPATH', ''), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-c', 'from meshiphi.cli import create_mesh_cli; create_mesh_cli()'] + d.args(f), cwd=d.d, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    obs.count('processes')
    if good:
        if obs.check(p.returncode == 0, 'process', 'create_mesh exits with %s' % p.returncode, err=p.stderr[-800:].decode(errors='replace')):
            same(obs, d.doc(before), lib(cfg), 'process')
    else:
        obs.check(p.returncode != 0, 'process', 'create_mesh of an invalid config exits with 0')
        obs.check(files(d.d) == before, 'process', 'a failing create_mesh changed files')
