"""Cases: scratch git repositories with branches whose files differ by commits on
either side of the point where they parted, and by staged and unstaged changes;
scratch test folders whose tests pass, fail, raise in a fixture or are
parametrised, and write pairs of equal and differing meshes; the tool is run on
them as a class and through its command line, with every choice of options and
no terminal. Non-trivial when files changed or tests ran. Monitor: the files
found, the test files pytest is started with, the recorded outcomes and the
saved outputs, against what the scratch repository and tests were made of."""
import copy
import errno
import fcntl
import json
import os
import struct
import subprocess
import sys
import termios
import threading

from mon import core, gen

KINDS = [('diff', 8), ('run', 6), ('run:noterm', 1), ('run:plain', 1)]
MIN_OBS = {'diffs': 60, 'diffs_two_branches': 20, 'changed_files': 100, 'changes_of_reference': 20, 'runs': 15, 'test_files_run': 20, 'outcomes': 80, 'outcome_FAILED': 15,
           'outcome_ERROR': 8, 'saved': 8, 'left_out': 8, 'cli': 5}
ASSUMPTIONS = ['pytest and git behave as documented', 'files are not renamed between the branches (git gives renamed files by their new name only)']
NAMES = ['boundary.py', 'cellbox.py', 'mesh.py', 'cli.py', 'environment_mesh.py', 'other.py', 'README.md', 'deep.py']


def cases(tier, seed):
    return core.mkcases('C30', KINDS, tier, seed, 260, 2500)


ENV = dict(GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1', GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b',
           PYTEST_ADDOPTS='-p no:cacheprovider', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1')


class Repo:
    """a scratch repository, and what it should hold"""

    def __init__(self, rng, top):
        self.rng, self.top, self.n = rng, top, 0
        os.makedirs(top)
        self.git('init', '-q', '-b', 'main')
        self.files = {}
        for n in NAMES:
            self.files[rng.choice(['', 'meshiphi/', 'meshiphi/mesh_generation/', 'docs/']) + n] = None
        for f in self.files:
            self.write(f)
        self.git('add', '-A')
        self.git('commit', '-qm', 'start')

    def git(self, *a):
        return subprocess.run(['git', '-C', self.top] + list(a), check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()

    def write(self, f):
        self.n += 1
        p = os.path.join(self.top, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write('line of %s number %d %s\n' % (f, self.n, 'x' * self.rng.randint(0, 40)))

    def change(self, k, commit=True):
        """change k files, and give which"""
        out = set()
        there = sorted(f for f in self.files if os.path.exists(os.path.join(self.top, f)))
        for f in self.rng.sample(there, min(k, len(there) - 1)):
            if self.rng.random() < 0.15:
                os.remove(os.path.join(self.top, f))
            else:
                self.write(f)
            out.add(f)
        if self.rng.random() < 0.3 and commit:
            f = 'new%d/fresh%d.py' % (self.n, self.n)
            self.files[f] = None
            self.write(f)
            out.add(f)
        if commit:
            self.git('add', '-A')
            self.git('commit', '-qm', 'change %d' % self.n)
        return out


def make(rng, top):
    """main and a branch that left it, both changed since; the branch is checked out"""
    r = Repo(rng, top)
    for _ in range(rng.randint(0, 2)):
        r.change(2)
    r.git('checkout', '-q', '-b', 'topic')
    mine = set()
    for _ in range(rng.choice([0, 1, 1, 2])):
        mine |= r.change(rng.randint(1, 3))
    theirs = set()
    r.git('checkout', '-q', 'main')
    for _ in range(rng.choice([0, 0, 1, 2])):
        theirs |= r.change(rng.randint(1, 3))
    r.git('checkout', '-q', 'topic')
    return r, mine, theirs


def trees(r, a):
    return {x.split('\t')[1]: x.split()[2] for x in r.git('ls-tree', '-r', a).splitlines()}


def on_disk(r):
    tracked = r.git('ls-files').splitlines()
    return {f: r.git('hash-object', f).strip() for f in tracked if os.path.exists(os.path.join(r.top, f))}


def differing(a, b):
    return sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))


def state(r):
    return r.git('rev-parse', 'HEAD', 'main', 'topic'), r.git('status', '--porcelain'), r.git('symbolic-ref', 'HEAD')


def run_case(case, obs):
    from meshiphi.test_automation import test_automater as ta
    rng = obs.rng
    obs.nontrivial = False
    old_env, cwd = dict(os.environ), os.getcwd()
    os.environ.update(ENV)
    os.environ['PATH'] = os.path.dirname(sys.executable) + os.pathsep + os.environ.get('PATH', '')
    os.environ['TMPDIR'] = obs.scratch
    import tempfile
    old_tmp, tempfile.tempdir = tempfile.tempdir, obs.scratch
    try:
        r, mine, theirs = make(rng, os.path.join(obs.scratch, 'repo'))
        if case['kind'] == 'diff':
            diff(obs, r, ta, theirs)
        else:
            run(obs, r, ta, case['kind'])
    finally:
        os.chdir(cwd)
        tempfile.tempdir = old_tmp
        os.environ.clear()
        os.environ.update(old_env)


def wrong_side(r, kw, got):
    """the key of the known finding, if the files are those that the reference branch changed"""
    if 'from_branch' in kw:
        base = r.git('merge-base', 'main', 'topic').strip()
        if sorted(got) == differing(trees(r, base), trees(r, kw['into_branch'])):
            return 'merge-base'


def diff(obs, r, ta, theirs):
    rng = obs.rng
    base = r.git('merge-base', 'main', 'topic').strip()
    os.chdir(r.top)
    for _ in range(3):
        how = rng.choice(['branches', 'branches', 'back', 'tree', 'default'])
        if how in ('tree', 'default') and rng.random() < 0.7:
            r.change(rng.randint(1, 2), commit=False)
            if rng.random() < 0.4:
                r.git('add', '-u')
        if how == 'branches':
            want, kw = differing(trees(r, base), trees(r, 'topic')), dict(from_branch='topic', into_branch='main')
        elif how == 'back':
            want, kw = differing(trees(r, base), trees(r, 'main')), dict(from_branch='main', into_branch='topic')
        else:
            ref_ = 'main' if how == 'default' else rng.choice(['main', 'topic'])
            want, kw = differing(trees(r, ref_), on_disk(r)), ({} if how == 'default' else dict(into_branch=ref_))
        before = state(r)
        got = ta.TestAutomater.get_diff_filenames(**kw)
        obs.count('diffs')
        obs.count('diffs_two_branches', 'from_branch' in kw)
        obs.count('changed_files', len(want))
        obs.count('changes_of_reference', len(theirs) if how == 'branches' else 0)
        obs.check(sorted(got) == want, wrong_side(r, kw, got) or 'changed-files', 'files found to differ (%s) are %s, but %s do' % (kw, sorted(got), want), kw=kw)
        obs.check(state(r) == before, 'repository', 'looking for changes altered the repository')
        obs.state(how, tuple(want))
        # which tests they call for
        me = ta.TestAutomater.__new__(ta.TestAutomater)
        table = {n: rng.sample(['test_a.py', 'test_b.py', 'test_c.py'], rng.randint(0, 2)) for n in NAMES if rng.random() < 0.8}
        for f in want[:4] + ['x/my_boundary.py', 'boundary.pyc', 'boundary']:
            t = me.get_relevant_tests(f, table)
            obs.check(sorted(t) == sorted(table.get(os.path.basename(f), [])), 'relevant', 'tests for %s are %s, listed %s' % (f, t, table.get(os.path.basename(f), [])))
        obs.nontrivial |= bool(want)
    obs.sample = dict(kind='diff', files=len(want))


def mesh_pair(obs, r):
    """a mesh and the same or another one"""
    rng = obs.rng
    reg = gen.region(rng, rng.choice(['plain', 'anti']), max_cols=3, max_rows=2)
    src = gen.scalar_source(rng, obs.scratch, reg, 'q0', n=20, nan=0, time=False, form='df', agg='MEAN', conds=[])
    old = json.loads(json.dumps(gen.build(gen.config(reg, [src], 0, 0)).to_json()))
    for c in old['cellboxes']:
        c['q0'] = float(rng.randint(1, 99))
    new = copy.deepcopy(old)
    how = rng.choice(['same', 'order', 'value', 'cell', 'attribute', 'graph'])
    if how == 'order':
        rng.shuffle(new['cellboxes'])
    elif how == 'value':
        rng.choice(new['cellboxes'])['q0'] += 50.0
    elif how == 'cell':
        c = rng.choice(new['cellboxes'])
        c['geometry'] = c['geometry'].replace('((', '((0.015625 0.015625, ', 1) if 'MULTI' not in c['geometry'] else c['geometry'].replace('(((', '(((0.015625 0.015625, ', 1)
        c['geometry'] = 'POLYGON ((0.5 0.5, 0.5 0.75, 0.75 0.75, 0.75 0.5, 0.5 0.5))'
    elif how == 'attribute':
        for c in new['cellboxes']:
            c['extra'] = 1.0
    elif how == 'graph':
        k = rng.choice(sorted(new['neighbour_graph']))
        new['neighbour_graph'][k]['2'] = new['neighbour_graph'][k]['2'] + [77]
    return dict(old_mesh=old, new_mesh=new), how in ('value', 'cell', 'attribute', 'graph')


def write_tests(obs, folder, name, pairs, plain):
    """a test file, and the outcomes it should have"""
    rng = obs.rng
    out, text = [], ['import json, os, pytest', '@pytest.fixture', 'def broken():', '    raise RuntimeError("no")']
    f = name
    for k in range(rng.randint(1, 4)):
        want = rng.choice(['PASSED', 'PASSED', 'FAILED', 'ERROR'])
        arg = 'broken' if want == 'ERROR' else ''
        body = 'assert 1 == 2, "a::b [c]"' if want == 'FAILED' else 'assert True'
        style = rng.choice(['param', 'class'] + ['plain'] * plain)
        obs.count('style_' + style)
        if style == 'plain':
            text += ['def test_p%d(%s):' % (k, arg), '    ' + body]
            out.append((want, f, 'test_p%d' % k))
        elif style == 'class':
            text += ['class TestC%d:' % k, '    def test_m(self%s):' % (', ' + arg if arg else ''), '        ' + body]
            out.append((want, f, 'TestC%d/test_m' % k))
        else:
            ps = ['./meshes/m%d_%d.json' % (k, j) for j in range(rng.randint(1, 3))]
            text += ['@pytest.mark.parametrize("x", %r)' % ps, 'def test_x%d(x%s):' % (k, ', ' + arg if arg else ''), '    ' + body]
            out += [(want, f, 'test_x%d/%s' % (k, p)) for p in ps]
    if not pairs and rng.random() < 0.4:     # pytest clears the folder it was given for temporary files
        text += ['class TestTemp:', '    def test_t(self, tmp_path):', '        assert os.listdir(tmp_path) == []']
        out.append(('PASSED', f, 'TestTemp/test_t'))
    for n, doc in pairs.items():
        text += ['class TestRecord_%s:' % n, '    def test_it(self, tmp_path):', '        with open(os.path.join(tmp_path, "..", "%s.comparison.json"), "w") as fp:' % n, '            fp.write(%r)' % json.dumps(doc), '        assert True']
        out.append(('PASSED', f, 'TestRecord_%s/test_it' % n))
    with open(os.path.join(folder, name), 'w') as fp:
        fp.write('\n'.join(text) + '\n')
    return out


class Terminal:
    """a terminal, whose output is read and dropped, in place of the standard output"""

    def __init__(self, there):
        self.there = there

    def __enter__(self):
        self.old = os.dup(1)
        if not self.there:
            self.null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(self.null, 1)
            return
        self.master, slave = os.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', 24, 100, 0, 0))
        os.dup2(slave, 1)
        os.close(slave)
        self.reader = threading.Thread(target=self.drain, daemon=True)
        self.reader.start()

    def drain(self):
        try:
            while os.read(self.master, 65536):
                pass
        except OSError:
            pass

    def __exit__(self, *a):
        os.dup2(self.old, 1)
        os.close(self.old)
        if self.there:
            self.reader.join(5)
            os.close(self.master)
        else:
            os.close(self.null)


def run(obs, r, ta, kind):
    rng = obs.rng
    for d in ('tests', 'tests/regression_tests', 'tests/unit_tests'):
        os.makedirs(os.path.join(r.top, d))
    with open(os.path.join(r.top, '.git', 'info', 'exclude'), 'a') as fp:
        fp.write('tests/\n')
    pairs = {'mesh%d' % k: mesh_pair(obs, r) for k in range(rng.randint(1, 3))}
    outcomes = {}
    reg, unit = os.path.join(r.top, 'tests', 'regression_tests'), os.path.join(r.top, 'tests', 'unit_tests')
    outcomes['r', 'test_reg.py'] = write_tests(obs, reg, 'test_reg.py', {n: p[0] for n, p in pairs.items()}, kind == 'run:plain')
    for n in ('test_one.py', 'test_two.py'):
        outcomes['u', n] = write_tests(obs, unit, n, {}, kind == 'run:plain')
    reg_table = {n: ['test_reg.py'] for n in rng.sample(NAMES, 6)}
    unit_table = {n: rng.sample(['test_one.py', 'test_two.py'], rng.choice([0, 1, 1, 2])) for n in rng.sample(NAMES, 5)}
    two = rng.random() < 0.5
    base = r.git('merge-base', 'main', 'topic').strip()
    want_files = differing(trees(r, base), trees(r, 'topic')) if two else differing(trees(r, 'main'), on_disk(r))
    if two:
        os.chdir(r.top)
        kw = dict(from_branch='topic', into_branch='main')
        found = sorted(ta.TestAutomater.get_diff_filenames(**kw))
        if found != want_files:     # judged elsewhere; the tests are those of the files found
            obs.fail(wrong_side(r, kw, found) or 'changed-files', 'files found to differ (%s) are %s, but %s do' % (kw, found, want_files))
            want_files = found
    flags = rng.choice([[], ['-r'], ['-u'], ['-r', '-u']])
    do_r, do_u = flags != ['-u'], flags != ['-r']
    save = rng.random() < 0.7
    started = []
    real = ta.sp.run

    class Recorder:
        PIPE = ta.sp.PIPE

        @staticmethod
        def run(cmd, *a, **k):
            if cmd[0] == 'pytest':
                started.append(os.path.relpath(cmd[1], os.path.join(r.top, 'tests')))
                if not obs.check('--basetemp' not in cmd or os.path.realpath(cmd[cmd.index('--basetemp') + 1]).startswith(os.path.realpath(obs.scratch) + os.sep), 'basetemp', 'pytest would clear %s' % (cmd,)):
                    raise RuntimeError('not run')
            return real(cmd, *a, **k)
    out = os.path.join(obs.scratch, 'here')
    os.makedirs(out)
    os.chdir(out)
    if rng.random() < 0.3:      # results of an earlier run
        os.makedirs('pytest_meshiphi')
        open('pytest_meshiphi/old.json', 'w').write('{}')
    before = state(r)
    keep = ta.sp, ta.REGRESSION_TESTS_BY_FILE, ta.UNIT_TESTS_BY_FILE, ta.TestAutomater.__dict__['get_base_dir']
    made = []
    init = ta.TestAutomater.__init__

    def noted(self, *a, **k):
        made.append(self)
        return init(self, *a, **k)
    old_argv = sys.argv
    terminal = Terminal(kind != 'run:noterm')
    terminal.__enter__()
    try:
        ta.sp, ta.REGRESSION_TESTS_BY_FILE, ta.UNIT_TESTS_BY_FILE = Recorder, reg_table, unit_table
        ta.TestAutomater.get_base_dir = staticmethod(lambda: r.top)
        ta.TestAutomater.__init__ = noted
        if rng.random() < 0.5:
            obs.count('cli')
            from meshiphi import cli
            sys.argv = ['meshiphi_test'] + (['topic', 'main'] if two else ['main']) + flags + (['-s'] if save else [])
            cli.meshiphi_test_cli()
        else:
            kw = dict(from_branch='topic') if two else {}
            ta.TestAutomater(into_branch='main', regression=do_r, unit=do_u, save=save, **kw)
    except (OSError, IndexError) as e:
        if kind == 'run:noterm' and getattr(e, 'errno', None) == errno.ENOTTY:
            return obs.fail('no-terminal', 'without a terminal the tool raises %r' % e)
        if kind == 'run:plain' and isinstance(e, IndexError):
            return obs.fail('plain-test', 'results of a test without class or parameter raise %r' % e)
        raise
    finally:
        terminal.__exit__()
        sys.argv = old_argv
        ta.sp, ta.REGRESSION_TESTS_BY_FILE, ta.UNIT_TESTS_BY_FILE, ta.TestAutomater.get_base_dir = keep
        ta.TestAutomater.__init__ = init
        os.chdir(out)
    t = made[-1]
    changed = {os.path.basename(f) for f in want_files}
    want_run = sorted({'regression_tests/' + x for n in changed for x in reg_table.get(n, []) if do_r} | {'unit_tests/' + x for n in changed for x in unit_table.get(n, []) if do_u})
    obs.count('runs')
    obs.count('test_files_run', len(want_run))
    obs.sample = dict(changed=want_files, ran=want_run, flags=flags, save=save)
    obs.state(tuple(want_run), tuple(flags), two, save)
    obs.nontrivial |= bool(want_run)
    obs.check(sorted(started) == want_run, 'tests-run', 'test files run are %s, those of the changed files (%s) are %s' % (sorted(started), want_files, want_run), tables=[reg_table, unit_table], flags=flags)
    want = []
    for x in want_run:
        want += outcomes[x[0], x.split('/')[1]]
    got = []
    for status, infos in (('PASSED', t.passes), ('FAILED', t.fails), ('ERROR', t.errors)):
        for i in infos:
            obs.check(i.status == status, 'status', 'a result with status %s is listed under %s' % (i.status, status))
            name = i.test if i.reference in ('', '-') else '%s/%s' % (i.test, i.reference)
            got.append((status, os.path.basename(i.file), name))
    for w in want:
        obs.count('outcomes')
        obs.count('outcome_' + w[0])
    obs.check(sorted(got) == sorted(want), 'outcomes', 'recorded outcomes %s, the tests have %s' % (sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4]), want=want[:10])
    have = sorted(os.listdir('pytest_meshiphi')) if os.path.isdir('pytest_meshiphi') else None
    if save:
        ran = 'regression_tests/test_reg.py' in want_run
        keep_ = sorted(n + '.comparison.json' for n, p in pairs.items() if p[1]) if ran else []
        obs.count('saved', len(keep_))
        obs.count('left_out', len(pairs) - len(keep_) if ran else 0)
        cleared = not have and any(x.startswith('unit') for x in want_run)
        if obs.check(have == keep_, 'unit-clears' if cleared else 'saved', 'saved outputs are %s, the differing ones are %s' % (have, keep_), flags=flags):
            for f in have:
                obs.check(json.load(open(os.path.join('pytest_meshiphi', f))) == pairs[f.split('.')[0]][0], 'saved-content', 'a saved output was altered')
    else:
        obs.check(have in (None, ['old.json']), 'saved-unasked', 'results were saved unasked: %s' % have)
    obs.check(state(r) == before, 'repository', 'the tool altered the repository')
    left = [x for x in os.listdir(obs.scratch) if x.startswith('tmp')]
    obs.check(not left, 'left-behind', 'temporary folders left behind: %s' % left)
