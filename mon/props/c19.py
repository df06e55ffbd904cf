"""Cases: meshes whose refinement is driven by a dense source, with one to four
sparse sources, scalar or vector, tabular or gridded, of every statistic, every
fill setting (default, parent, numbers, numeric strings, Nan, invalid ones), and
names possibly shared between sources. Non-trivial when some cell lacks data of
its own. Monitor: each stored value against the fill rule, evaluated over the
chain of enclosing cells reconstructed from geometry, and the first-source-wins
rule."""
import json

from mon import core, gen, ref
from mon.props import c05, c07

KINDS = [('plain', 3), ('anti', 2), ('global', 1), ('touch_e', 1), ('pole', 1)]
BIG = 75      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'values': 3000, 'own': 300, 'from_parent': 100, 'from_grandparent': 60, 'constant': 100, 'left_missing': 60, 'no_ancestor': 60,
           'invalid_setting': 60, 'duplicates_resolved': 60, 'second_source_used': 40, 'vector_filled': 60}
INVALID = ['parents', 'zero', '', 'PARENT', 'none', [1], {'a': 1}, None, 'mean']


def cases(tier, seed):
    return core.mkcases('C19', KINDS, tier, seed, 600, 8000)


def chain(c, r):
    """the enclosing cells of c, from its own size up to its initial cell"""
    out = []
    lat0, u0, w, h = r['lat_min'], 0, r['cell_width'], r['cell_height']
    cw, ch = c.u1 - c.u0, c.lat1 - c.lat0
    while True:
        i, j = int((c.u0 - u0) // cw), int((c.lat0 - lat0) // ch)
        out.append(ref.Cell(lat0 + j * ch, lat0 + (j + 1) * ch, i * cw, (i + 1) * cw))
        if cw >= w:
            return out
        cw, ch = cw * 2, ch * 2


def setting(rng):
    k = rng.choice(['default', 'parent', 'number', 'numstr', 'nan', 'invalid'])
    return k, {'default': 'unset', 'parent': 'parent', 'number': rng.choice([0, -3.5, 7, 1e6, 0.0]), 'numstr': rng.choice(['0', '-2.5', '12', '1e3']),
               'nan': rng.choice(['Nan', 'nan', 'NaN', 'NAN']), 'invalid': rng.choice(INVALID)}[k]


def own(s, c, west):
    sel = ref.select(s.pts, c, west, gen.START, gen.END)
    if s.vector:
        want = c07.expect(sel, s.agg, s.form)
        return [[w[i] for w in want] for i in (0, 1)]
    return [[ref.stat([p['v'][0] for p in sel], s.agg, c05.ddof(s.form))]]


def run_case(case, obs):
    rng = obs.rng
    r = gen.region(rng, case['kind'], max_cols=3, max_rows=2)
    west = r['long_min']
    drv = gen.scalar_source(rng, obs.scratch, r, 'drv', n=rng.choice([40, 90]), form='df', agg='MEAN', time=False, nan=0, conds=[dict(threshold=0, lower_bound=0, upper_bound=1)])
    srcs, sets, names = [], [], []
    for k in range(rng.choice([1, 2, 3, 3, 4])):
        vec = rng.random() < 0.35
        nm = rng.choice(['a', 'a', 'b']) if not vec else None
        n = rng.choice([1, 2, 6, 15])
        nan = rng.choice([0, 0.4])
        if vec:
            s = gen.vector_source(rng, obs.scratch, r, ['uC', 'vC'], n=n, nan=nan, agg=rng.choice(['MEAN', 'MEAN', 'MIN', 'MAX', 'STD', 'COUNT']), form=rng.choice(['df', 'df', 'xr']))
        else:
            s = gen.scalar_source(rng, obs.scratch, r, nm, n=n, nan=nan, conds=[], form=rng.choice(['df', 'df', 'xr']), agg=rng.choice(['MEAN', 'MEAN', 'MIN', 'MAX', 'MEDIAN', 'STD', 'COUNT']))
        kind, val = setting(rng)
        if val != 'unset':
            s.params['value_fill_types'] = val
        srcs.append(s)
        sets.append((kind, val))
    order = [drv] + srcs
    if rng.random() < 0.3:
        order = srcs + [drv]
    depth = rng.choice([1, 2, 3, 3])
    if rng.random() < 0.15:      # a long chain of ancestors
        depth = rng.choice([4, 5])
        order = [gen.deep_source(rng, obs.scratch, r, 'drv') if s is drv else s for s in order]
    doc = json.loads(json.dumps(gen.build(gen.config(r, order, depth, rng.choice([0, 1]))).to_json()))
    cells = ref.parse_cells(doc, west)
    obs.count('cells', len(cells))
    obs.state(ref.shape_sig(cells), str(sets), [s.data_name for s in srcs])
    obs.sample = dict(region=r, cells=len(cells), sources=[(s.data_name, s.form, s.agg, len(s.pts), st) for s, st in zip(srcs, sets)])
    lacking = False
    memo = {}

    def stat(k, c):
        key = (k, c.rect)
        if key not in memo:
            memo[key] = own(srcs[k], c, west)
        return memo[key]
    nan = float('nan')
    for c in cells:
        anc = chain(c, r)
        final = {}      # name -> (acceptable values, index of the source)
        for k, (s, (kind, val)) in enumerate(zip(srcs, sets)):
            mine = stat(k, c)
            for i, n in enumerate(s.names):
                v, how = mine[i], 'own'
                if ref.isnan(v[0]):
                    lacking = True
                    if kind in ('number', 'numstr'):
                        v, how = [float(val)], 'constant'
                    elif kind == 'nan':
                        v, how = [nan], 'left_missing'
                    else:
                        v, how = [nan], 'no_ancestor'
                        for d, a in enumerate(anc[1:]):
                            if not ref.isnan(stat(k, a)[i][0]):
                                v, how = stat(k, a)[i], 'from_parent' if d == 0 else 'from_grandparent'
                                break
                        obs.count('invalid_setting', kind == 'invalid')
                    obs.count('vector_filled', s.vector and how not in ('left_missing', 'no_ancestor'))
                obs.count(how)
                obs.count('values')
                if n in final:
                    obs.count('duplicates_resolved')
                    if ref.isnan(final[n][0][0]) and not ref.isnan(v[0]):
                        final[n] = (v, k, how)
                        obs.count('second_source_used')
                else:
                    final[n] = (v, k, how)
        for n, (v, k, how) in final.items():
            got = c.raw.get(n, 'absent')
            obs.check(got != 'absent' and got is not None and any(ref.close(got, x) for x in v), how if sum(n in s.names for s in srcs) == 1 else 'duplicate',
                      '%s in %r is %r, should be %r (%s, source %d of %s)' % (n, c, got, v[:3], how, k, [(s.data_name, s.form, s.agg, st) for s, st in zip(srcs, sets)]), region=r)
    obs.nontrivial = lacking
