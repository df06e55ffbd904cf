"""Cases: random well-formed mesh, route and vessel configurations and waypoint
tables, given as objects or as files, and mutations of them with one fault each
(missing, extra or wrongly typed field, impossible date, indivisible cell size,
missing source or destination, non-numeric coordinate). Every case is
non-trivial. Monitor: acceptance against how the input was made; inputs must not
be modified."""
import copy
import json
import os

from mon import core, gen, ref

KINDS = [('mesh:ok', 3), ('mesh:bad', 6), ('route:ok', 1), ('route:bad', 2), ('vessel:ok', 1), ('vessel:bad', 2), ('way:ok', 1), ('way:bad', 2)]
MIN_OBS = {'accepted': 200, 'refusals_expected': 400, 'by_path': 100, 'mut_missing': 50, 'mut_extra': 30, 'mut_type': 50, 'mut_date': 30, 'mut_size': 20}
ASSUMPTIONS = ['numbers are dyadic, so that divisibility is exact', 'dates are written YYYY-MM-DD or TODAY, TODAY+n, TODAY-n with optional blanks']

BAD_DATES = ['2020-13-01', '2020-02-30', '2021-02-29', '2020-00-10', '2020-01-32', '01-01-2020', '2020/01/03', 'tomorrow', '', '2020-1-3',
             'TODAY5', 'TODAY+', 'TODAY-', 'TODAY+x', 'TODAY + 5 days', 'TODAY+5abc', 'YESTERDAY', 'XTODAY+5', 'TODAY*5', 'TODAY,5', '2020-01-03 12:00', 'NOW', '20200103', '2020-W01-3', '2020W013', '2020-W01', '2020-01-03 ', '2020-01-03T00:00']
GOOD_DATES = ['2020-01-03', '2020-02-29', '1999-12-31', '2024-07-01', 'TODAY', 'TODAY+5', 'TODAY - 3', 'TODAY + 12', 'TODAY -1', 'TODAY+0']


def cases(tier, seed):
    return core.mkcases('C14', KINDS, tier, seed, 9000, 40000)


def mesh_cfg(rng):
    r = gen.region(rng)
    r['start_time'], r['end_time'] = rng.choice(GOOD_DATES), rng.choice(GOOD_DATES)
    ds = []
    for _ in range(rng.randint(0, 3)):
        ds.append(dict(loader=rng.choice(['gebco', 'amsr', 'scalar_csv', 'anything']),
                       params=rng.choice([{}, {'file': 'x.nc'}, {'files': ['a', 'b'], 'splitting_conditions': [{'x': {'threshold': 1}}]}])))
    cfg = dict(region=r, data_sources=ds, splitting=dict(split_depth=rng.randint(0, 6), minimum_datapoints=rng.randint(0, 50)))
    if rng.random() < 0.2:
        cfg['comment'] = 'x'
    return cfg


def wrong(rng, good):
    opts = ['12', None, [1], {'a': 1}, True]
    if isinstance(good, str):
        opts = [1, None, ['x'], {'a': 1}, 2.5]
    return rng.choice(opts)


def mutate_mesh(rng, obs):
    cfg = mesh_cfg(rng)
    kind = rng.choice(['missing', 'missing', 'extra', 'type', 'type', 'date', 'size', 'size'])
    reg, spl = cfg['region'], cfg['splitting']
    what = ''
    if kind in ('missing', 'extra', 'type') and not cfg['data_sources'] and rng.random() < 0.5:
        cfg['data_sources'].append(dict(loader='gebco', params={}))
    if kind == 'missing':
        where = rng.choice(['top', 'region', 'splitting', 'source'])
        if where == 'source' and not cfg['data_sources']:
            where = 'region'
        t = dict(top=cfg, region=reg, splitting=spl, source=rng.choice(cfg['data_sources'] or [None]))[where]
        k = rng.choice([k for k in t if k != 'comment'])
        del t[k]
        what = 'missing %s.%s' % (where, k)
    elif kind == 'extra':
        where = rng.choice(['region', 'splitting', 'source'])
        if where == 'source' and not cfg['data_sources']:
            where = 'region'
        t = dict(region=reg, splitting=spl, source=rng.choice(cfg['data_sources'] or [None]))[where]
        k = rng.choice(['unknown', 'split_depth_', 'Lat_min', 'cell_size', 'param', ''])
        t[k] = 1
        what = 'extra %s.%s' % (where, k)
    elif kind == 'type':
        where = rng.choice(['top', 'region', 'region', 'splitting', 'source'])
        if where == 'source' and not cfg['data_sources']:
            where = 'region'
        t = dict(top=cfg, region=reg, splitting=spl, source=rng.choice(cfg['data_sources'] or [None]))[where]
        k = rng.choice([k for k in t if k != 'comment'])
        if where == 'splitting':
            t[k] = rng.choice(['1', None, [1], 1.5, True, {}])
        elif where == 'top':
            t[k] = rng.choice(['x', None, 1, 'y'] + ([{}] if k == 'data_sources' else [[]]))
        elif where == 'source':
            t[k] = rng.choice([None, 1, ['x']] + ([{'a': 1}] if k == 'loader' else ['x']))
        else:
            t[k] = wrong(rng, t[k])
        what = 'type of %s.%s = %r' % (where, k, t[k])
    elif kind == 'date':
        k = rng.choice(['start_time', 'end_time'])
        reg[k] = rng.choice(BAD_DATES)
        what = 'date %s = %r' % (k, reg[k])
    else:
        axis = rng.choice(['w', 'h'])
        full = ref.width(reg['long_min'], reg['long_max']) if axis == 'w' else reg['lat_max'] - reg['lat_min']
        k = 'cell_width' if axis == 'w' else 'cell_height'
        for _ in range(50):
            c = rng.randint(1, max(2, int(full * 16))) / 8
            if rng.random() < 0.1:
                c = rng.choice([0, -reg[k], -full, -c])
                obs.count('cell_not_positive')
                break
            if rng.random() < 0.2:      # very nearly divides
                c = full / rng.randint(1, 8) + rng.choice([-1, 1]) / 2 ** rng.randint(3, 14)
                if c <= 0:
                    continue
                obs.count('cell_nearly')
            if full % c:
                break
        else:
            c = full * 2
        reg[k] = c
        what = '%s %s does not divide %s into cells' % (k, c, full)
    obs.count('mut_' + kind)
    return cfg, kind, what


def route_cfg(rng):
    c = dict(objective_function=rng.choice(['traveltime', 'fuel']), path_variables=rng.choice([[], ['fuel', 'traveltime']]),
             vector_names=['uC', 'vC'], variable_speed=rng.random() < 0.5, time_unit=rng.choice(['days', 'hours', 'seconds']),
             early_stopping_criterion=rng.random() < 0.5, zero_currents=rng.random() < 0.5)
    if rng.random() < 0.4:
        c['smoothing_max_iterations'] = rng.randint(1, 1000)
    if rng.random() < 0.4:
        c['smoothing_blocked_sic'] = rng.choice([10, 10.5])
    if rng.random() < 0.4:
        c['extra'] = 'allowed'
    return c


ROUTE_BAD = [('vector_names', ['uC']), ('vector_names', ['a', 'b', 'c']), ('vector_names', 'uC,vC'), ('vector_names', [1, 2]), ('time_unit', 'weeks'), ('time_unit', 1),
             ('path_variables', 'fuel'), ('path_variables', [1]), ('variable_speed', 'true'), ('variable_speed', 1), ('early_stopping_criterion', None),
             ('zero_currents', 'no'), ('objective_function', 5), ('objective_function', ['fuel']), ('smoothing_max_iterations', 1.5), ('smoothing_blocked_sic', 'x'),
             ('smoothing_merge_separation', 'x'), ('smoothing_converged_sep', None)]
ROUTE_REQ = ['objective_function', 'path_variables', 'vector_names', 'variable_speed', 'time_unit', 'early_stopping_criterion', 'zero_currents']


def vessel_cfg(rng):
    c = dict(VesselType=rng.choice(['SDA', 'SLOCUM']), MaxSpeed=rng.choice([26.5, 0, 3]), Unit='km/hr', MaxIceConc=rng.choice([0, 80, 100, 12.5]), MinDepth=rng.choice([0, -0.0, 10, 10.5]))
    if rng.random() < 0.5:
        c['Beam'] = 24
    return c


VESSEL_BAD = [('VesselType', 1), ('VesselType', None), ('MaxSpeed', -1), ('MaxSpeed', '3'), ('MaxSpeed', None), ('Unit', 3), ('MaxIceConc', -0.5), ('MaxIceConc', 100.5),
              ('MaxIceConc', '80'), ('MinDepth', -10), ('MinDepth', 'x'), ('MinDepth', [1])]


def run_case(case, obs):
    rng = obs.rng
    from meshiphi.config_validation import config_validator as V
    t, good = case['kind'].split(':')
    obs.nontrivial = True
    if t == 'way':
        return waypoints(obs, V, good == 'ok')
    what = 'none'
    if t == 'mesh':
        fn = V.validate_mesh_config
        if good == 'ok':
            cfg = mesh_cfg(rng)
        else:
            cfg, k, what = mutate_mesh(rng, obs)
    else:
        fn = V.validate_route_config if t == 'route' else V.validate_vessel_config
        cfg = route_cfg(rng) if t == 'route' else vessel_cfg(rng)
        if good == 'bad':
            if rng.random() < 0.5:
                k = rng.choice(ROUTE_REQ if t == 'route' else ['VesselType', 'MaxSpeed', 'Unit', 'MaxIceConc', 'MinDepth'])
                del cfg[k]
                what = 'missing ' + k
            else:
                k, v = rng.choice(ROUTE_BAD if t == 'route' else VESSEL_BAD)
                cfg[k] = v
                what = '%s = %r' % (k, v)
    before = copy.deepcopy(cfg)
    arg = cfg
    if rng.random() < 0.4:
        arg = os.path.join(obs.scratch, 'config.json')
        json.dump(cfg, open(arg, 'w'))
        obs.count('by_path')
    obs.state(t, good, what, json.dumps(cfg, sort_keys=True, default=str))
    obs.sample = dict(type=t, fault=what, config=cfg)
    if good == 'ok':
        try:
            fn(arg)
            obs.count('accepted')
            obs.check(True, '', '')
        except Exception as e:
            obs.check(False, 'refused-valid:' + t, 'a well-formed %s configuration (%s) was refused: %s: %s' % (t, 'path' if arg is not cfg else 'dict', type(e).__name__, str(e)[:300]), config=cfg)
    else:
        with obs.expect_raise('accepted-invalid:' + t, 'a %s configuration with a fault (%s) was accepted: %s' % (t, what, json.dumps(cfg, default=str)[:600])):
            fn(arg)
        if t == 'mesh' and rng.random() < 0.3:
            from meshiphi.mesh_generation.mesh_builder import MeshBuilder
            with obs.expect_raise('built-invalid', 'a mesh was built from a configuration with a fault (%s): %s' % (what, json.dumps(cfg, default=str)[:600])):
                MeshBuilder(copy.deepcopy(cfg))
    obs.check(json.dumps(cfg, sort_keys=True, default=str) == json.dumps(before, sort_keys=True, default=str), 'modified', 'validation modified the configuration')


def waypoints(obs, V, ok):
    import pandas as pd
    rng = obs.rng
    n = rng.randint(2, 6)
    d = dict(Name=['p%d' % i for i in range(n)], Lat=[rng.randint(-90, 90) + 0.5 for _ in range(n)], Long=[rng.randint(-180, 180) for _ in range(n)],
             Source=[''] * n, Destination=[''] * n)
    d['Source'][rng.randrange(n)] = 'X'
    d['Destination'][rng.randrange(n)] = 'X'
    if rng.random() < 0.3:
        d['Source'] = ['X'] * n
    if rng.random() < 0.3:
        d['Extra'] = list(range(n))
    what = 'none'
    if not ok:
        k = rng.choice(['column', 'source', 'dest', 'lat', 'long'])
        if k == 'column':
            c = rng.choice(['Name', 'Lat', 'Long', 'Source', 'Destination'])
            d.pop(c)
            what = 'no column ' + c
        elif k == 'source':
            d['Source'] = [rng.choice(['', 'x', 'Y', 'no']) for _ in range(n)]
            what = 'no source'
        elif k == 'dest':
            d['Destination'] = [rng.choice(['', 'x', 'Y', 'no']) for _ in range(n)]
            what = 'no destination'
        else:
            c = 'Lat' if k == 'lat' else 'Long'
            d[c] = list(d[c])
            d[c][rng.randrange(n)] = rng.choice(['12N', 'abc', None, '1,5', ''])
            what = 'bad ' + c
    df = pd.DataFrame(d)
    arg = df
    if rng.random() < 0.5:
        arg = os.path.join(obs.scratch, 'w.csv')
        df.to_csv(arg, index=False)
        obs.count('by_path')
    before = df.copy(deep=True)
    obs.state('way', what, df.to_csv())
    obs.sample = dict(type='waypoints', fault=what)
    if ok:
        try:
            V.validate_waypoints(arg)
            obs.count('accepted')
            obs.check(True, '', '')
        except Exception as e:
            obs.check(False, 'refused-valid:waypoints', 'well-formed waypoints were refused: %s: %s' % (type(e).__name__, e))
    else:
        with obs.expect_raise('accepted-invalid:waypoints', 'waypoints with a fault (%s) were accepted' % what):
            V.validate_waypoints(arg)
    obs.check(df.equals(before), 'modified', 'validation modified the waypoints')
