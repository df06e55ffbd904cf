"""Write MANIFEST.json from properties.jsonl and the monitors that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitoring: exact painting of cells of every built mesh',
 'C02': 'runtime monitoring: quadtree and id invariants on every built mesh',
 'C03': 'runtime monitoring: stored neighbour graph compared with geometric adjacency',
 'C04': 'runtime monitoring: refinement replayed by an executable reference model',
 'C05': 'runtime monitoring: cell values recomputed from raw points',
 'C06': 'runtime monitoring: conservation of counts and extremes over executions',
 'C07': 'runtime monitoring: vector values recomputed from raw points',
 'C08': 'runtime monitoring: polygon values recomputed by a reference model',
 'C09': 'runtime monitoring: verdicts recomputed from raw data',
 'C10': 'runtime monitoring: round-trip history checker',
 'C11': 'runtime monitoring: merge histories against a reference model',
 'C12': 'runtime monitoring: split histories against a reference model',
 'C13': 'runtime monitoring: point queries against geometry',
 'C14': 'runtime monitoring: mutated configurations against an acceptance oracle',
 'C15': 'runtime monitoring: boundary operations against exact arithmetic',
 'C16': 'runtime monitoring: rebuild histories compared across generations',
 'C17': 'runtime monitoring: exported files compared with the mesh',
 'C18': 'runtime monitoring: comparator verdicts against planted differences',
 'C19': 'runtime monitoring: fills recomputed over observed parent chains',
 'C20': 'runtime monitoring: block and projection reference model',
 'C21': 'runtime monitoring: generated fields against their description',
 'C22': 'runtime monitoring: helper results against exact arithmetic',
 'C23': 'runtime monitoring: metrics recomputed from raw points',
 'C24': 'runtime monitoring: tool runs compared with library runs, file effects recorded',
 'C25': 'runtime monitoring: factory results compared with direct construction',
 'C26': 'runtime monitoring: points read compared with the table each file was made from',
 'C27': 'runtime monitoring: builder histories compared with one configuration',
 'C28': 'runtime monitoring: derived quantities recomputed from raw data',
 'C30': 'runtime monitoring: tool runs on generated git histories, test processes and files recorded',
 'C29': 'runtime monitoring: pixels of the pictures against the cells',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/mon/props/%s.py' % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python /verif/check.py %s --tier quick' % i,
            thorough_cmd='/opt/venv/bin/python /verif/check.py %s --tier thorough' % i,
            technique=TECH.get(i, 'runtime monitoring: reference-model monitor'), level='exploration',
            level_note='Held on every execution of a seeded, diverse workload of the real code, decided by an oracle that shares no code with it; says nothing about inputs the workload does not produce. Trusts numpy, pandas, xarray, shapely and the oracle in /verif/mon.'))
    else:
        na.append(dict(property=i, reason='monitor not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, pandas, xarray, shapely, geopandas, netCDF4, pyproj"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: monitors observe the public API and the files it writes. VERIF_SEED selects the workload; --replay FILE reruns one case.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
