"""Shared: build refined meshes over all region kinds and hand the document to
a monitor."""
import json

from mon import gen, ref

KINDS = [('plain', 3), ('anti', 3), ('global', 2), ('wide', 1), ('touch_e', 1), ('touch_w', 1), ('pole', 1)]


def built(case, obs, **kw):
    rng = obs.rng
    r, srcs, depth, mindp = gen.refining_workload(rng, obs.scratch, kind=case['kind'], **kw)
    cfg = gen.config(r, srcs, depth, mindp)
    doc = gen.build(cfg).to_json()
    doc = json.loads(json.dumps(doc))
    cells = ref.parse_cells(doc, r['long_min'])
    obs.count('meshes')
    obs.count('cells', len(cells))
    obs.count('kind_' + case['kind'])
    nx, ny = gen.size(r)
    if len(cells) > nx * ny:
        obs.count('refined_meshes')
    obs.state(ref.shape_sig(cells))
    obs.nontrivial = len(cells) > 1
    obs.sample = dict(region=r, depth=depth, min_dp=mindp, cells=len(cells), initial=nx * ny)
    return r, srcs, depth, mindp, doc, cells
