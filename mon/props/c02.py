"""Cases: seeded refined meshes over all region kinds; non-trivial when at least
one cell was split. Monitor: rebuild the quadtree from the document's rectangles
alone: every cell must be reached by exact quartering from an initial grid cell
within the depth bound, siblings complete, split cells gone, ids unique."""
from mon import core, gen, ref
from mon.props import _meshrun

BIG = 150      # one case in so many has many cells, points and files
MIN_OBS = {'big_cases': 2, 'depth5_cells': 100, 'meshes': 60, 'refined_meshes': 30, 'tree_nodes': 300, 'depth3_cells': 5}


def cases(tier, seed):
    return core.mkcases('C02', _meshrun.KINDS, tier, seed, 1500, 20000)


def run_case(case, obs):
    r, srcs, depth, mindp, doc, cells = _meshrun.built(case, obs)
    ids = [c.id for c in cells]
    obs.check(len(ids) == len(set(ids)), 'ids', 'cell ids are not unique')
    nx, ny = gen.size(r)
    left = {}
    for c in cells:
        obs.check(c.rect not in left, 'duplicate-cell', 'the same rectangle occurs twice', cell=repr(c))
        left[c.rect] = c
    w, h = r['cell_width'], r['cell_height']
    deepest = 0

    def walk(q, d):
        nonlocal deepest
        obs.count('tree_nodes')
        if q.rect in left:
            del left[q.rect]
            deepest = max(deepest, d)
            obs.count('depth%d_cells' % d)
            return
        if d >= depth:
            obs.fail('missing', 'a node at depth %d is neither a cell nor split within depth %d' % (d, depth), node=q.rect)
            return
        for x in q.quarters():
            walk(x, d + 1)
    for j in range(ny):
        for i in range(nx):
            walk(ref.Cell(r['lat_min'] + j * h, r['lat_min'] + (j + 1) * h, i * w, (i + 1) * w), 0)
    obs.check(not left, 'foreign-cell', 'cells are not quarters of initial cells within the depth, or coexist with their parent: %s' % list(left)[:3], depth=depth)
    obs.check(deepest <= depth, 'depth', 'deeper than allowed')
    obs.nontrivial = len(cells) > nx * ny
