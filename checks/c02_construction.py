"""C02: a point cloud is represented by exactly its occupied cells and their ancestors."""
import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.octree import Octree, Points, merge_points

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C02'
RULE = ('point clouds made of explicit points, clusters around octant corners, hashed bulk, '
        'thinned boxes and points on the faces of the volume (coordinate exactly +-1), '
        'depth 1..16, full_depth 0..4, 1..24 samples per batch (possibly empty ones); '
        'non-trivial: at least 2 occupied leaf cells and depth > full_depth')
ASSUMPTIONS = ['coordinates in [-1, 1]; CPU']


@st.composite
def strat_single(draw):
  depth = draw(st.integers(1, 16))
  full = draw(st.integers(0, min(depth, 4)))
  s = draw(gen.cloud(depth, bulk=1500))
  if gen.expand(s, depth).shape[0] == 0:
    s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  return {'depth': depth, 'full': full, 'samples': [s], 'mode': 'single',
          'dt': draw(st.sampled_from(['float32', 'float32', 'float64']))}


def tags_of(case, r):
  t = gen.octree_tags(case, r)
  if gen.geom_nontrivial(case, r) and case['depth'] > case['full']:
    t.append('nt')
  return t


def check_single(case):
  d = case['depth']
  p = gen.expand(case['samples'][0], d)
  x = gen.coords_of(p, d)
  if case['dt'] == 'float64':
    x = x.double()
  octree = Octree(d, case['full'])
  octree.build_octree(Points(x))
  r = gen.make_ref(case)
  oct.check_structure(octree, r)
  return tags_of(case, r) + (['upper-face'] if (p == gen.SUB << d).any() else [])


@st.composite
def strat_batch(draw):
  big = draw(st.integers(0, 3)) == 0
  case = draw(gen.octree_case(1, 8 if not big else 4, 0, 3 if not big else 2,
                              max_batch=24 if big else 4, allow_empty=True,
                              bulk=200 if not big else 20, max_shapes=2,
                              deep=16 if not big else 0))
  return case


def check_batch(case):
  octree = gen.make_octree(case, neigh=False)
  r = gen.make_ref(case)
  oct.check_structure(octree, r)
  return tags_of(case, r) + [case['mode']]


F32 = st.floats(-1, 1, width=32)


@st.composite
def strat_float(draw):
  depth = draw(st.integers(1, 10))
  full = draw(st.integers(0, min(depth, 3)))
  pts = draw(st.lists(st.tuples(F32, F32, F32).map(list), min_size=1, max_size=20))
  return {'depth': depth, 'full': full, 'p': pts, 'n': draw(gen.many(0, 400)),
          'r': draw(gen.SALT)}


def check_float(case):
  """Arbitrary float coordinates: a point further than rounding from a cell face is in
  the cell that contains it."""
  d = case['depth']
  p = np.array(case['p'], dtype=np.float32).astype(np.float64)
  q = gen.real_data((case['n'], 3), case['r']).numpy().astype(np.float64)
  p = np.concatenate([p, q], 0)
  u = (p + 1.0) * 2.0 ** (d - 1)
  near = np.abs(u - np.round(u)) < 2.0 ** (d - 22)
  keep = ~(near & (np.round(u) > 0) & (np.round(u) < 2 ** d)).any(1)
  p, u = p[keep], u[keep]
  if p.shape[0] == 0:
    return []
  cells = np.clip(np.floor(u + 1e-12), 0, 2 ** d - 1).astype(np.int64)
  cells = np.concatenate([np.zeros((cells.shape[0], 1), dtype=np.int64), cells], 1)
  r = ref.RefOctree.from_cells(cells, d, case['full'], 1)
  octree = Octree(d, case['full'])
  octree.build_octree(Points(torch.from_numpy(p.astype(np.float32))))
  oct.check_structure(octree, r)
  t = []
  if r.levels[d].nnum_nempty > 1 and d > case['full']:
    t.append('nt')
  return t


FACETS = [
    Facet('single', strat_single, check_single, 3500, 80000, examples=[
        {'depth': 3, 'full': 1, 'samples': [[{'k': 'pts', 'p': [[64, 64, 64], [64, 0, 0]]}]],
         'mode': 'single', 'dt': 'float32'},
        {'depth': 5, 'full': 0, 'samples': [[{'k': 'pts', 'p': [[0, 0, 0], [255, 3, 9]]}]],
         'mode': 'single', 'dt': 'float32'},
    ]),
    Facet('batch', strat_batch, check_batch, 3000, 60000),
    Facet('float', strat_float, check_float, 2500, 50000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('single', 'batch', 'float')]
