"""C03: leaf signals are the averages of the points of the leaf, and are returned as
documented by the point index map, the input features and the conversion to points."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, Points, merge_points

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C03'
RULE = ('clouds on the exact grid with integer normals (zero normals included) times a '
        'power of two, integer '
        'features of 1..5 channels or none, batches built by merging octrees or from merged '
        'points, leaves with up to 70000 points, every subset of the feature string; non-trivial: some leaf holds at least '
        'two points and there are at least two leaves')
ASSUMPTIONS = ['local coordinates are not judged in leaves whose average lies exactly on the '
               'upper face of the volume']

COMBOS = [''.join(c) for k in range(1, 6) for c in itertools.combinations('NDLPF', k)]


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 9, 0, 3, max_batch=4, allow_empty=True, bulk=400, deep=16))
  gen.add_dense(draw, case)
  case['odd'] = draw(st.booleans()) and not any(s['k'] == 'dense' for t in case['samples']
                                                for s in t)
  case['channel'] = draw(st.integers(1, 5))
  case['nsalt'], case['fsalt'] = draw(gen.SALT), draw(gen.SALT)
  case['nlog2'] = draw(st.sampled_from([0, 0, -8, -16, -24, 10]))
  case['has_n'], case['has_f'] = draw(st.booleans()), draw(st.booleans())
  combo = draw(st.sampled_from(COMBOS))
  case['feature'] = ''.join(c.lower() if draw(st.booleans()) else c
                            for c in draw(st.permutations(list(combo))))
  return case


def expected_features(avg, case, feature):
  d = case['depth']
  f = feature.upper()
  n = oct.normalize(avg['nsum'])
  local = avg['pos'] - np.floor(avg['pos']) - 0.5
  glob = avg['pos'] * 2.0 ** (1 - d) - 1.0
  out, kinds = [], []
  if 'N' in f:
    out.append(n), kinds.append(('N', 3))
  if 'D' in f:
    out.append((local * n).sum(1, keepdims=True)), kinds.append(('D', 1))
  if 'L' in f:
    out.append(local), kinds.append(('L', 3))
  if 'P' in f:
    out.append(glob), kinds.append(('P', 3))
  if 'F' in f:
    out.append(avg['feat']), kinds.append(('F', avg['feat'].shape[1]))
  return np.concatenate(out, 1), kinds


def check(case):
  d = case['depth']
  arrays = gen.sample_arrays(case)
  r = gen.make_ref(case)
  avg = oct.leaf_average(arrays, case, r)
  octree = gen.make_octree(case, normals=case['has_n'], features=case['has_f'],
                           neigh=False)
  tags = gen.octree_tags(case, r) + [case['mode']]
  if avg['count'].max(initial=0) > 1 and r.levels[d].nnum_nempty > 1:
    tags.append('nt')
  if avg['count'].max() > 255:
    tags.append('dense-leaf')

  # average signals of the leaves
  cmp.close(octree.points[d], avg['pos'], 'average points of the leaves', 1e-6, 1e-6)
  if case['has_n']:
    cmp.close(octree.normals[d], oct.normalize(avg['nsum']), 'average normals', 1e-6, 1e-5)
  else:
    cmp.require(octree.normals[d] is None, 'normals appeared from nowhere')
  if case['has_f']:
    cmp.close(octree.features[d], avg['feat'], 'average features', 1e-6, 1e-5)
  else:
    cmp.require(octree.features[d] is None, 'features appeared from nowhere')

  # input features
  f = ''.join(c for c in case['feature'] if (c.upper() not in 'ND' or case['has_n']) and
              (c.upper() != 'F' or case['has_f']))
  if f:
    exp, kinds = expected_features(avg, case, f)
    ok = (avg['pos'] < 2 ** d).all(1)
    mask = np.ones(exp.shape, dtype=bool)
    col = 0
    for k, w in kinds:
      if k in 'DL':
        mask[~ok, col:col + w] = False
      col += w
    for nempty in (True, False):
      m = mask if nempty else ref.pad(mask.astype(np.float64), r.levels[d], 1.0) > 0
      e = exp if nempty else ref.pad(exp, r.levels[d])
      for name, fn in (('get_input_feature', lambda: octree.get_input_feature(f, nempty)),
                       ('InputFeature', lambda: ocnn.modules.InputFeature(f, nempty)(octree))):
        got = cmp.arr(fn(), name)
        cmp.shape(got, e.shape, '%s(%r, nempty=%s)' % (name, f, nempty))
        cmp.close(np.where(m, got, 0), np.where(m, e, 0),
                  '%s(%r, nempty=%s)' % (name, f, nempty), 2e-6 + 4e-7 * 2 ** d, 1e-5)
    tags.append('feature-' + ''.join(sorted(f.upper())))

  # conversion to points
  for rescale in (True, False):
    pts = octree.to_points(rescale)
    e = avg['pos'] * 2.0 ** (1 - d) - 1.0 if rescale else avg['pos']
    cmp.close(pts.points, e, 'to_points(rescale=%s)' % rescale, 1e-6, 1e-6)
    cmp.equal(pts.batch_id, r.batch_id(d, True)[:, None], 'batch_id of to_points')
    cmp.number(pts.batch_size, r.batch, 'batch size of to_points')
    for a, has in (('normals', case['has_n']), ('features', case['has_f'])):
      v = getattr(pts, a)
      if has:
        cmp.equal(v, getattr(octree, a)[d], a + ' of to_points')
      else:
        cmp.require(v is None, a + ' of to_points appeared from nowhere')
  return tags


def check_index(case):
  """The index returned by the construction maps every point to its leaf."""
  d = case['depth']
  arrays = gen.sample_arrays(case)
  r = gen.make_ref(case)
  avg = oct.leaf_average(arrays, case, r)
  pts = gen.make_points(case)
  octree = Octree(d, case['full'], len(pts))
  idx = octree.build_octree(merge_points(pts) if len(pts) > 1 else pts[0])
  cmp.equal(idx, avg['index'], 'leaf index of every point')
  t = ['nt'] if avg['count'].max(initial=0) > 1 and r.levels[d].nnum_nempty > 1 else []
  if avg['count'].max(initial=0) > 255:
    t.append('dense-leaf')
  return t + ['batch%d' % len(pts)]


@st.composite
def strat_predicted(draw):
  depth = draw(st.integers(5, 16) if draw(st.integers(0, 3)) == 3 else st.integers(1, 4))
  if gen.LARGE:
    depth = draw(st.integers(5, 9))
  full = draw(st.integers(1, min(2, depth)))
  return {'depth': depth, 'full': full, 'batch': draw(st.integers(1, 3)),
          'r': draw(gen.SALT), 'm': draw(st.integers(1, 4)), 'nf': draw(st.booleans()),
          'most': 8000 if gen.LARGE else 600 if depth < 5 else 12}


def check_predicted(case):
  """An octree which was grown (no input points) is converted to its cell centres."""
  from ocnn.octree import init_octree
  d, b = case['depth'], case['batch']
  octree = init_octree(d, case['full'], b)
  splits = {}
  for l in range(case['full'], d + 1):
    n = int(octree.nnum[l])
    h = gen.hash_ints(n, case['r'], l)
    s = h % max(case['m'], n // case['most'] if l < d else 1) == 0
    s[h % 64 == h.min(initial=0) % 64] = True            # some nodes are always split
    splits[l] = s
    octree.octree_split(torch.from_numpy(s).int(), l)
    if l < d:
      octree.octree_grow(l + 1)
  r = ref.RefOctree.from_splits(splits, d, case['full'], b)
  rows = r.rows(d, True)
  if case['nf']:
    octree.features[d] = gen.int_data((rows.shape[0], 2), case['r']) * gen.ODD
  for rescale in (True, False):
    pts = octree.to_points(rescale)
    e = rows[:, 1:] + 0.5
    cmp.close(pts.points, e * 2.0 ** (1 - d) - 1 if rescale else e,
              'to_points of a grown octree (rescale=%s)' % rescale, 1e-6, 1e-6)
    cmp.equal(pts.batch_id, rows[:, :1], 'batch_id of to_points')
    if case['nf']:
      cmp.equal(pts.features, octree.features[d], 'features of to_points')
  return ['nt'] if rows.shape[0] > 1 else []


FACETS = [
    Facet('signals', strat, check, 4500, 100000, examples=[
        {'depth': 2, 'full': 1, 'samples': [[{'k': 'pts', 'p': [[1, 2, 3], [5, 2, 3]]}]],
         'mode': 'merge', 'channel': 2, 'nsalt': 1, 'fsalt': 2, 'has_n': True,
         'has_f': True, 'feature': 'NDLPF'}]),
    Facet('index', strat, check_index, 2500, 50000),
    Facet('predicted', strat_predicted, check_predicted, 1200, 20000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('signals', 'index')] + \
    [large(f, 12, 200) for f in FACETS if f.name == 'predicted']
