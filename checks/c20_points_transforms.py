"""C20: geometric transforms of a point cloud compose as documented and touch nothing else."""
import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.octree import Points

from vlib import cmp, gen
from vlib.core import Facet, large

PROPERTY = 'C20'
RULE = ('histories of 1..8 transforms (flip any axis string, rotate, translate, uniform and '
        'non-uniform scale, orient normals, normalise to the bounding box) over clouds with any '
        'subset of normals/features/labels/batch index in single or double precision, each step compared with a float64 '
        'model; the tensors handed in must keep their values; non-trivial: at least two '
        'different transforms on a cloud with normals')
ASSUMPTIONS = ['scale factors are positive', 'orientation of a normal whose component along '
               'the axis is (nearly) zero is free']

ANG = st.one_of(st.sampled_from([0.0, np.pi / 2, -np.pi / 2, np.pi, np.pi / 6]),
                st.floats(-7, 7, width=32).filter(lambda v: v == v))


@st.composite
def step(draw):
  k = draw(st.sampled_from(['flip', 'rotate', 'rotate', 'translate', 'scale', 'scale', 'orient',
                            'normalize']))
  if k == 'flip':
    return [k, draw(st.text('xyz', max_size=4))]
  if k == 'rotate':
    a = [draw(ANG) for _ in range(3)]
    m = draw(st.integers(0, 7))
    return [k, [v if m >> i & 1 or m == 0 else 0.0 for i, v in enumerate(a)]]
  if k == 'translate':
    return [k, [draw(st.integers(-64, 64)) / 32 for _ in range(3)]]
  if k == 'scale':
    if draw(st.booleans()):
      return [k, [draw(st.sampled_from([0.5, 1.0, 2.0, 1.25, 1 / 1024]))] * 3]
    return [k, [draw(st.sampled_from([0.5, 1.0, 2.0, 0.75, 1.5, 3.0])) for _ in range(3)]]
  if k == 'orient':
    return [k, draw(st.sampled_from(['x', 'y', 'z', 'xyz']))]
  return [k, draw(st.sampled_from([1.0, 0.8, 0.5]))]


@st.composite
def strat(draw):
  return {'n': draw(gen.many(1, 20)), 'salt': draw(gen.SALT),
          'has': [draw(st.integers(0, 3)) != 0] + [draw(st.booleans()) for _ in range(3)],
          'steps': draw(st.lists(step(), min_size=1, max_size=8)),
          'alias': draw(st.booleans()), 'axes': draw(st.integers(0, 3)) == 0,
          'double': draw(st.sampled_from([0, 0, 0, 1, 2]))}


def rotation(a):
  (cx, cy, cz), (sx, sy, sz) = np.cos(a), np.sin(a)
  rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
  ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
  rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
  return rz @ ry @ rx


def unit(v):
  return v / np.maximum(np.sqrt((v ** 2).sum(1, keepdims=True)), 1e-12)


def check(case):
  n = case['n']
  p = gen.int_array((n, 3), case['salt'], 1, -64, 64) / 64.0
  nrm = unit(gen.int_array((n, 3), case['salt'], 2, -9, 9) + np.array([0.5, 0.25, 0.125]))
  if case.get('axes'):        # normals along the axes
    nrm = np.eye(3)[gen.hash_ints(n, case['salt'], 6) % 3] * np.sign(nrm[:, :1])
  given = [torch.from_numpy(p).float(), torch.from_numpy(nrm).float(),
           gen.int_data((n, 2), case['salt'], 3), gen.int_data((n, 1), case['salt'], 4),
           torch.arange(n)[:, None] % 2]
  # float64 clouds, with normals of the same or of another type
  double = case.get('double', 0)
  given = [t.double() if i < double else t for i, t in enumerate(given)]
  types = [t.dtype for t in given]
  has = case['has']
  args = [given[0]] + [t if h else None for t, h in zip(given[1:], has)]
  pts = Points(*args, batch_size=2)
  other = None
  if case['alias']:        # a second cloud over the same tensors must not be affected
    other = Points(*args, batch_size=2)
    snap = cmp.snap_points(other)
  keep = [t.clone() for t in given]
  P, N = given[0].double().numpy(), given[1].double().numpy()
  kinds = set()
  for k, a in case['steps']:
    kinds.add(k)
    free, soft = None, 0.0
    if k == 'flip':
      pts.flip(a)
      for c in a:
        s = np.ones(3)
        s['xyz'.index(c)] = -1
        P, N = P * s, N * s
    elif k == 'rotate':
      t = torch.tensor(a, dtype=torch.float32)
      pts.rotate(t)
      R = rotation(t.double().numpy())
      P, N = P @ R.T, N @ R.T
    elif k == 'translate':
      pts.translate(torch.tensor(a))
      P = P + np.array(a)
    elif k == 'scale':
      f = torch.tensor(a)
      pts.scale(f)
      P = P * np.array(a)
      if len(set(a)) > 1:
        N = unit(N / np.array(a))
      cmp.equal(f, np.array(a), 'the scale factor')
    elif k == 'orient':
      pts.orient_normal(a)
      if a == 'xyz':
        N = np.abs(N)
      else:
        i = 'xyz'.index(a)
        free = np.abs(N[:, i]) < 1e-5
        N = N * np.where(N[:, i] > 0, 1.0, -1.0)[:, None]
    else:
      lo, hi = pts.bbox()
      cmp.close(lo, P.min(0), 'bounding box', 1e-5, 1e-5)
      cmp.close(hi, P.max(0), 'bounding box', 1e-5, 1e-5)
      ext = (P.max(0) - P.min(0)).max()
      if ext < 1e-5 or (ext < 1e-3 and ext < np.abs(P).max() / 50):
        continue
      soft = 2e-6 * a / ext       # the margin of 1e-6 in the size of the box
      pts.normalize(lo, hi, a)
      l, h = P.min(0), P.max(0)
      P = (P - (l + h) / 2) * (2 * a / (h - l).max())
      got = cmp.arr(pts.points)
      cmp.require(np.abs(got).max() <= a * (1 + 1e-5), 'normalised point outside of the box')
    w = 'after ' + k
    tol = 2e-5 * (1 + np.abs(P).max()) + soft
    cmp.close(pts.points, P, 'points ' + w, tol, 1e-5)
    cmp.require(pts.points.dtype == types[0], 'type of the points %s: %s', w, pts.points.dtype)
    if has[0]:
      if free is not None and free.any():
        m = free[:, None]
        got = cmp.arr(pts.normals)
        cmp.close(np.where(m, np.abs(got), got), np.where(m, np.abs(N), N), 'normals ' + w, 3e-5)
        N = np.where(m, got, N)
      cmp.close(pts.normals, N, 'normals ' + w, 3e-5, 0)
    else:
      cmp.require(pts.normals is None, 'normals appeared from nowhere')
    # continue from the float32 values, so that errors do not accumulate
    P = cmp.arr(pts.points).astype(np.float64)
    if has[0]:
      N = cmp.arr(pts.normals).astype(np.float64)
  for name, h, t in (('features', has[1], keep[2]), ('labels', has[2], keep[3]),
                     ('batch_id', has[3], keep[4])):
    v = getattr(pts, name)
    if h:
      cmp.equal(v, t, name + ' after geometric transforms')
    else:
      cmp.require(v is None, name + ' appeared from nowhere')
  cmp.require(pts.batch_size == 2, 'batch size changed to %s', pts.batch_size)
  cmp.number(pts.npt, n, 'number of points')
  for t, q, w in zip(given, keep, ('points', 'normals', 'features', 'labels', 'batch_id')):
    cmp.equal(t, q, 'the %s tensor handed in' % w)
  if other is not None:
    cmp.same(snap, cmp.snap_points(other), 'another cloud over the same tensors')
  return sorted(kinds) + (['nt'] if len(kinds) > 1 and has[0] else [])


FACETS = [
    Facet('history', strat, check, 6000, 120000, examples=[
        # flip and orient_normal used to write into the tensors of the caller (repaired)
        {'n': 4, 'salt': 1, 'has': [True] * 4, 'alias': True,
         'steps': [['flip', 'xz'], ['orient', 'xyz'], ['orient', 'y']]},
        # rotations of float64 clouds raised a RuntimeError (repaired)
        {'n': 4, 'salt': 1, 'has': [True] * 4, 'alias': False, 'double': 2,
         'steps': [['rotate', [0.5, 0.25, 1.0]]]}]),
]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'history']
