"""Generators.  Every strategy yields JSON-serialisable cases; bulk data is expanded
from drawn salts by a fixed integer hash, so a case fully determines the inputs.

Geometry is generated on an integer grid of 1/8 of a leaf cell: the float32
coordinates, their rescaling to [0, 2^depth] and the sums of the points of a cell are
then exact, and the expected octree can be computed with integers.
"""
import numpy as np
import torch
from hypothesis import strategies as st

from . import ref

SUB = 8            # sub-cell resolution of generated points
_M1, _M2 = 0x9E3779B97F4A7C15, 0xBF58476D1CE4E5B9


def hash_ints(n, salt, stream=0):
  """n pseudo-random 32-bit integers, a pure function of (salt, stream)."""
  i = np.arange(n, dtype=np.uint64)
  with np.errstate(over='ignore'):
    h = (i + np.uint64((salt * 1000003 + stream * 7919 + 12345) % (1 << 63))) * np.uint64(_M1)
    h ^= h >> np.uint64(29)
    h *= np.uint64(_M2)
    h ^= h >> np.uint64(32)
    h *= np.uint64(_M1)
    h ^= h >> np.uint64(31)
  return (h & np.uint64(0xFFFFFFFF)).astype(np.int64)


def int_array(shape, salt, stream=0, lo=-4, hi=4):
  n = int(np.prod(shape)) if len(shape) else 1
  return (hash_ints(n, salt, stream) % (hi - lo + 1) + lo).reshape(shape)


def int_data(shape, salt, stream=0, lo=-4, hi=4, dtype=torch.float32):
  """Integer-valued float tensor: sums and products of such data are exact."""
  return torch.from_numpy(int_array(shape, salt, stream, lo, hi)).to(dtype)


def real_data(shape, salt, stream=0, dtype=torch.float32):
  a = hash_ints(int(np.prod(shape)), salt, stream).reshape(shape)
  return torch.from_numpy(a / float(1 << 31) - 1.0).to(dtype)


# ---------------------------------------------------------------------------
# point clouds on the grid
# ---------------------------------------------------------------------------

SALT = st.integers(0, 2 ** 20)


@st.composite
def coord(draw, depth):
  """A cell coordinate that likes octant boundaries."""
  s = 1 << depth
  kind = draw(st.integers(0, 3))
  if kind == 0:
    return draw(st.integers(0, s - 1))
  base = draw(st.sampled_from([0, s - 1, s // 2, s // 4, (3 * s) // 4]))
  return min(max(base + draw(st.integers(-2, 2)), 0), s - 1)


@st.composite
def point(draw, depth):
  c = [draw(coord(depth)) * SUB + draw(st.integers(0, SUB - 1)) for _ in range(3)]
  return c


@st.composite
def shape(draw, depth, max_pts=40, bulk=300):
  """A group of points of one sample; `expand` turns it into coordinates."""
  s = 1 << depth
  kind = draw(st.sampled_from(['pts', 'pts', 'pts', 'clu', 'rnd', 'box', 'edge']))
  if kind == 'pts':
    return {'k': 'pts', 'p': draw(st.lists(point(depth), min_size=1, max_size=12))}
  if kind == 'clu':   # points of neighbouring cells around a corner
    c = [draw(coord(depth)) for _ in range(3)]
    return {'k': 'clu', 'c': c, 'n': draw(st.integers(1, max_pts)), 'w': draw(
        st.integers(1, 3)), 'r': draw(SALT)}
  if kind == 'rnd':
    return {'k': 'rnd', 'n': draw(st.integers(1, bulk)), 'r': draw(SALT)}
  if kind == 'edge':  # points on the faces of the volume, including exactly +1
    return {'k': 'edge', 'n': draw(st.integers(1, 20)), 'r': draw(SALT)}
  o = [draw(coord(depth)) for _ in range(3)]
  w = [draw(st.integers(1, 6)) for _ in range(3)]
  return {'k': 'box', 'o': o, 's': w, 'm': draw(st.integers(1, 3)), 'r': draw(SALT)}


def expand(shapes, depth):
  """(N, 3) int64 coordinates in units of 1/8 leaf cell, in [0, 8 * 2^depth]."""
  s = 1 << depth
  out = []
  for sh in shapes:
    k = sh['k']
    if k == 'pts':
      p = np.array(sh['p'], dtype=np.int64).reshape(-1, 3)
      p = np.clip(p, 0, s * SUB)
    elif k == 'clu':
      n = sh['n']
      h = hash_ints(n * 3, sh['r']).reshape(n, 3)
      w = sh['w'] * SUB
      p = np.array(sh['c']) * SUB + h % (2 * w) - w
      p = np.clip(p, 0, s * SUB - 1)
    elif k == 'rnd':
      n = sh['n']
      p = hash_ints(n * 3, sh['r']).reshape(n, 3) % (s * SUB)
    elif k == 'edge':
      n = sh['n']
      h = hash_ints(n * 3, sh['r'], 1).reshape(n, 3)
      p = hash_ints(n * 3, sh['r'], 2).reshape(n, 3) % (s * SUB)
      p = np.where(h % 3 == 0, 0, np.where(h % 3 == 1, s * SUB, p))
    elif k == 'dense':   # many points in one cell, a few in its neighbour
      n = sh['n']
      c = np.clip(np.array(sh['c']), 0, s - 1)
      p = c * SUB + hash_ints(n * 3, sh['r'], 4).reshape(n, 3) % SUB
      p[::97] += np.where(p[::97] + SUB < s * SUB, SUB, 0)
    elif k == 'box':
      g = np.stack(np.meshgrid(*[np.arange(w) for w in sh['s']], indexing='ij'),
                   -1).reshape(-1, 3) + np.array(sh['o'])
      n = g.shape[0]
      h = hash_ints(n, sh['r'])
      keep = (h % sh['m'] == 0) & (g < s).all(1)
      p = (g * SUB + hash_ints(n * 3, sh['r'], 3).reshape(n, 3) % SUB)[keep]
    else:
      raise ValueError(k)
    out.append(p)
  if not out:
    return np.zeros((0, 3), dtype=np.int64)
  return np.concatenate(out, 0).astype(np.int64)


def cells_of(pts, depth):
  """Leaf cells of grid points; the upper boundary belongs to the last cell."""
  return np.minimum(pts // SUB, (1 << depth) - 1)


def coords_of(pts, depth):
  """float32 coordinates in [-1, 1] (exact)."""
  c = pts.astype(np.float64) / SUB / (2.0 ** (depth - 1)) - 1.0
  return torch.from_numpy(c.astype(np.float32))


@st.composite
def dense(draw, depth, huge=True):
  """Hundreds of points in one leaf (counts beyond 8 and, rarely, 16 bits)."""
  n = draw(st.integers(100, 1200))
  if huge and draw(st.integers(0, 15)) == 15:
    n = draw(st.sampled_from([33000, 66000, 70000]))
  n = min(n, 1 << 24 - 3 - depth)      # the sums stay exact in float32
  return {'k': 'dense', 'c': [draw(coord(depth)) for _ in range(3)], 'n': n, 'r': draw(SALT)}


def add_dense(draw, case, one_in=12):
  if draw(st.integers(0, one_in - 1)) == one_in - 1:
    i = draw(st.integers(0, len(case['samples']) - 1))
    case['samples'][i] = case['samples'][i] + [draw(dense(case['depth']))]


LARGE = []          # not empty while the cases of `large` are drawn


@st.composite
def cloud(draw, depth, max_shapes=3, allow_empty=False, bulk=300):
  if LARGE and draw(st.booleans()):
    n = int(draw(st.sampled_from([0.01, 0.1, 0.5, 0.9])) * LARGE[-1])
    return [{'k': 'rnd', 'n': min(n, 3 * 8 ** min(depth, 7)), 'r': draw(SALT)}]
  n = draw(st.integers(0 if allow_empty else 1, max_shapes))
  return [draw(shape(depth, bulk=bulk)) for _ in range(n)]


def many(lo, hi, cap=100000):
  """A number of things: lo..hi, or far more while the cases of `large` are drawn."""
  if not LARGE:
    return st.integers(lo, hi)
  cap = min(cap, LARGE[-1])
  return st.one_of(st.integers(cap // 100, cap // 10), st.integers(cap // 10, cap),
                   st.sampled_from([v for v in (255, 256, 257, 32768, 65536, 65537) if v <= cap] or
                                   [cap]))


@st.composite
def large(draw, strategy, limit=100000):
  """The cases of a strategy with octrees of a size met in practice: ten thousands of nodes
  (beyond 16 bits), or hundreds of samples (beyond 8 bits)."""
  LARGE.append(limit)
  try:
    return draw(strategy() if callable(strategy) else strategy)
  finally:
    LARGE.pop()


def large_case(draw, min_depth, max_depth, min_full, max_full, allow_empty):
  limit = LARGE[-1]
  salt = draw(SALT)
  kind = draw(st.integers(0, 4))
  if kind == 4 and max_full >= 3 and limit >= 50000:      # large full layers
    full = draw(st.integers(3, 4))
    depth = draw(st.integers(full, max(full, min(max_depth, 5))))
    batch = 8 ** (5 - full) + draw(st.integers(1, 8 ** (5 - full)))
    samples = [[{'k': 'rnd', 'n': 1 + (salt + i) % 40, 'r': salt + i}] for i in range(batch)]
  elif kind == 3:                             # many small samples
    depth = draw(st.integers(min_depth, min(max_depth, 5)))
    full = min(min_full, depth)
    batch = draw(st.integers(120, 300 if depth < 5 else 260))
    samples = [[] if allow_empty and (salt + 7 * i) % 11 == 3 else
               [{'k': 'rnd', 'n': 1 + (salt + i) % 4, 'r': salt + i}] for i in range(batch)]
  else:
    depth = draw(st.integers(max(min_depth, min(max_depth, 4)), min(max_depth, 7)))
    full = draw(st.integers(min_full, min(depth, max_full)))
    cells = 8 ** depth
    batch = draw(st.integers(1, max(2, min(20, limit // cells + 1))))
    num = draw(st.sampled_from([0.03, 0.3, 0.7, 1.0])) * limit / batch
    num = max(1, int(min(num, 3 * cells)))
    samples = [[] if allow_empty and batch > 1 and i == salt % (3 * batch) else
               [{'k': 'rnd', 'n': num - i * (num // 20), 'r': salt + i}] for i in range(batch)]
  return {'depth': depth, 'full': full, 'samples': samples,
          'mode': draw(st.sampled_from(['merge', 'batch']))}


@st.composite
def octree_case(draw, min_depth=1, max_depth=5, min_full=1, max_full=3, max_batch=4,
                allow_empty=False, bulk=300, max_shapes=3, deep=0):
  depth = draw(st.integers(min_depth, max_depth))
  if LARGE:
    return large_case(draw, min_depth, max_depth, min_full, max_full, allow_empty)
  if deep > max_depth and draw(st.integers(0, 7)) == 7:    # a deep and sparse octree
    depth = draw(st.integers(max_depth + 1, deep))
    max_full, max_batch, bulk, max_shapes = min(max_full, 2), min(max_batch, 3), 12, 1
  full = draw(st.integers(min_full, min(depth, max_full)))
  batch = draw(st.integers(1, max_batch))
  samples = [draw(cloud(depth, allow_empty=allow_empty and batch > 1, bulk=bulk,
                        max_shapes=max_shapes)) for _ in range(batch)]
  if not any(sum(1 for _ in s) for s in samples):
    samples[0] = [{'k': 'pts', 'p': [[0, 0, 0]]}]
  # a sample may expand to no point at all (a thinned box); make it non-empty
  for s in samples:
    if s and expand(s, depth).shape[0] == 0:
      s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  return {'depth': depth, 'full': full, 'samples': samples,
          'mode': draw(st.sampled_from(['merge', 'batch']))}


def fine(v, dtype):
  """Values which need every digit of their type: a detour over another type shows."""
  if dtype == torch.float64:
    return np.asarray(v, np.float64) / 3
  if dtype == torch.float32:
    return np.asarray(v, np.float32) / np.float32(3)
  if dtype == torch.int64:
    return np.asarray(v) * ((1 << 55) + 1)
  if dtype == torch.int32:
    return np.asarray(v) * ((1 << 24) + 1)
  return np.asarray(v, np.float16 if dtype == torch.float16 else None)


# exponents of the power of two by which data are multiplied: exact, whatever the operator;
# 11: by ODD, so that the values need 12 digits or more (float16 has 11, bfloat16 has 8)
MAG = st.sampled_from([0, 0, 0, 11, -24, 24])
ODD = 2049


def mag(case):
  m = case.get('mag', 0)
  return float(ODD) if m == 11 else 2.0 ** m


def sample_arrays(case):
  """Per sample: (pts8, normals int times a power of two, features int, labels int)."""
  out = []
  d = case['depth']
  fs, ns = case.get('fsalt', 0), case.get('nsalt', 0)
  for i, s in enumerate(case['samples']):
    p = expand(s, d)
    n = p.shape[0]
    k = ODD if case.get('odd') else 1       # values of 12 digits
    nrm = int_array((n, 3), ns + i, 11, -3, 3) * k * 2.0 ** case.get('nlog2', 0)
    fea = int_array((n, case.get('channel', 3)), fs + i, 12, -8, 8) * k
    lab = int_array((n, 1), fs + i, 13, 0, 7)
    out.append((p, nrm, fea, lab))
  return out


def make_points(case, normals=True, features=True, labels=True):
  """ocnn Points of every sample."""
  from ocnn.octree import Points
  out = []
  for p, nrm, fea, lab in sample_arrays(case):
    out.append(Points(
        coords_of(p, case['depth']),
        torch.from_numpy(nrm).float() if normals else None,
        torch.from_numpy(fea).float() if features else None,
        torch.from_numpy(lab).float() if labels else None))
  return out


def make_octree(case, normals=True, features=True, neigh=True):
  """The octree under test, built through the public API."""
  from ocnn.octree import Octree, merge_octrees, merge_points
  pts = make_points(case, normals, features)
  d, f = case['depth'], case['full']
  if len(pts) == 1 and case.get('mode') != 'merge':
    octree = Octree(d, f)
    octree.build_octree(pts[0])
  elif case.get('mode') == 'batch':
    octree = Octree(d, f, len(pts))
    octree.build_octree(merge_points(pts))
  else:
    octs = []
    for p in pts:
      o = Octree(d, f)
      o.build_octree(p)
      octs.append(o)
    octree = merge_octrees(octs)
  if neigh:
    octree.construct_all_neigh()
  return octree


def ref_cells(case):
  out = []
  for b, s in enumerate(case['samples']):
    c = cells_of(expand(s, case['depth']), case['depth'])
    out.append(np.concatenate([np.full((c.shape[0], 1), b), c], 1))
  return np.concatenate(out, 0).astype(np.int64)


def make_ref(case):
  return ref.RefOctree.from_cells(ref_cells(case), case['depth'], case['full'],
                                  len(case['samples']))


def octree_tags(case, r):
  """Descriptive tags of a geometry case."""
  t = ['depth%d' % case['depth'], 'batch%d' % len(case['samples'])]
  lv = r.levels[case['depth']]
  if case['depth'] == case['full']:
    t.append('all-full')
  if lv.nnum_nempty > 50:
    t.append('many-nodes')
  if any(not s for s in case['samples']):
    t.append('empty-sample')
  return t


def geom_nontrivial(case, r):
  """At least two occupied leaf cells, of which one pair touches or two samples."""
  lv = r.levels[case['depth']]
  return lv.nnum_nempty >= 2
