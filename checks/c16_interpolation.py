"""C16: interpolation at points and upsampling read the right nodes with the right weights."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C16'
RULE = ('octrees (clusters, faces, batches with empty samples) of depth 1..8 x layer x nearest/'
        'linear x all/non-empty nodes x bound_check x rescaling; queries at cell corners, '
        'centres, boundary faces (including exactly +-1), near existing nodes and at random, of '
        'several samples in any order; compared with an explicit trilinear sum over existing '
        'nodes of the same sample; upsampling to every finer layer; non-trivial: some query has '
        'at least one existing and one missing node with weight')
ASSUMPTIONS = ['queries outside of the volume are only made with bound_check']

TYPES = [(False, False)] * 3 + [(True, False), (False, True), (True, True)]
RES = 32     # queries lie on a grid of 1/32 cell


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 4, 1, 3, max_batch=3, allow_empty=True, bulk=80, max_shapes=2)
              if draw(st.integers(0, 2)) else
              gen.octree_case(4, 8, 1, 2, max_batch=2, bulk=40, max_shapes=2, deep=16))
  case['d'] = draw(st.integers(1, case['depth']))
  case['nempty'], case['bound'] = draw(st.booleans()), draw(st.booleans())
  case['method'] = draw(st.sampled_from(['linear', 'nearest']))
  case['rescale'], case['module'] = draw(st.booleans()), draw(st.booleans())
  case['c'], case['salt'] = draw(st.integers(1, 3)), draw(gen.SALT)
  case['nq'] = draw(gen.many(1, 24, 40000))
  case['outside'] = draw(st.booleans())
  case['mag'] = draw(gen.MAG)
  case['data64'], case['pts64'] = draw(st.sampled_from(TYPES))
  return case


def queries(case, r):
  """(n, 3) integer coordinates in 1/32 cells of layer d, and sample indices."""
  d, n = case['d'], case['nq']
  s = (1 << d) * RES
  h = gen.hash_ints(n * 8, case['salt'], 5).reshape(n, 8)
  rows = r.rows(d, False)
  ne = r.rows(d, True)
  q = np.zeros((n, 3), dtype=np.int64)
  b = np.zeros(n, dtype=np.int64)
  for i in range(n):
    kind = h[i, 0] % 6
    b[i] = h[i, 1] % r.batch
    if kind == 0:
      q[i] = h[i, 2:5] % (s + 1)
    elif kind == 1:          # faces of the volume
      q[i] = h[i, 2:5] % (s + 1)
      for k in range(3):
        if h[i, 5] >> k & 1:
          q[i, k] = s if h[i, 6] >> k & 1 else 0
    else:                    # near an existing node
      src = ne if (kind % 2 and ne.shape[0]) else rows
      node = src[h[i, 5] % src.shape[0]]
      b[i] = node[0]
      off = h[i, 2:5] % (2 * RES + 1) - RES if kind != 5 else (h[i, 2:5] % 3 - 1) * (RES // 2)
      q[i] = node[1:] * RES + RES // 2 + off
      q[i] = np.clip(q[i], 0, s)
    if case['outside'] and h[i, 7] % 3 == 0 and case['bound']:
      k, e = h[i, 6] % 3, h[i, 7] // 3 % 6
      if e < 2:              # far away
        q[i, k] += (e * 2 - 1) * (s + RES)
      else:                  # just beyond a face: within a cell of the volume
        off = 1 + h[i, 5] // 7 % (RES + RES // 2)
        q[i, k] = -off if e % 2 else s + off - 1
  return q, b


def reference(case, r, x, q, b):
  d, ne = case['d'], case['nempty']
  lv = r.levels[d]
  s = 1 << d
  n = q.shape[0]
  if case['method'] == 'nearest':
    cell = q // RES
    idx = lv.index(np.concatenate([b[:, None], cell], 1), ne)
    out = ref.gather(x, idx)
    return out, (idx >= 0).any() and (idx < 0).any(), np.ones(n, bool)
  lo = q - RES // 2
  cell, frac = lo // RES, (lo % RES) / RES
  out, norm = np.zeros((n, x.shape[1])), np.zeros(n)
  missing = np.zeros(n, bool)
  for i in (0, 1):
    for j in (0, 1):
      for k in (0, 1):
        o = np.array([i, j, k])
        w = np.where(o, frac, 1 - frac).prod(1)
        idx = lv.index(np.concatenate([b[:, None], cell + o], 1), ne)
        w_ok = np.where(idx >= 0, w, 0)
        missing |= (idx < 0) & (w > 0)
        out += ref.gather(x, idx) * w_ok[:, None]
        norm += w_ok
  ok = norm > 0
  out = np.where(ok[:, None], out / np.where(ok, norm, 1)[:, None], 0)
  return out, bool((missing & ok).any()), np.ones(n, bool)


def check(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne, method = case['d'], case['nempty'], case['method']
  mag = gen.mag(case)
  x = gen.int_array((r.num(d, ne), case['c']), case['salt'], 1, -8, 8) * mag
  data = torch.from_numpy(x).float()
  q, b = queries(case, r)
  if not case['bound'] and method == 'nearest':
    q = np.minimum(q, (1 << d) * RES - 1)      # the upper face is outside of [0, 2^d)
  exp, nt, judged = reference(case, r, x, q, b)
  xyz = q / RES
  before = cmp.snap_octree(octree)
  rescale = case['rescale'] and case['module']
  p = np.concatenate([xyz / 2.0 ** (d - 1) - 1 if rescale else xyz, b[:, None]], 1)
  pts = torch.from_numpy(p).to(torch.float64 if case.get('pts64') else torch.float32)
  data = data.to(torch.float64 if case.get('data64') else torch.float32)
  keep = pts.clone()
  if case['module']:
    m = ocnn.nn.OctreeInterp(method, ne, case['bound'], case['rescale'])
    fn = lambda: m(data, octree, d, pts)
    if not case['rescale']:
      pass
  else:
    f = ocnn.nn.octree_linear_pts if method == 'linear' else ocnn.nn.octree_nearest_pts
    fn = lambda: f(data, octree, d, pts, ne, case['bound'])
  for i in range(2):
    got = fn()
    w = '%s interpolation%s' % (method, ' (second call)' if i else '')
    cmp.require(got.dtype == data.dtype, '%s of %s gives %s', w, data.dtype, got.dtype)
    cmp.close(got, exp, w, *((2e-6 * mag, 1e-6) if case.get('data64') else (3e-5 * mag, 1e-5)))
    cmp.equal(pts, keep, 'query points after ' + w)
  cmp.equal(data, x, 'node features after the interpolation')
  cmp.same(before, cmp.snap_octree(octree), 'the octree')
  # each query is answered on its own
  order = np.argsort(gen.hash_ints(q.shape[0], case['salt'], 77))
  pts = pts[torch.from_numpy(order.copy())]
  cmp.close(fn(), exp[order], 'permuted queries', 3e-5 * mag, 1e-5)
  t = [method, 'nempty' if ne else 'all', 'depth%d' % d]
  if nt:
    t.append('nt')
  return t


@st.composite
def strat_up(draw):
  case = draw(gen.octree_case(1, 5, 1, 3, max_batch=3, allow_empty=True, bulk=60, max_shapes=2))
  case['d'] = draw(st.integers(0, case['depth']))
  case['t'] = draw(st.integers(case['d'], case['depth']))
  case['method'] = draw(st.sampled_from(['linear', 'nearest']))
  case['nempty'] = draw(st.booleans())
  case['default'] = draw(st.booleans())
  case['data64'] = draw(st.booleans())
  case['mag'] = draw(gen.MAG)
  case['c'], case['salt'] = draw(st.integers(1, 3)), draw(gen.SALT)
  return case


def check_up(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, t, ne = case['d'], case['t'], case['nempty']
  mag = gen.mag(case)
  x = gen.int_array((r.num(d, ne), case['c']), case['salt'], 1, -8, 8) * mag
  data = torch.from_numpy(x).to(torch.float64 if case.get('data64') else torch.float32)
  up = ocnn.nn.OctreeUpsample(case['method'], ne)
  got = up(data, octree, d) if case['default'] and t == d + 1 else up(data, octree, d, t)
  if t == d:
    exp, nt = x, False
  else:
    rows = r.rows(t, ne)
    # centres of the fine cells (up to 4 levels finer) in 1/32 cells of layer d
    k = t - d
    if case['method'] == 'nearest':
      idx = r.levels[d].index(np.concatenate([rows[:, :1], rows[:, 1:] >> k], 1), ne)
      exp, nt = ref.gather(x, idx), rows.shape[0] > 1
      cmp.require((idx >= 0).all(), 'reference: a fine node without an ancestor')
    else:
      q = (rows[:, 1:] * 2 + 1) * (RES >> (k + 1))
      exp, nt, _ = reference(dict(case, method='linear'), r, x, q, rows[:, 0])
  cmp.require(got.dtype == data.dtype, 'upsampling of %s gives %s', data.dtype, got.dtype)
  cmp.close(got, exp, 'upsampling from layer %d to %d (%s)' % (d, t, case['method']), 3e-5 * mag,
            1e-5)
  cmp.equal(data, x, 'node features after the upsampling')
  return [case['method'], 'by%d' % (t - d)] + (['nt'] if nt else [])


def check_real(case):
  """Queries anywhere: an interpolated value is a convex combination of nearby nodes,
  and constants are reproduced."""
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne = case['d'], case['nempty']
  lv = r.levels[d]
  n = case['nq'] * 4
  x = gen.int_array((r.num(d, ne), 1), case['salt'], 1, -8, 8).astype(np.float64)
  p = gen.hash_ints(n * 3, case['salt'], 8).reshape(n, 3) / 2.0 ** 32
  pts = (torch.from_numpy(p) * 2 ** d).float()
  p = pts.double().numpy()
  keep = (p < 2 ** d).all(1)
  pts, p = pts[torch.from_numpy(keep)], p[keep]
  b = gen.hash_ints(p.shape[0], case['salt'], 9) % r.batch
  q = torch.cat([pts, torch.from_numpy(b)[:, None].float()], 1)
  got = cmp.arr(ocnn.nn.octree_linear_pts(torch.from_numpy(x).float(), octree, d, q, ne))
  one = cmp.arr(ocnn.nn.octree_linear_pts(torch.ones(r.num(d, ne), 1), octree, d, q, ne))
  lo = p - 0.5
  cell, frac = np.floor(lo).astype(np.int64), lo - np.floor(lo)
  num, norm = np.zeros(p.shape[0]), np.zeros(p.shape[0])
  for o in np.ndindex(2, 2, 2):
    w = np.where(o, frac, 1 - frac).prod(1)
    idx = lv.index(np.concatenate([b[:, None], cell + np.array(o)], 1), ne)
    w = np.where(idx >= 0, w, 0)
    num += ref.gather(x, idx)[:, 0] * w
    norm += w
  ok = norm > 1e-2
  cmp.close(got[ok, 0], num[ok] / norm[ok], 'linear interpolation at random points', 1e-2, 1e-3)
  cmp.close(one[ok, 0], np.ones(ok.sum()), 'interpolation of a constant', 1e-4, 0)
  cmp.equal(got[norm == 0], np.zeros((int((norm == 0).sum()), 1)), 'value far from all nodes')
  return ['nt'] if ok.any() and (norm < 0.99).any() else []


EX = {'depth': 2, 'full': 2, 'samples': [[{'k': 'pts', 'p': [[0, 0, 0], [31, 31, 31]]}]],
      'mode': 'merge', 'd': 2, 'nempty': False, 'bound': False, 'method': 'linear',
      'rescale': True, 'module': True, 'c': 2, 'salt': 5, 'nq': 24, 'outside': False}
FACETS = [
    # the example: boundary queries used nodes of the opposite side; points were rescaled
    # in place, float64 data raised a RuntimeError (all repaired)
    Facet('points', strat, check, 3500, 60000, examples=[EX, dict(EX, data64=True)]),
    Facet('upsample', strat_up, check_up, 2000, 30000),
    Facet('real-points', strat, check_real, 1000, 20000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('points', 'upsample', 'real-points')]
