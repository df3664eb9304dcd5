"""C14: pooling reduces each node's own children (or neighbours, or sample), nothing else."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C14'
RULE = ('octrees (batches with empty samples) x layer x all/non-empty nodes x 1..4 channels; '
        'max pool/unpool with and without indices, average pooling for every kernel and stride, '
        'global pooling, all with integer data against reductions over explicit child / '
        'neighbour / sample lists; non-trivial: a parent with at least two stored children of '
        'different value (max), a window with at least two nodes (avg), two samples (global)')
ASSUMPTIONS = ['non-empty max pooling is not judged on parents without non-empty children '
               '(below full_depth)', 'average pooling is judged for float32 data']


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 5, 1, 3, max_batch=4, allow_empty=True, bulk=120, max_shapes=2,
                              deep=16))
  case['d'] = draw(st.integers(1, case['depth']))
  case['nempty'] = draw(st.booleans())
  case['c'] = draw(st.integers(1, 4))
  case['kernel'] = draw(st.sampled_from(ref.KERNELS))
  case['ksize'] = [int(v) for v in case['kernel']]
  case['stride'] = draw(st.sampled_from([1, 2]))
  case['salt'] = draw(gen.SALT)
  case['neg'] = draw(st.booleans())
  case['module'] = draw(st.booleans())
  case['double'] = draw(st.booleans())
  case['mag'] = draw(gen.MAG)
  return case


def parents(r, d, ne):
  rows = r.rows(d, ne).copy()
  rows[:, 1:] >>= 1
  return r.levels[d - 1].index(rows, ne)


def check_max(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne, c = case['d'], case['nempty'], case['c']
  n = r.num(d, ne)
  mag = gen.mag(case)
  lo, hi = (-60, -1) if case['neg'] else (-30, 30)
  x = gen.int_array((n, c), case['salt'], 1, lo, hi) * mag
  dt = torch.float64 if case['double'] else torch.float32
  data = torch.from_numpy(x).to(dt)
  p = parents(r, d, ne)
  P = r.num(d - 1, ne)
  exp = np.full((P, c), -np.inf)
  np.maximum.at(exp, p, x)
  has = np.bincount(p, minlength=P) > 0
  if not ne:
    exp[~has] = 0            # empty parents have no children: padded
    judged = np.ones(P, dtype=bool)
  else:
    judged = has
  if case['module']:
    out = ocnn.nn.OctreeMaxPool(ne)(data, octree, d)
    out2, idx = ocnn.nn.OctreeMaxPool(ne, True)(data, octree, d)
  else:
    out = ocnn.nn.octree_max_pool(data, octree, d, ne)
    out2, idx = ocnn.nn.octree_max_pool(data, octree, d, ne, True)
  for o, w in ((out, 'max pool'), (out2, 'max pool with indices')):
    cmp.shape(o, (P, c), w)
    cmp.dtype(o, dt, w)
    cmp.equal(cmp.arr(o)[judged], exp[judged], w)
  # unpooling puts every maximum back where it was found
  if judged.all():
    y = gen.int_array((P, c), case['salt'], 2, 1, 50).astype(np.float64)
    un = ocnn.nn.OctreeMaxUnpool(ne) if case['module'] else None
    t = torch.from_numpy(y).to(dt)
    got = un(t, idx, octree, d - 1) if un else ocnn.nn.octree_max_unpool(
        t, idx, octree, d - 1, ne)
    cmp.shape(got, (n, c), 'max unpool')
    g = cmp.arr(got)
    # one child of every parent, one of those which attain the maximum
    tot = np.zeros((P, c))
    np.add.at(tot, p, g)
    cmp.equal(tot[has], y[has], 'sum of the unpooled children')
    nz = g != 0
    cnt = np.zeros((P, c))
    np.add.at(cnt, p, nz)
    cmp.equal(cnt[has], np.ones((int(has.sum()), c)), 'number of unpooled children')
    cmp.require((x[nz] == exp[p][nz]).all(), 'a value was unpooled to a node that is not the '
                'maximum of its siblings')
    # pooling again gives the values back
    again = ocnn.nn.octree_max_pool(got, octree, d, ne)
    cmp.equal(cmp.arr(again)[has], np.where(cnt[has] > 0, y[has], 0), 'max pool of max unpool')
    cmp.equal(t, y, 'input of max unpool')
  cmp.equal(data, x, 'input of max pool')
  t = ['nempty' if ne else 'all', 'judged-all' if judged.all() else 'judged-some']
  if n and (np.bincount(p) > 1).any() and np.unique(x).size > 1:
    t.append('nt')
  return t


def check_avg(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  d, ne, c, k, s = (case[v] for v in ('d', 'nempty', 'c', 'kernel', 'stride'))
  n = r.num(d, ne)
  mag = gen.mag(case)
  x = gen.int_array((n, c), case['salt'], 1, -20, 20) * mag
  data = torch.from_numpy(x).to(torch.float64 if case['double'] else torch.float32)
  nb = r.neigh(d, k, s, ne)
  cnt = (nb >= 0).sum(1)[:, None]
  exp = ref.gather(x, nb).sum(1) / np.maximum(cnt, 1)
  if s == 2 and not ne:
    exp = ref.pad(exp, r.levels[d - 1])
  if case['module']:
    got = ocnn.nn.OctreeAvgPool(list(case['ksize']), s, ne)(data, octree, d)
  else:
    got = ocnn.nn.octree_avg_pool(data, octree, d, k, s, ne)
  cmp.require(got.dtype == data.dtype, 'average of %s in %s', data.dtype, got.dtype)
  cmp.close(got, exp, 'average pooling', *((2e-6 * mag, 1e-6) if case['double'] else (2e-5 * mag, 1e-5)))
  cmp.equal(data, x, 'input of average pooling')
  t = ['k%s-s%d-%s' % (k, s, 'nempty' if ne else 'all')]
  if (cnt > 1).any():
    t.append('nt')
  return t


def check_global(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne, c = case['d'], case['nempty'], case['c']
  dt = torch.float64 if case['double'] else torch.float32
  b = r.batch_id(d, ne)
  mag = gen.mag(case)
  x = gen.int_array((b.shape[0], c), case['salt'], 1, -20, 20) * mag
  data = torch.from_numpy(x).to(dt)
  exp = np.zeros((r.batch, c))
  np.add.at(exp, b, x)
  cnt = np.bincount(b, minlength=r.batch)[:, None]
  exp = exp / np.maximum(cnt, 1)
  got = ocnn.nn.OctreeGlobalPool(ne)(data, octree, d) if case['module'] else \
      ocnn.nn.octree_global_pool(data, octree, d, ne)
  cmp.dtype(got, dt, 'global pooling')
  cmp.close(got, exp, 'global pooling', 1e-6 * mag, 1e-6)
  cmp.equal(data, x, 'input of global pooling')
  t = ['empty-sample'] if (cnt == 0).any() else []
  if r.batch > 1:
    t.append('nt')
  return t


FACETS = [
    Facet('max', strat, check_max, 2000, 40000),
    Facet('avg', strat, check_avg, 1500, 30000, examples=[
        # fixed: stride-2 output was not padded to the nodes of the coarser layer
        {'depth': 2, 'full': 1, 'samples': [[{'k': 'pts', 'p': [[1, 1, 1]]}]], 'mode': 'merge',
         'd': 2, 'nempty': False, 'c': 2, 'kernel': '222', 'ksize': [2], 'stride': 2,
         'salt': 3, 'neg': False, 'module': True, 'double': False},
        # fixed: float64 data raised a RuntimeError
        {'depth': 2, 'full': 1, 'samples': [[{'k': 'pts', 'p': [[1, 1, 1]]}]], 'mode': 'merge',
         'd': 2, 'nempty': True, 'c': 1, 'kernel': '333', 'ksize': [3], 'stride': 1,
         'salt': 3, 'neg': False, 'module': False, 'double': True}]),
    Facet('global', strat, check_global, 1500, 25000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('max', 'avg', 'global')]
