"""Shared oracle: an octree of the code under test against the reference model."""
import numpy as np
import torch

from . import cmp, ref


def check_layer(octree, r, d, what=''):
  lv = r.levels[d]
  w = '%s layer %d ' % (what, d)
  cmp.number(octree.nnum[d], lv.nnum, w + 'node number')
  cmp.number(octree.nnum_nempty[d], lv.nnum_nempty, w + 'non-empty node number')
  cmp.equal(octree.keys[d], lv.keys, w + 'keys')
  cmp.equal(octree.children[d], lv.children, w + 'children')
  cmp.equal(octree.nempty_mask(d), lv.nempty, w + 'nempty_mask')
  for ne in (False, True):
    rows = r.rows(d, ne)
    cmp.equal(octree.key(d, ne), lv.keys[lv.nempty] if ne else lv.keys, w + 'key()')
    out = octree.xyzb(d, ne)
    cmp.require(isinstance(out, tuple) and len(out) == 4, w + 'xyzb() returns 4 tensors')
    for got, col, name in zip(out, (1, 2, 3, 0), 'xyzb'):
      cmp.equal(got, rows[:, col], w + 'xyzb() ' + name)
    cmp.equal(octree.batch_id(d, ne), rows[:, 0], w + 'batch_id()')


def check_structure(octree, r, what='octree'):
  cmp.require(octree.depth == r.depth and octree.full_depth == r.full_depth,
              '%s: depth/full_depth changed', what)
  cmp.require(int(octree.batch_size) == r.batch, '%s: batch_size %s, expected %d', what,
              octree.batch_size, r.batch)
  for d in range(r.depth + 1):
    check_layer(octree, r, d, what)


def check_neighs(octree, r, what='octree', depths=None):
  for d in depths or range(1, r.depth + 1):
    cmp.require(octree.neighs[d] is not None, '%s: no neighbours of layer %d', what, d)
    cmp.equal(octree.neighs[d], r.neigh(d), '%s neighbours of layer %d' % (what, d))


def leaf_average(case_arrays, case, r):
  """Reference leaf signals in the order of the non-empty leaf nodes.

  Returns dict: pos (float64, units of cells), nsum, feat, count, index (leaf row of
  every point, samples concatenated)."""
  from . import gen
  d = case['depth']
  pts, nrm, fea, cells = [], [], [], []
  for b, (p, n, f, _) in enumerate(case_arrays):
    c = gen.cells_of(p, d)
    cells.append(np.concatenate([np.full((c.shape[0], 1), b), c], 1))
    pts.append(p), nrm.append(n), fea.append(f)
  cells = np.concatenate(cells, 0)
  pts, nrm, fea = (np.concatenate(v, 0).astype(np.float64) for v in (pts, nrm, fea))
  idx = r.levels[d].index(cells, nempty=True)
  m = r.levels[d].nnum_nempty
  cnt = np.bincount(idx, minlength=m).astype(np.float64)[:, None]

  def sums(v):
    out = np.zeros((m, v.shape[1]))
    np.add.at(out, idx, v)
    return out
  return {'pos': sums(pts) / gen.SUB / cnt, 'nsum': sums(nrm), 'feat': sums(fea) / cnt,
          'count': cnt, 'index': idx}


def normalize(v):
  n = np.sqrt((v ** 2).sum(1, keepdims=True))
  return v / np.maximum(n, 1e-12)
