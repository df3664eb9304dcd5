"""C04: the octree is a function of the set of points, resolution-consistent."""
import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.octree import Octree, Points

from vlib import cmp, gen
from vlib.core import Facet, large

PROPERTY = 'C04'
RULE = ('arbitrary float clouds (hashed, clustered, surface-like; 1 to 30000 points, some of '
        'them several times) and two '
        'builds that must agree: after a permutation, after repeating every point, after '
        'moving points inside their cells, at a smaller depth, with another full_depth, '
        'after a reflection, for a sub-cloud; non-trivial: at least 3 occupied leaf cells')


@st.composite
def strat(draw):
  depth = draw(st.integers(2, 12))
  big = draw(st.integers(0, 30)) == 0
  return {
      'depth': depth, 'full': draw(st.integers(0, min(depth, 3))),
      'kind': draw(st.sampled_from(['rnd', 'sphere', 'plane', 'cluster'])),
      'n': draw(st.integers(1000, 30000)) if big else draw(gen.many(1, 300)),
      'r': draw(gen.SALT), 'pr': draw(gen.SALT), 'rep': draw(st.integers(2, 4)),
      'full2': draw(st.integers(0, min(depth, 3))),
      'flip': draw(st.lists(st.sampled_from([0, 1, 2]), max_size=3, unique=True)),
      'keep': draw(st.integers(1, 4)), 'dup': draw(st.integers(0, 3)),
  }


def cloud(case):
  n = case['n']
  p = gen.real_data((n, 3), case['r']).double().numpy()
  if case['kind'] == 'sphere':
    p = p / np.maximum(np.linalg.norm(p, axis=1, keepdims=True), 1e-9) * 0.9
  elif case['kind'] == 'plane':
    p[:, 2] = 0.25 * p[:, 0] + 0.1
  elif case['kind'] == 'cluster':
    p = p * 0.02
  p = np.clip(p, -0.999, 0.999)
  # away from cell faces, so that every variant below puts a point in the same cell
  d = case['depth']
  u = (p + 1) * 2.0 ** (d - 1)
  u = np.floor(u) + 0.2 + 0.6 * (u - np.floor(u))
  # some points occur several times, next to each other or at the end of the cloud
  h = gen.hash_ints(n, case['pr'], 9)
  if case['dup'] == 2:
    u = np.repeat(u, 1 + (h % 5 == 0) * (h // 5 % 4), axis=0)
  elif case['dup'] == 3:
    u = np.concatenate([u, u[h[:n // 3 + 1] % n]], 0)
  return u


def build(u, d, full, nrm=None, fea=None):
  x = torch.from_numpy((u / 2.0 ** (d - 1) - 1.0).astype(np.float32))
  o = Octree(d, full)
  idx = o.build_octree(Points(
      x, None if nrm is None else torch.from_numpy(nrm.astype(np.float32)),
      None if fea is None else torch.from_numpy(fea.astype(np.float32))))
  return o, idx


def same_structure(a, b, what, depths=None):
  for d in depths if depths is not None else range(a.depth + 1):
    cmp.equal(b.keys[d], a.keys[d], '%s: keys of layer %d' % (what, d))
    cmp.equal(b.children[d], a.children[d], '%s: children of layer %d' % (what, d))
    cmp.number(b.nnum[d], int(a.nnum[d]), '%s: nnum of layer %d' % (what, d))
    cmp.number(b.nnum_nempty[d], int(a.nnum_nempty[d]), '%s: nnum_nempty of layer %d' % (what, d))


def same_signals(a, b, what, atol=2e-3):
  d = a.depth
  for name in ('points', 'normals', 'features'):
    cmp.close(getattr(b, name)[d], getattr(a, name)[d], '%s: %s' % (what, name),
              atol, 1e-4)


def check(case):
  d, full = case['depth'], case['full']
  u = cloud(case)
  n = u.shape[0]
  # all normals in one half space: the averaged normal is well conditioned
  nrm = gen.real_data((n, 3), case['r'] + 1).double().numpy() + np.array([0, 0, 2.5])
  fea = gen.int_array((n, 2), case['r'] + 2).astype(np.float64)
  a, idx = build(u, d, full, nrm, fea)
  tags = [case['kind'], 'depth%d' % d] + (['large'] if n > 1000 else [])
  cells = np.floor(u).astype(np.int64)
  if np.unique(cells, axis=0).shape[0] >= 3:
    tags.append('nt')

  # permutation
  perm = np.argsort(gen.hash_ints(n, case['pr']), kind='stable')
  b, idx2 = build(u[perm], d, full, nrm[perm], fea[perm])
  same_structure(a, b, 'permuted points')
  same_signals(a, b, 'permuted points')
  cmp.equal(cmp.arr(idx2), cmp.arr(idx)[perm], 'leaf index of permuted points')

  # every point several times
  rep = np.repeat(np.arange(n), case['rep']) if case['pr'] % 2 else \
      np.tile(np.arange(n), case['rep'])
  b, idx2 = build(u[rep], d, full, nrm[rep], fea[rep])
  same_structure(a, b, 'repeated points')
  same_signals(a, b, 'repeated points')
  cmp.equal(cmp.arr(idx2), cmp.arr(idx)[rep], 'leaf index of repeated points')

  # the points move inside of their cells
  mv = 0.2 + 0.6 * (gen.real_data((n, 3), case['pr'] + 3).double().numpy() * 0.5 + 0.5)
  b, _ = build(np.floor(u) + mv, d, full)
  same_structure(a, b, 'points moved inside of their cells')

  # one point per cell is enough
  _, first = np.unique(cells, axis=0, return_index=True)
  b, _ = build(u[np.sort(first)], d, full)
  same_structure(a, b, 'one point per cell')

  # a smaller depth gives the same upper layers
  if d > 1:
    b, _ = build(u / 2, d - 1, min(full, d - 1))
    if full <= d - 1:
      same_structure(b, a, 'depth %d against %d' % (d - 1, d), range(d))

  # full_depth only fills the layers above it
  b, _ = build(u, d, case['full2'])
  for l in range(max(full, case['full2']) + 1, d + 1):
    cmp.equal(b.keys[l], a.keys[l], 'another full_depth: keys of layer %d' % l)
    cmp.equal(b.children[l], a.children[l], 'another full_depth: children of layer %d' % l)
  l = max(full, case['full2'])
  cmp.equal(b.key(d, True), a.key(d, True), 'another full_depth: leaf keys')

  # reflection
  v = u.copy()
  for ax in case['flip']:
    v[:, ax] = 2.0 ** d - v[:, ax]
  b, _ = build(v, d, full)
  for l in range(d + 1):
    for ne in (False, True):
      ca = np.stack([cmp.arr(c) for c in a.xyzb(l, ne)], 1)
      cb = np.stack([cmp.arr(c) for c in b.xyzb(l, ne)], 1)
      for ax in case['flip']:
        ca[:, ax] = (1 << l) - 1 - ca[:, ax]
      cmp.require(ca.shape == cb.shape and
                  (np.unique(ca, axis=0) == np.unique(cb, axis=0)).all(),
                  'reflected points: the cells of layer %d are not the reflected cells', l)

  # a sub-cloud occupies a subset
  sub = u[::case['keep']]
  b, _ = build(sub, d, full)
  for l in range(full, d + 1):
    ka, kb = cmp.arr(a.key(l, True)), cmp.arr(b.key(l, True))
    cmp.require(np.isin(kb, ka).all(), 'sub-cloud: layer %d has cells the cloud has not', l)
  return tags


FACETS = [Facet('metamorphic', strat, check, 3000, 60000)]
FACETS += [large(f, 48, 800) for f in FACETS if f.name == 'metamorphic']
