"""C08: growing an octree by splitting nodes; histories of splits, grows and re-grows."""
import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.octree import Octree, init_octree

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C08'
RULE = ('histories over one octree: initialise a full octree, then grow layer by layer with '
        'drawn splitting masks (dense, sparse, empty, first/last only), re-split a layer and '
        're-grow below it, interleaved with neighbour construction; after every step the '
        'octree is compared with the reference; replaying the splits of a built octree must '
        'reproduce it; non-trivial: at least one proper mask (not all/none) and 2 grown layers')
ASSUMPTIONS = ['splitting masks are 0/1 tensors over the nodes of the layer, as documented']


@st.composite
def mask(draw):
  return {'m': draw(st.sampled_from([0, 1, 2, 3, 5, -1, -2])), 'r': draw(gen.SALT)}


def mask_array(m, n):
  if m['m'] == 0:
    return np.zeros(n, dtype=bool)
  if m['m'] == -1:
    a = np.zeros(n, dtype=bool)
    a[-1] = True
    return a
  if m['m'] == -2:
    a = np.ones(n, dtype=bool)
    a[0] = False
    return a
  return gen.hash_ints(n, m['r']) % m['m'] == 0


@st.composite
def strat(draw):
  deep = draw(st.integers(0, 7)) == 7         # a long, sparse history
  depth = draw(st.integers(6, 16) if deep else st.integers(1, 5))
  full = draw(st.integers(1, min(2, depth)))
  n = draw(st.integers(depth - full, 18) if deep else st.integers(1, 8))
  ops = []
  for _ in range(n):
    m = draw(mask())
    if deep:
      m['m'] = {0: 0, -1: -1}.get(m['m'], 40)
    ops.append([draw(st.integers(0, 6 if deep else 9)), m, draw(st.booleans())])
  return {'depth': depth, 'full': full, 'batch': draw(st.integers(1, 3)),
          'dt': draw(st.sampled_from(['int32', 'int32', 'int64', 'bool', 'uint8', 'float32'])), 'ops': ops,
          'manual': draw(st.booleans())}


def check(case):
  d, full, B = case['depth'], case['full'], case['batch']
  if case['manual']:
    octree = Octree(d, full, B)
    for l in range(full + 1):
      octree.octree_grow_full(l)
  else:
    octree = init_octree(d, full, B)
  cur = full                  # the deepest layer which exists
  splits = {full: np.ones(8 ** full * B, dtype=bool)}
  neigh_ok = {l: True for l in range(1, full + 1)}
  tags, proper = [], 0

  def compare(what):
    r = ref.RefOctree.from_splits({k: v for k, v in splits.items()}, cur, full, B)
    for l in range(cur + 1):
      oct.check_layer(octree, r, l, what)
      if l >= 1 and neigh_ok.get(l):
        cmp.equal(octree.neighs[l], r.neigh(l), '%s: neighbours of layer %d' % (what, l))
    return r

  r = compare('initial octree')
  for kind, m, upd in case['ops']:
    lv = r.levels
    if kind <= 6 or cur == full:
      # split the deepest layer and grow
      l = cur
    else:
      l = full + kind % (cur - full + 1)      # go back to an upper layer
    if r.levels[l].nnum > 3000:
      m = {'m': -1, 'r': 0}
    s = mask_array(m, r.levels[l].nnum)
    proper += int(s.any() and not s.all())
    t = torch.from_numpy(s).to(getattr(torch, case['dt']))
    t0 = t.clone()
    octree.octree_split(t, l)
    cmp.equal(t, t0, 'the splitting mask after octree_split')
    eff = s.copy()
    if not eff.any():
      eff[0] = True
      tags.append('none-split')
    splits = {k: v for k, v in splits.items() if k < l}
    splits[l] = eff
    cur = l
    r = compare('after octree_split of layer %d' % l)
    if l < d:
      use = upd and (l <= full or neigh_ok.get(l, False))
      octree.octree_grow(l + 1, update_neigh=use)
      neigh_ok = {k: v for k, v in neigh_ok.items() if k <= l}
      neigh_ok[l + 1] = use
      cur = l + 1
      splits[cur] = np.ones(r.levels[l].nnum_nempty * 8, dtype=bool)
      r = compare('after octree_grow to layer %d' % (l + 1))
  if cur == d:
    octree.construct_all_neigh()
    oct.check_neighs(octree, r, 'after construct_all_neigh')
    tags.append('complete')
  if proper and cur - full >= 2:
    tags.append('nt')
  tags.append('cur%d' % cur)
  return tags


def strat_replay():
  return gen.octree_case(1, 5, 1, 2, max_batch=3, allow_empty=False, bulk=150, deep=16)


def check_replay(case):
  """Replaying the splits of a built octree reproduces it."""
  a = gen.make_octree(case, False, False)
  d, full, B = case['depth'], case['full'], len(case['samples'])
  b = init_octree(d, full, B)
  for l in range(full, d + 1):
    b.octree_split(a.nempty_mask(l).int(), l)
    if l < d:
      b.octree_grow(l + 1)
  r = gen.make_ref(case)
  oct.check_structure(b, r, 'octree grown from the splits of a built octree')
  oct.check_neighs(b, r, 'octree grown from the splits of a built octree')
  return ['nt'] if d - full >= 1 and r.levels[d].nnum_nempty > 1 else []


FACETS = [
    Facet('history', strat, check, 4000, 60000),
    Facet('replay', strat_replay, check_replay, 1500, 20000),
]
FACETS += [large(f, 32, 500) for f in FACETS if f.name == 'replay']
