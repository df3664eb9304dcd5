"""C06: neighbourhoods are the geometric neighbours, for every kernel, stride and mode."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C06'
RULE = ('octrees of depth 1..8 (full_depth 1..3) built from clusters around octant corners, '
        'boxes, boundary faces and bulk, batches of 1..4; neighbourhood of every layer for a '
        'drawn kernel/stride/nempty and the full 3x3x3 table compared with brute force; '
        'non-trivial: some layer below full_depth has a node with a neighbour under another '
        'parent, and at least one absent neighbour inside of the volume')
ASSUMPTIONS = ['full_depth >= 1 (neighbourhoods are documented for depth > 0)']


@st.composite
def strat(draw):
  if draw(st.integers(0, 3)) == 0:
    case = draw(gen.octree_case(4, 16, 1, 2, max_batch=2, bulk=40, max_shapes=2))
  else:
    case = draw(gen.octree_case(1, 5, 1, 3, max_batch=4, allow_empty=True, bulk=150,
                                max_shapes=3))
  case['order'] = draw(st.permutations(['neighs', 'query']))
  case['combos'] = draw(st.lists(st.tuples(
      st.sampled_from(ref.KERNELS), st.sampled_from([1, 2]), st.booleans()).map(list),
      min_size=1, max_size=4))
  return case


def interesting(r):
  for d in range(r.full_depth + 1, r.depth + 1):
    n = r.neigh(d)
    if n.shape[0] == 0:
      continue
    other = (n >= 0) & (n // 8 != (np.arange(n.shape[0]) // 8)[:, None])
    if other.any() and (n < 0).any():
      return True
  return False


def check(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  oct.check_neighs(octree, r)
  tags = gen.octree_tags(case, r)
  for kernel, stride, nempty in case['combos']:
    for d in range(1, case['depth'] + 1):
      before = octree.neighs[d].clone()
      got = octree.get_neigh(d, kernel, stride, nempty)
      what = 'get_neigh(%d, %s, stride=%d, nempty=%s)' % (d, kernel, stride, nempty)
      cmp.equal(got, r.neigh(d, kernel, stride, nempty), what)
      cmp.equal(octree.neighs[d], before, 'stored neighbours after ' + what)
    tags.append('k%s-s%d-%s' % (kernel, stride, 'nempty' if nempty else 'all'))
  # asking again changes nothing
  kernel, stride, nempty = case['combos'][0]
  d = case['depth']
  cmp.equal(octree.get_neigh(d, kernel, stride, nempty),
            r.neigh(d, kernel, stride, nempty), 'get_neigh, asked again')
  # rebuilding the neighbours of one layer gives the same table
  octree.construct_neigh(d)
  cmp.equal(octree.neighs[d], r.neigh(d), 'construct_neigh, called again')
  if interesting(r):
    tags.append('nt')
  return tags


@st.composite
def strat_sym(draw):
  case = draw(gen.octree_case(1, 6, 1, 3, max_batch=3, bulk=300))
  return case


def check_sym(case):
  """Adjacency is symmetric, reflexive, and never crosses samples."""
  octree = gen.make_octree(case, False, False)
  for d in range(1, case['depth'] + 1):
    for nempty in (False, True):
      n = cmp.arr(octree.get_neigh(d, '333', 1, nempty))
      N = n.shape[0]
      num = int(octree.nnum_nempty[d] if nempty else octree.nnum[d])
      cmp.require(N == num and (N == 0 or n.shape[1] == 27), 'table of %s rows', n.shape)
      if N == 0:
        continue
      cmp.require(n.max() < num and n.min() >= -1, 'index out of range')
      cmp.equal(n[:, 13], np.arange(N), 'every node is its own centre neighbour')
      b = cmp.arr(octree.batch_id(d, nempty))
      i, k = np.nonzero(n >= 0)
      j = n[i, k]
      cmp.equal(n[j, 26 - k], i, 'symmetry of the neighbours in layer %d' % d)
      cmp.equal(b[j], b[i], 'batch index of the neighbours in layer %d' % d)
      # no node is listed twice
      srt = np.sort(np.where(n < 0, -1 - np.arange(27), n), 1)
      cmp.require((srt[:, 1:] != srt[:, :-1]).all(), 'a neighbour is listed twice')
  return ['nt'] if int(octree.nnum_nempty[case['depth']]) > 8 else []


@st.composite
def strat_full(draw):
  full = draw(st.integers(3, 6))
  batch = draw(st.integers(1, max(1, 8 ** (6 - full))))
  batch = min(batch, 200, 8 ** 6 // 8 ** full * 2)
  return {'full': full, 'batch': batch, 'grown': draw(st.booleans()),
          'kernel': draw(st.sampled_from(ref.KERNELS)), 'stride': draw(st.sampled_from([1, 2]))}


def check_full(case):
  """A layer of all cells: the neighbour is found by arithmetic, in every sample."""
  from ocnn.octree import Octree, Points, init_octree
  d, batch = case['full'], case['batch']
  cells = np.stack(ref.demorton(np.arange(8 ** d), d), 1)
  if case['grown'] or batch > 1:
    octree = init_octree(d, d, batch)
  else:
    octree = Octree(d, d)
    octree.build_octree(Points(torch.from_numpy(
        ((cells + 0.5) * 2.0 ** (1 - d) - 1.0).astype(np.float32))))
    octree.construct_all_neigh()
  q = cells[:, None] + ref.kernel_offsets('333')
  ok = ((q >= 0) & (q < 1 << d)).all(2)
  q = np.where(ok[..., None], q, 0)
  one = np.where(ok, ref.morton(q[..., 0], q[..., 1], q[..., 2], d), -1)
  exp = np.concatenate([np.where(one >= 0, one + b * 8 ** d, -1) for b in range(batch)], 0)
  cmp.equal(octree.neighs[d], exp, 'neighbours of the full layer %d of %d samples' % (d, batch))
  cmp.equal(octree.batch_id(d), np.repeat(np.arange(batch), 8 ** d), 'batch_id')
  cmp.equal(octree.search_xyzb(torch.from_numpy(np.concatenate(
      [np.tile(cells, (batch, 1)), np.repeat(np.arange(batch), 8 ** d)[:, None]], 1)), d),
      np.arange(batch * 8 ** d), 'search in the full layer')
  col = (ref.kernel_offsets(case['kernel']) + 1) @ np.array([9, 3, 1])
  for nempty in (False, True):
    cmp.equal(octree.get_neigh(d, case['kernel'], case['stride'], nempty),
              exp[::8 if case['stride'] == 2 else 1, col],
              'get_neigh(%d, %s, %d, %s)' % (d, case['kernel'], case['stride'], nempty))
  return ['full%d' % d, 'batch%d' % batch] + (['nt'] if batch * 8 ** d > 32768 else [])


FACETS = [
    Facet('brute-force', strat, check, 3500, 60000),
    Facet('symmetry', strat_sym, check_sym, 1500, 25000),
    Facet('full-layer', strat_full, check_full, 40, 500, heavy=True),
]
FACETS += [large(f, 32, 500, 30000) for f in FACETS if f.name == 'brute-force'] + \
    [large(f, 48, 700) for f in FACETS if f.name == 'symmetry']
