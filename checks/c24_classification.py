"""C24: classification networks judge every sample on its own, repeatably."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, gen, models
from vlib.core import Facet, large

PROPERTY = 'C24'
RULE = ('LeNet / ResNet / HRNet of generated configurations (stages, block numbers, input '
        'features, all/non-empty nodes) with calibrated random weights, on batches of 1..4 '
        'generated clouds; logits of a batch compared with those of every sample alone, of '
        'permuted batches and of permuted points; repeated evaluation, untouched inputs and '
        'parameters, additive gradients; non-trivial: at least two samples with different '
        'logits')
ASSUMPTIONS = ['evaluation mode (batch statistics couple the samples in training mode)']


@st.composite
def strat(draw):
  net = draw(st.sampled_from(['lenet', 'lenet', 'resnet', 'resnet', 'hrnet']))
  case = {'net': net, 'nempty': draw(st.booleans()), 'out': draw(st.integers(1, 5)),
          'feat': draw(st.sampled_from(['ND', 'N', 'L', 'NDLPF', 'F', 'LF'])),
          'nsalt': draw(gen.SALT), 'fsalt': draw(gen.SALT), 'channel': 3}
  if net == 'lenet':
    case['stages'] = draw(st.integers(1, 4))
    depth, full = case['stages'] + 2, draw(st.integers(1, 2))
  elif net == 'resnet':
    case['stages'] = draw(st.integers(2, 3))
    case['blocks'] = draw(st.integers(1, 2))
    depth = case['stages'] + draw(st.integers(1, 2))
    full = draw(st.integers(1, min(depth - case['stages'], 2)))
  else:
    case['stages'] = draw(st.integers(1, 2 if draw(st.integers(0, 3)) else 3))
    depth, full = case['stages'] + 2 + draw(st.integers(0, 1)), 2
  case['depth'], case['full'] = depth, full
  n = draw(st.integers(1, 4))
  case['samples'] = [draw(gen.cloud(depth, bulk=60, max_shapes=2)) for _ in range(n)]
  for s in case['samples']:
    if gen.expand(s, depth).shape[0] == 0:
      s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  case['mode'] = draw(st.sampled_from(['merge', 'batch']))
  case['perm'] = draw(st.permutations(list(range(n))))
  case['grad'] = draw(st.integers(0, 2)) == 0
  return case


def model_of(case):
  net, ne, feat = case['net'], case['nempty'], case['feat']
  cin = models.channels(feat)
  key = (net, case['stages'], case.get('blocks'), ne, case['out'], feat)

  def build():
    if net == 'lenet':
      return ocnn.models.LeNet(cin, case['out'], case['stages'], ne)
    if net == 'resnet':
      return ocnn.models.ResNet(cin, case['out'], case['blocks'], case['stages'], ne)
    return ocnn.models.HRNet(cin, case['out'], case['stages'], nempty=ne)

  def run(m):
    c = models.calib_case(case['depth'], min(case['full'], 2), 4)
    o = gen.make_octree(c)
    m(models.feature(o, feat, ne), o, o.depth)
  return key, models.cached(key, build, run)


def logits(m, case, octree):
  data = models.feature(octree, case['feat'], case['nempty'])
  return m(data, octree, octree.depth)


def sub(case, ids):
  return dict(case, samples=[case['samples'][i] for i in ids])


def octree_of(case, ids):
  """The samples keep their normals and features when they are rearranged."""
  from ocnn.octree import Octree, merge_octrees, merge_points
  pts = gen.make_points(case)
  if case['mode'] == 'batch' and len(ids) > 1:
    o = Octree(case['depth'], case['full'], len(ids))
    o.build_octree(merge_points([pts[i] for i in ids]))
  else:
    octs = []
    for i in ids:
      o = Octree(case['depth'], case['full'])
      o.build_octree(pts[i])
      octs.append(o)
    o = merge_octrees(octs)
  o.construct_all_neigh()
  return o


def check(case):
  key, m = model_of(case)
  n = len(case['samples'])
  w = '%s(nempty=%s)' % (case['net'], case['nempty'])
  octree = octree_of(case, range(n))
  data = models.feature(octree, case['feat'], case['nempty'])
  keep, before = data.clone(), cmp.snap_octree(octree)
  with torch.no_grad():
    out = m(data, octree, octree.depth)
    cmp.shape(out, (n, case['out']), w + ' logits')
    cmp.require(bool(torch.isfinite(out).all()), '%s: logits are not finite', w)
    cmp.equal(m(data, octree, octree.depth), out, w + ', evaluated again')
    cmp.equal(data, keep, w + ': the input data')
    cmp.same(before, cmp.snap_octree(octree), w + ': the octree')
    models.state_unchanged(m, key, w)
    for i in range(n):
      models.near(logits(m, case, octree_of(case, [i])), out[i:i + 1],
                  '%s: sample %d alone' % (w, i))
    p = list(case['perm'])
    models.near(logits(m, case, octree_of(case, p)), out[p], w + ': permuted batch')
    # every point twice: the same octree
    if case['fsalt'] % 3 == 0:
      from ocnn.octree import Octree, Points
      q = gen.make_points(case)[0]
      perm = torch.from_numpy(np.argsort(gen.hash_ints(q.npt, case['nsalt'], 3)).copy())
      o = Octree(case['depth'], case['full'])
      o.build_octree(q[perm])
      o.construct_all_neigh()
      models.near(logits(m, case, o), out[:1], w + ': permuted points')
  tags = [case['net'], 'nempty' if case['nempty'] else 'all']
  if case['grad']:
    # gradients of the batch are the sums of the gradients of its samples
    wgt = gen.int_data((n, case['out']), case['nsalt'], 4)
    (logits(m, case, octree) * wgt).sum().backward()
    g1 = {k: p.grad for k, p in m.named_parameters()}
    for k, g in g1.items():
      cmp.require(g is not None, '%s: parameter %s receives no gradient', w, k)
      cmp.require(bool(torch.isfinite(g).all()), '%s: gradient of %s is not finite', w, k)
    m.zero_grad(set_to_none=True)
    for i in range(n):
      (logits(m, case, octree_of(case, [i])) * wgt[i:i + 1]).sum().backward()
    for k, p in m.named_parameters():
      models.near(p.grad, g1[k], '%s: gradient of %s' % (w, k), 1e-2)
    tags.append('grad')
  if n > 1 and float((out - out[:1]).abs().max()) > 1e-2:
    tags.append('nt')
  return tags


FACETS = [Facet('per-sample', strat, check, 500, 8000, heavy=True)]
FACETS += [large(f, 16, 200, 20000) for f in FACETS if f.name == 'per-sample']
