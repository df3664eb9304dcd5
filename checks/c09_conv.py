"""C09: octree convolution is the sum over existing neighbours, however it is computed."""
import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C09'
RULE = ('octrees (clusters, boxes, faces, bulk; batches with empty samples) x layer x 8 kernel '
        'shapes (all documented spellings) x stride 1/2 x all/non-empty nodes x bias x dtype '
        'x memory layout x buffer sizes around the chunk boundaries; integer data and weights, '
        'so every method must give exactly the brute-force sum; non-trivial: a row has a '
        'neighbour besides itself and some row misses one')
ASSUMPTIONS = ['values are small integers, for which float32 arithmetic is exact']


def check(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  d, k, s, ne = case['d'], case['kernel'], case['stride'], case['nempty']
  dt = conv.dtype_of(case)
  K = conv.kdim(k)
  x = conv.values(case, (r.num(d, ne), case['cin']))
  data = conv.strided(torch.from_numpy(x).to(dt), case['layout'])
  before = cmp.snap_octree(octree)
  rows = r.neigh(d, k, s, ne).shape[0]
  exp = None
  for direct in (False, True):
    kw = dict(kernel_size=list(case['ksize']), stride=s, nempty=ne, use_bias=case['bias'])
    if direct:
      kw['direct_method'] = True
    else:
      kw['max_buffer'] = conv.max_buffer(case['buf'], rows, K, case['cin'])
    m = ocnn.nn.OctreeConv(case['cin'], case['cout'], **kw)
    cmp.shape(m.weights, (K, case['cin'], case['cout']), 'weights')
    par = conv.set_params(m, case, dt)
    conv.check_bias(m, case['bias'], case['cout'])
    if exp is None:
      exp = conv.conv_forward(r, x, par['weights'], d, k, s, ne, par.get('bias'))
    for i in range(2):
      got = m(data, octree, d)
      w = 'OctreeConv(direct_method=%s)%s' % (direct, ', second call' if i else '')
      cmp.dtype(got, dt, w)
      cmp.equal(got, exp, w)
    cmp.equal(m.weights, par['weights'], 'weights after the convolution')
  cmp.equal(data, x, 'the input data after the convolution')
  cmp.same(before, cmp.snap_octree(octree), 'the octree')
  # the functional form has neither bias nor padding
  from ocnn.nn.octree_conv import octree_conv
  got = octree_conv(data, torch.from_numpy(par['weights']).to(dt), octree, d, case['cin'],
                    case['cout'], [int(c) for c in k], s, ne)
  cmp.equal(got, conv.conv_forward(r, x, par['weights'], d, k, s, ne, None, False),
            'octree_conv')
  tags = ['k%s-s%d-%s' % (k, s, 'nempty' if ne else 'all'), 'buf%d' % case['buf']]
  if conv.touching(r, d, k, s, ne):
    tags.append('nt')
  return tags


@st.composite
def strat_dense(draw):
  return {'d': draw(st.integers(1, 4)), 'batch': draw(st.integers(1, 2)),
          'kernel': draw(st.sampled_from(ref.KERNELS)), 'stride': draw(st.sampled_from([1, 2])),
          'cin': draw(st.integers(1, 3)), 'cout': draw(st.integers(1, 3)),
          'nempty': draw(st.booleans()), 'salt': draw(gen.SALT), 'deconv': draw(st.booleans())}


def to_grid(x, r, d):
  """(N, C) of a full layer -> (B, C, X, Y, Z)"""
  n = r.levels[d].nodes
  g = np.zeros((r.batch, 1 << d, 1 << d, 1 << d, x.shape[1]))
  g[n[:, 0], n[:, 1], n[:, 2], n[:, 3]] = x
  return torch.from_numpy(g).permute(0, 4, 1, 2, 3)


def from_grid(g, r, d):
  n = r.levels[d].nodes
  return g.permute(0, 2, 3, 4, 1).numpy()[n[:, 0], n[:, 1], n[:, 2], n[:, 3]]


def check_dense(case):
  """On a full octree the convolution is the dense convolution of pytorch."""
  from ocnn.octree import init_octree
  d, k, s = case['d'], case['kernel'], case['stride']
  r = ref.RefOctree.from_splits({}, d, d, case['batch'])
  octree = init_octree(d, d, case['batch'])
  octree.octree_split(torch.ones(r.num(d), dtype=torch.int32), d)
  octree.construct_all_neigh()
  ks = [int(c) for c in k]
  din = d - 1 if case['deconv'] and s == 2 else d
  x = gen.int_array((r.num(din), case['cin']), case['salt'], 1).astype(np.float64)
  cls = ocnn.nn.OctreeDeconv if case['deconv'] else ocnn.nn.OctreeConv
  m = cls(case['cin'], case['cout'], ks, s, case['nempty'], use_bias=True)
  par = conv.set_params(m, case, torch.float64)
  got = m(torch.from_numpy(x), octree, din)
  w = torch.from_numpy(par['weights'].reshape(ks + list(par['weights'].shape[1:])))
  b = torch.from_numpy(par['bias'])
  pad = [1 if v == 3 else 0 for v in ks]
  n = 1 << d
  # enlarge by one on the upper side, so that every kernel finds its (zero) neighbours
  if not case['deconv']:
    g = F.pad(to_grid(x, r, d), [v for p in reversed(pad) for v in (p, 1)])
    out = F.conv3d(g, w.permute(4, 3, 0, 1, 2), b, stride=s)
    m_out = n // s
    exp = from_grid(out[:, :, :m_out, :m_out, :m_out], r, d if s == 1 else d - 1)
  else:
    out = F.conv_transpose3d(to_grid(x, r, din), w.permute(4, 3, 0, 1, 2), b, stride=s)
    full = torch.zeros(out.shape[:2] + (n + 4,) * 3, dtype=torch.float64)
    full += b[:, None, None, None]
    sh = out.shape
    full[:, :, :sh[2], :sh[3], :sh[4]] = out
    exp = from_grid(full[:, :, pad[0]:pad[0] + n, pad[1]:pad[1] + n, pad[2]:pad[2] + n], r, d)
  cmp.equal(got, exp, '%s compared with the dense one' % cls.__name__)
  return ['nt'] if d > 1 else []


FACETS = [
    Facet('brute-force', conv.conv_case, check, 2600, 50000),
    Facet('dense', strat_dense, check_dense, 700, 8000),
]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'brute-force']
