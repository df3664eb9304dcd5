"""C12: depth-wise and group convolutions are the correspondingly restricted convolutions."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen
from vlib.core import Facet, large

PROPERTY = 'C12'
RULE = ('as C09, with 1..4 groups of 1..4 channels; depth-wise weights are the diagonal, group '
        'weights the diagonal blocks of a plain convolution, compared exactly with the brute '
        'force and with OctreeConv; non-trivial: at least two channels (groups) and a row with '
        'a neighbour besides itself')
ASSUMPTIONS = ['values are small integers, for which float32 arithmetic is exact']


@st.composite
def strat(draw):
  case = draw(conv.conv_case())
  case['group'] = draw(st.integers(1, 4))
  return case


def check_dw(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  d, k, s, ne, c = (case[v] for v in ('d', 'kernel', 'stride', 'nempty', 'cin'))
  dt = conv.dtype_of(case)
  K = conv.kdim(k)
  rows = r.neigh(d, k, s, ne).shape[0]
  x = conv.values(case, (r.num(d, ne), c))
  data = conv.strided(torch.from_numpy(x).to(dt), case['layout'])
  m = ocnn.nn.OctreeDWConv(c, list(case['ksize']), s, ne, case['bias'],
                           conv.max_buffer(case['buf'], rows, K, c))
  cmp.shape(m.weights, (K, 1, c), 'weights of OctreeDWConv')
  par = conv.set_params(m, case, dt)
  conv.check_bias(m, case['bias'], c)
  w = par['weights'][:, 0, :, None] * np.eye(c)
  exp = conv.conv_forward(r, x, w, d, k, s, ne, par.get('bias'))
  got = m(data, octree, d)
  cmp.dtype(got, dt, 'output of OctreeDWConv')
  cmp.equal(got, exp, 'OctreeDWConv')
  cmp.equal(m(data, octree, d), exp, 'OctreeDWConv, second call')
  cmp.equal(data, x, 'input of OctreeDWConv')
  full = ocnn.nn.OctreeConv(c, c, list(case['ksize']), s, ne, use_bias=case['bias']).to(dt)
  with torch.no_grad():
    full.weights.copy_(torch.from_numpy(w))
    if case['bias']:
      full.bias.copy_(torch.from_numpy(par['bias']))
  cmp.equal(got, full(data, octree, d), 'OctreeDWConv compared with OctreeConv')
  t = ['k%s-s%d-%s' % (k, s, 'nempty' if ne else 'all')]
  if conv.touching(r, d, k, s, ne) and c > 1:
    t.append('nt')
  return t


def check_group(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  d, k, s, ne, g = (case[v] for v in ('d', 'kernel', 'stride', 'nempty', 'group'))
  dt = conv.dtype_of(case)
  cin, cout = case['cin'] * g, case['cout'] * g
  x = conv.values(case, (r.num(d, ne), cin))
  data = conv.strided(torch.from_numpy(x).to(dt), case['layout'])
  m = ocnn.nn.OctreeGroupConv(cin, cout, list(case['ksize']), s, ne, case['bias'], g)
  cmp.require(len(m.convs) == g, 'OctreeGroupConv has %d convolutions', len(m.convs))
  par = conv.set_params(m, case, dt)
  conv.check_bias(m, case['bias'], cout)
  got = m(data, octree, d)
  cmp.dtype(got, dt, 'output of OctreeGroupConv')
  a, b = case['cin'], case['cout']
  for i in range(g):
    e = conv.conv_forward(r, x[:, i * a:(i + 1) * a], par['convs.%d.weights' % i], d, k, s, ne,
                          par.get('convs.%d.bias' % i))
    cmp.equal(got[:, i * b:(i + 1) * b], e, 'group %d of OctreeGroupConv' % i)
  cmp.shape(got, (e.shape[0], cout), 'output of OctreeGroupConv')
  cmp.equal(data, x, 'input of OctreeGroupConv')
  t = ['group%d' % g]
  if conv.touching(r, d, k, s, ne) and g > 1:
    t.append('nt')
  return t


FACETS = [
    Facet('depth-wise', strat, check_dw, 1800, 30000),
    Facet('group', strat, check_group, 1500, 25000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('depth-wise', 'group')]
