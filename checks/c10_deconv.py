"""C10: octree deconvolution is the transpose of the convolution of the finer layer."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C10'
RULE = ('octrees x layer (including the layers below and above full_depth) x 8 kernel shapes x '
        'stride 1/2 x all/non-empty nodes x bias x dtype x memory layout x buffer sizes around '
        'the chunk boundaries; exact integer comparison with the explicit scatter and with '
        '<conv(x), y> = <x, deconv(y)>; non-trivial: a row has a neighbour besides itself and '
        'some row misses one')
ASSUMPTIONS = ['values are small integers, for which float32 arithmetic is exact']


def strat():
  return conv.conv_case(deconv=True)


def check(case):
  if case['stride'] == 2 and case['d'] + 1 > case['depth']:
    return []
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  d, k, s, ne = case['d'], case['kernel'], case['stride'], case['nempty']
  dt = conv.dtype_of(case)
  K = conv.kdim(k)
  x = conv.values(case, (r.num(d, ne), case['cin']))
  data = conv.strided(torch.from_numpy(x).to(dt), case['layout'])
  before = cmp.snap_octree(octree)
  dn = d + 1 if s == 2 else d
  rows = r.neigh(dn, k, s, ne).shape[0]
  exp = None
  for direct in (False, True):
    kw = dict(kernel_size=list(case['ksize']), stride=s, nempty=ne, use_bias=case['bias'])
    if direct:
      kw['direct_method'] = True
    else:
      kw['max_buffer'] = conv.max_buffer(case['buf'], rows, K, case['cout'])
    m = ocnn.nn.OctreeDeconv(case['cin'], case['cout'], **kw)
    cmp.shape(m.weights, (K, case['cout'], case['cin']), 'weights')
    par = conv.set_params(m, case, dt)
    conv.check_bias(m, case['bias'], case['cout'])
    if exp is None:
      exp = conv.deconv_forward(r, x, par['weights'], d, k, s, ne, par.get('bias'))
    for i in range(2):
      got = m(data, octree, d)
      w = 'OctreeDeconv(direct_method=%s)%s' % (direct, ', second call' if i else '')
      cmp.dtype(got, dt, w)
      cmp.equal(got, exp, w)
  cmp.equal(data, x, 'the input data after the deconvolution')
  cmp.same(before, cmp.snap_octree(octree), 'the octree')
  # adjoint of the convolution with the same weights
  c = ocnn.nn.OctreeConv(case['cout'], case['cin'], list(case['ksize']), s, ne).to(dt)
  m = ocnn.nn.OctreeDeconv(case['cin'], case['cout'], list(case['ksize']), s, ne).to(dt)
  with torch.no_grad():
    c.weights.copy_(torch.from_numpy(par['weights']))
    m.weights.copy_(torch.from_numpy(par['weights']))
  y = gen.int_data((r.num(dn, ne), case['cout']), case['salt'], 2, dtype=dt)
  with torch.no_grad():
    a = (cmp.tensor(c(y, octree, dn)).double() * data.double()).sum().item()
    b = (cmp.tensor(m(data, octree, d)).double() * y.double()).sum().item()
  cmp.require(a == b, '<conv(y), x> = %r but <y, deconv(x)> = %r', a, b)
  tags = ['k%s-s%d-%s' % (k, s, 'nempty' if ne else 'all'), 'buf%d' % case['buf']]
  if conv.touching(r, dn, k, s, ne):
    tags.append('nt')
  return tags


FACETS = [Facet('brute-force', strat, check, 3000, 50000)]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'brute-force']
