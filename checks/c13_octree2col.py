"""C13: octree2col gathers the neighbours' features, col2octree is its transpose."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C13'
RULE = ('octrees x layer x kernel x stride x all/non-empty nodes x 1..4 channels x dtype x '
        'memory layout, integer data; compared exactly with the gathered/scattered reference, '
        'plus <octree2col(x), y> = <x, col2octree(y)> and the diagonal of col2octree(octree2col);'
        ' non-trivial: some row has a neighbour besides itself and some row misses one')
ASSUMPTIONS = ['values are small integers, for which float32 arithmetic is exact']


def check(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  d, k, s, ne, c = (case[v] for v in ('d', 'kernel', 'stride', 'nempty', 'cin'))
  dt = conv.dtype_of(case)
  nb = r.neigh(d, k, s, ne)
  x = conv.values(case, (r.num(d, ne), c))
  data = conv.strided(torch.from_numpy(x).to(dt), case['layout'])
  before = cmp.snap_octree(octree)
  col = ocnn.nn.octree2col(data, octree, d, k, s, ne)
  cmp.dtype(col, dt, 'octree2col')
  cmp.equal(col, ref.gather(x, nb), 'octree2col')
  y = gen.int_array(nb.shape + (c,), case['salt'], 2).astype(np.float64)
  exp = np.zeros_like(x)
  m = nb >= 0
  np.add.at(exp, nb[m], y[m])
  back = ocnn.nn.col2octree(torch.from_numpy(y).to(dt), octree, d, k, s, ne)
  cmp.dtype(back, dt, 'col2octree')
  cmp.equal(back, exp, 'col2octree')
  a, b = (col.double().numpy() * y).sum(), (back.double().numpy() * x).sum()
  cmp.require(a == b, '<octree2col(x), y> = %r but <x, col2octree(y)> = %r', a, b)
  cnt = np.bincount(nb[m], minlength=x.shape[0])[:, None] if m.any() else np.zeros((x.shape[0], 1))
  cmp.equal(ocnn.nn.col2octree(col, octree, d, k, s, ne), x * cnt, 'col2octree(octree2col)')
  cmp.equal(data, x, 'input of octree2col')
  cmp.same(before, cmp.snap_octree(octree), 'the octree')
  t = ['k%s-s%d-%s' % (k, s, 'nempty' if ne else 'all')]
  if conv.touching(r, d, k, s, ne):
    t.append('nt')
  return t


FACETS = [Facet('gather-scatter', conv.conv_case, check, 3000, 50000)]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'gather-scatter']
