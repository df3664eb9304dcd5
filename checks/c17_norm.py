"""C17: group and instance normalisation use the statistics of each sample and group only."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, gen
from vlib.core import Facet, large

PROPERTY = 'C17'
RULE = ('octrees of 1..4 samples (some empty) x layer x all/non-empty nodes x 1..4 groups of 1..4 '
        'channels (or instance norm) x non-trivial affine weights; values compared with the '
        'normalisation computed per sample and group in float64, each sample additionally '
        'compared with its own octree normalised alone; non-trivial: two non-empty samples '
        'with different numbers of nodes or two groups')
ASSUMPTIONS = ['tolerance covers the 1e-5 regularisation of counts']


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 5, 0, 3, max_batch=4, allow_empty=True, bulk=80, max_shapes=2,
                              deep=16))
  case['d'] = draw(st.integers(0, case['depth']))
  case['nempty'] = draw(st.booleans())
  case['group'], case['cpg'] = draw(st.integers(1, 4)), draw(st.integers(1, 4))
  case['inst'] = draw(st.booleans())
  case['double'] = draw(st.booleans())
  case['salt'] = draw(gen.SALT)
  case['const'] = draw(st.integers(0, 5)) == 0
  case['scale'] = draw(st.sampled_from([1.0, 1.0, 0.01, 30.0]))
  return case


def check(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne, g = case['d'], case['nempty'], case['group']
  cpg = 1 if case['inst'] else case['cpg']
  C = g * cpg
  dt = torch.float64 if case['double'] else torch.float32
  b = r.batch_id(d, ne)
  n = b.shape[0]
  x = gen.int_array((n, C), case['salt'], 1, -6, 6) * case['scale'] + (b * 3)[:, None]
  if case['const']:
    x[:, :cpg] = 2.0 + b[:, None]
  data = torch.from_numpy(x).to(dt)
  x = data.double().numpy()
  m = ocnn.nn.OctreeInstanceNorm(C, ne) if case['inst'] else \
      ocnn.nn.OctreeGroupNorm(C, g, ne)
  cmp.equal(m.weights, np.ones((1, C)), 'initial scale')
  cmp.equal(m.bias, np.zeros((1, C)), 'initial bias')
  m = m.to(dt)
  w, bias = gen.int_array((1, C), case['salt'], 2, 1, 4), gen.int_array((1, C), case['salt'], 3)
  with torch.no_grad():
    m.weights.copy_(torch.from_numpy(w))
    m.bias.copy_(torch.from_numpy(bias))
  before = cmp.snap_octree(octree)
  exp, tol = np.zeros((n, C)), np.zeros((n, C))
  for s in range(r.batch):
    rows = b == s
    if not rows.any():
      continue
    for k in range(g):
      cs = slice(k * cpg, (k + 1) * cpg)
      v = x[rows, cs]
      mu, var = v.mean(), v.var()
      std = np.sqrt(var + 1e-5)
      exp[rows, cs] = (v - mu) / std * w[:, cs] + bias[:, cs]
      tol[rows, cs] = (4e-5 * (abs(mu) + np.abs(v).max() + 1) / std + 2e-4) * 4
  tol += 1e-4
  for i in range(2):
    m.train() if i == 0 else m.eval()
    got = m(data, octree, d)
    cmp.dtype(got, dt, 'normalised features')
    cmp.close(cmp.arr(got) / tol, exp / tol, 'normalised features', 1.0, 0)
  cmp.equal(data, x, 'input of the normalisation')
  cmp.same(before, cmp.snap_octree(octree), 'the octree')
  cnt = np.bincount(b, minlength=r.batch)
  t = ['instance' if case['inst'] else 'group%d' % g]
  if np.unique(cnt[cnt > 0]).size > 1 or g > 1 and n > 1:
    t.append('nt')
  # a sample alone gives the same values
  s = int(gen.hash_ints(1, case['salt'], 9)[0] % r.batch)
  if (b == s).any() and case['samples'][s]:
    one = dict(case, samples=[case['samples'][s]])
    o1 = gen.make_octree(one, False, False, neigh=False)
    rows = torch.from_numpy(b == s)
    alone = m(data[rows], o1, d)
    tt = tol[b == s]
    cmp.close(cmp.arr(alone) / tt, cmp.arr(got)[b == s] / tt, 'a sample normalised alone', 1.0,
              0)
  return t


FACETS = [Facet('statistics', strat, check, 4000, 70000)]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'statistics']
