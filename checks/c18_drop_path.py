"""C18: dropping of paths decides once per sample, rescales, and is off in evaluation."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, gen
from vlib.core import Facet, large

PROPERTY = 'C18'
RULE = ('octrees of 1..6 samples x layer x all/non-empty nodes x probability 0..1 x scaling x '
        'training/evaluation x explicit/implicit batch index x seed; every sample must be '
        'either all zero or all data/keep_prob, and over 400 draws the keep frequency must '
        'match within 6 sigma; non-trivial: two samples and a probability strictly in (0, 1)')


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 4, 1, 2, max_batch=6, allow_empty=True, bulk=40, max_shapes=1))
  case['d'] = draw(st.integers(0, case['depth']))
  case['nempty'] = draw(st.booleans())
  case['p'] = draw(st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0]))
  case['scale'] = draw(st.booleans())
  case['train'] = draw(st.integers(0, 3)) != 0
  # no batch indices, those of the octree, or those of other rows (any number, any order)
  case['explicit'] = draw(st.sampled_from(['', 'own', 'other', 'other']))
  case['rows'] = draw(st.one_of(st.none(), gen.many(0, 40)))
  case['seed'] = draw(st.integers(0, 10 ** 6))
  case['salt'] = draw(gen.SALT)
  case['c'] = draw(st.integers(1, 3))
  return case


def kept(out, x, b, batch, keep, scale):
  """Which samples were kept; Mismatch if a sample is neither kept nor dropped."""
  res = np.full(batch, -1)
  for s in range(batch):
    rows = b == s
    if not rows.any():
      continue
    o, e = out[rows], x[rows] / keep if scale and keep > 0 else x[rows]
    if (o == 0).all():
      res[s] = 0
    elif np.allclose(o, e, rtol=1e-5, atol=1e-6):
      res[s] = 1
    else:
      cmp.fail('sample %d is neither dropped nor kept', s)
  return res


def check(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne, p = case['d'], case['nempty'], case['p']
  b = r.batch_id(d, ne)
  if case['explicit'] == 'other':
    n = b.shape[0] if case['rows'] is None else case['rows']
    b = gen.hash_ints(n, case['salt'], 5) % r.batch
  x = gen.int_array((b.shape[0], case['c']), case['salt'], 1, 1, 9).astype(np.float64)
  data = torch.from_numpy(x).float()
  m = ocnn.nn.OctreeDropPath(p, ne, case['scale'])
  m.train(case['train'])
  args = (torch.from_numpy(b),) if case['explicit'] else ()
  torch.manual_seed(case['seed'])
  out = cmp.arr(m(data, octree, d, *args))
  cmp.shape(out, x.shape, 'drop path')
  cmp.equal(data, x, 'input of drop path')
  if not case['train'] or p == 0.0:
    cmp.equal(out, x, 'drop path when inactive')
    return ['inactive']
  keep = 1 - p
  k = kept(out, x, b, r.batch, keep, case['scale'])
  if p == 1.0:
    cmp.require((k <= 0).all(), 'a path was kept with probability 1 of dropping')
  # the frequency, and the independence of the samples
  tot, n, both, nb = 0, 0, 0, 0
  for i in range(400 if case['seed'] % 8 == 0 else 12):
    k = kept(cmp.arr(m(data, octree, d, *args)), x, b, r.batch, keep, case['scale'])
    k = k[k >= 0]
    tot, n = tot + k.sum(), n + k.size
    if k.size >= 2:
      both, nb = both + int(k[0] == k[1]), nb + 1
  if n:
    sd = np.sqrt(n * p * (1 - p))
    cmp.require(abs(tot - n * keep) <= 6 * sd + 1e-9, '%d of %d paths kept with keep '
                'probability %g', tot, n, keep)
  if nb >= 400:
    q = keep ** 2 + p ** 2
    cmp.require(abs(both - nb * q) <= 6 * np.sqrt(nb * q * (1 - q)) + 1e-9,
                'samples 0 and 1 agree in %d of %d draws with keep probability %g', both, nb,
                keep)
  t = ['p%g' % p]
  if r.batch > 1 and 0 < p < 1:
    t.append('nt')
  return t


FACETS = [Facet('per-sample', strat, check, 2500, 40000)]
FACETS += [large(f, 48, 800) for f in FACETS if f.name == 'per-sample']
