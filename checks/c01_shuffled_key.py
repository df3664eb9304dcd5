"""C01: the shuffled key is an exact, order-preserving, hierarchical encoding."""
import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.octree import key2xyz, xyz2key

from vlib import cmp, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C01'
RULE = ('coordinates below 2^depth (boundary-biased lists and hashed arrays up to 4000 '
        'points), depth 1..16, batch index absent / int / tensor up to 32767, integer and '
        'fractional float coordinates; non-trivial: at least 2 different coordinates and '
        'depth >= 2, or a batch index > 0')
ASSUMPTIONS = ['CPU tensors; coordinates inside [0, 2^depth) and batch index < 32768, as documented']

DT = {'int64': torch.int64, 'int32': torch.int32, 'float32': torch.float32,
      'float64': torch.float64}


@st.composite
def coords(draw, depth):
  s = 1 << depth
  one = st.one_of(st.integers(0, s - 1), st.sampled_from(
      sorted({0, 1, s - 1, s // 2, max(s // 2 - 1, 0), min(255, s - 1), min(256, s - 1)})))
  return draw(st.lists(st.tuples(one, one, one).map(list), min_size=1, max_size=16))


@st.composite
def strat(draw):
  depth = draw(st.integers(1, 16))
  case = {'depth': depth, 'dt': draw(st.sampled_from(sorted(DT)))}
  if draw(st.booleans()):
    case['xyz'] = draw(coords(depth))
  else:
    case['n'], case['r'] = draw(gen.many(1, 4000)), draw(gen.SALT)
  case['b'] = draw(st.sampled_from(['none', 'int', 'tensor', 'tensor']))
  if case['b'] == 'int':
    case['bv'] = draw(st.one_of(st.integers(0, 7), st.integers(0, 32767)))
  elif case['b'] == 'tensor':
    case['bmax'] = draw(st.one_of(st.integers(0, 7), st.integers(0, 32767)))
    case['br'] = draw(gen.SALT)
  # a default depth of 16 must give the same codes when omitted
  case['omit'] = depth == 16 and draw(st.booleans())
  return case


def build(case):
  d = case['depth']
  if 'xyz' in case:
    xyz = np.array(case['xyz'], dtype=np.int64)
  else:
    xyz = gen.hash_ints(case['n'] * 3, case['r']).reshape(-1, 3) % (1 << d)
  n = xyz.shape[0]
  if case['b'] == 'none':
    b, bn = None, np.zeros(n, dtype=np.int64)
  elif case['b'] == 'int':
    b, bn = case['bv'], np.full(n, case['bv'], dtype=np.int64)
  else:
    bn = gen.hash_ints(n, case['br']) % (case['bmax'] + 1)
    b = torch.from_numpy(bn)
  return xyz, b, bn


def check_encode(case):
  d = case['depth']
  xyz, b, bn = build(case)
  dt = DT[case['dt']]
  t = torch.from_numpy(xyz).to(dt)
  if dt.is_floating_point:   # positions inside of the cell
    t = t + torch.from_numpy(gen.hash_ints(t.numel(), 5).reshape(t.shape) % 8 / 8.0).to(dt)
  if isinstance(b, torch.Tensor) and dt.is_floating_point:
    b = b.to(dt)      # batch indices are float next to float coordinates, (N, 4) queries
  cols = [t[:, i].contiguous() for i in range(3)]
  before = [c.clone() for c in cols]
  args = (cols[0], cols[1], cols[2]) + (() if b is None else (b,))
  kw = {} if case['omit'] else {'depth': d}
  key = xyz2key(*args, **kw)
  cmp.dtype(key, torch.int64, 'key')
  exp = ref.full_keys(bn, xyz[:, 0], xyz[:, 1], xyz[:, 2], d)
  cmp.equal(key, exp, 'key of (x, y, z, b)')
  for c0, c1 in zip(before, cols):
    cmp.equal(c1, c0, 'input coordinates after the call')

  # decode: the inverse
  out = key2xyz(key, **kw)
  cmp.require(isinstance(out, tuple) and len(out) == 4, 'key2xyz returns 4 tensors')
  for got, e, name in zip(out, [xyz[:, 0], xyz[:, 1], xyz[:, 2], bn], 'xyzb'):
    cmp.equal(got, e, 'decoded ' + name)

  # hierarchy: dropping 3 bits gives the key of the parent cell
  if d > 1:
    pk = xyz2key(*[torch.from_numpy(xyz[:, i] >> 1) for i in range(3)], depth=d - 1)
    low = key & ((1 << 48) - 1)
    cmp.equal(low >> 3, pk, 'key of the parent')
  tags = ['depth%d' % d, 'b-' + case['b'], case['dt']]
  if (d >= 2 and len(np.unique(xyz, axis=0)) > 1) or bn.max() > 0:
    tags.append('nt')
  if d > 8:
    tags.append('deep')
  return tags


@st.composite
def key_strat(draw):
  depth = draw(st.integers(1, 16))
  m = (1 << (3 * depth)) - 1
  n = draw(st.integers(1, 20))
  keys = draw(st.lists(st.integers(0, m), min_size=n, max_size=n))
  bs = draw(st.lists(st.integers(0, 32767), min_size=n, max_size=n))
  return {'depth': depth, 'keys': keys, 'b': bs}


def check_decode(case):
  d = case['depth']
  k = np.array(case['keys'], dtype=np.int64)
  b = np.array(case['b'], dtype=np.int64)
  key = torch.from_numpy(k | (b << 48))
  before = key.clone()
  out = key2xyz(key, d)
  cmp.equal(key, before, 'input key after the call')
  for got, e, name in zip(out, list(ref.demorton(k, d)) + [b], 'xyzb'):
    cmp.equal(got, e, 'decoded ' + name)
  back = xyz2key(*out, depth=d)
  cmp.equal(back, key, 'encoding the decoded coordinates')
  return ['depth%d' % d] + (['nt'] if d >= 2 and len(set(case['keys'])) > 1 else [])


@st.composite
def all_strat(draw):
  return {'depth': draw(st.integers(1, 5)), 'b': draw(st.integers(0, 32767))}


def check_all(case):
  """Every cell of a full grid: the keys are exactly 0..8^d-1, each once."""
  d = case['depth']
  s = 1 << d
  g = np.stack(np.meshgrid(*[np.arange(s)] * 3, indexing='ij'), -1).reshape(-1, 3)
  t = torch.from_numpy(g)
  b = torch.full((g.shape[0],), case['b'], dtype=torch.int64)
  key = xyz2key(t[:, 0], t[:, 1], t[:, 2], b, d)
  srt = torch.sort(cmp.tensor(key)).values - (case['b'] << 48)
  cmp.equal(srt, np.arange(s ** 3), 'sorted keys of the whole grid')
  x, y, z, bb = key2xyz(key, d)
  cmp.equal(torch.stack([x, y, z], 1), t, 'round trip of the whole grid')
  cmp.equal(bb, b, 'round trip of the batch index')
  return ['depth%d' % d, 'nt']


FACETS = [
    Facet('encode', strat, check_encode, 16000, 400000, examples=[
        {'depth': 4, 'dt': 'int64', 'xyz': [[1, 2, 3]], 'b': 'int', 'bv': 3, 'omit': False},
        {'depth': 16, 'dt': 'float32', 'xyz': [[65535, 0, 65535], [256, 255, 1]],
         'b': 'none', 'omit': True},
    ]),
    Facet('decode', key_strat, check_decode, 6000, 150000),
    Facet('whole-grid', all_strat, check_all, 400, 4000),
]
FACETS += [large(f, 64, 1200) for f in FACETS if f.name in ('encode', 'decode')]
