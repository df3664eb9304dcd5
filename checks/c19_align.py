"""C19: searching by key and aligning octrees transfer values to the same nodes only."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, gen
from vlib.core import Facet, large

PROPERTY = 'C19'
RULE = ('search_value: sorted key sets (dense, sparse, with the extreme keys of a batch) and '
        'queries drawn from keys, their neighbours, values below the first and above the last '
        'key, in any order and with repetitions, for float/int dtypes; octree_align: pairs of '
        'octrees with overlapping geometry, every layer, compared by explicit lookup; '
        'non-trivial: some query is found and some is not')
ASSUMPTIONS = ['the key set is not empty']


@st.composite
def strat_search(draw):
  return {'n': draw(gen.many(1, 60)), 'range': draw(st.sampled_from([3, 8, 60, 1000, 1 << 40])),
          'base': draw(st.sampled_from([0, 0, 1, 1 << 48, (3 << 48) - 5])),
          'q': draw(gen.many(0, 60)), 'salt': draw(gen.SALT), 'c': draw(st.integers(1, 3)),
          'dtype': draw(st.sampled_from(['float32', 'float64', 'int64', 'int32', 'float16']))}


def check_search(case):
  k = np.unique(gen.hash_ints(case['n'], case['salt'], 1) * 7919 % case['range']) + case['base']
  n = k.shape[0]
  h = gen.hash_ints(case['q'] * 2, case['salt'], 2).reshape(-1, 2)
  q = k[h[:, 0] % n] + (h[:, 1] % 7 - 3) * (h[:, 1] // 7 % 2)
  q = np.where(h[:, 1] % 11 == 0, k[-1] + 1 + h[:, 0] % 3, q)
  q = np.where(h[:, 1] % 13 == 0, k[0] - 1 - h[:, 0] % 3, q)
  # the same key of another sample, and keys that differ in the upper bits only
  far = np.array([1 << 48, 1 << 32, 1 << 31, 1 << 16, -(1 << 48), -(1 << 32)])
  q = np.where(h[:, 0] % 5 == 0, np.maximum(q + far[h[:, 1] // 17 % 6], 0), q)
  dt = getattr(torch, case['dtype'])
  v = gen.fine(gen.int_array((n, case['c']), case['salt'], 3, 1, 50), dt)
  value = torch.from_numpy(v).to(dt)
  key, query = torch.from_numpy(k), torch.from_numpy(q)
  got = ocnn.nn.search_value(value, key, query)
  table = {int(a): b for a, b in zip(k, v)}
  exp = np.array([table.get(int(a), np.zeros(case['c'], v.dtype)) for a in q]).reshape(-1, case['c'])
  cmp.dtype(got, value.dtype, 'search_value')
  cmp.equal(got, exp, 'search_value')
  cmp.equal(query, q, 'the query keys')
  cmp.equal(key, k, 'the keys')
  cmp.equal(value, v, 'the values')
  found = np.isin(q, k)
  return ['nt'] if found.any() and not found.all() else []


@st.composite
def strat_align(draw):
  case = draw(gen.octree_case(1, 5, 0, 3, max_batch=3, bulk=100, max_shapes=2, deep=16))
  other = [draw(gen.cloud(case['depth'], bulk=60, max_shapes=2)) for _ in case['samples']]
  n = draw(st.sampled_from([0, 0, 0, 1, 2]))     # samples without a counterpart
  more = [draw(gen.cloud(case['depth'], bulk=20, max_shapes=1)) for _ in range(n)]
  # the second octree shares a part of the geometry
  case['other'] = [[s for i, s in enumerate(a) if draw(st.booleans())] + b
                   for a, b in zip(case['samples'], other)] + more
  case['full2'] = draw(st.integers(0, min(case['depth'], 3)))
  case['d'] = draw(st.integers(0, case['depth']))
  case['nempty'] = draw(st.booleans())
  case['c'], case['salt'] = draw(st.integers(1, 3)), draw(gen.SALT)
  case['swap'] = draw(st.booleans())
  return case


def check_align(case):
  c1 = case
  c2 = dict(case, samples=case['other'], full=case['full2'])
  for s in c2['samples']:
    if gen.expand(s, case['depth']).shape[0] == 0:
      s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  if case['swap']:
    c1, c2 = c2, c1
  o1, o2 = (gen.make_octree(c, False, False, neigh=False) for c in (c1, c2))
  r1, r2 = gen.make_ref(c1), gen.make_ref(c2)
  d, ne = case['d'], case['nempty']
  dt = torch.float32
  v = gen.fine(gen.int_array((r1.num(d, ne), case['c']), case['salt'], 1, 1, 99), dt)
  value = torch.from_numpy(v).to(dt)
  b1, b2 = cmp.snap_octree(o1), cmp.snap_octree(o2)
  got = ocnn.nn.octree_align(value, o1, o2, d, ne)
  idx = r1.levels[d].index(r2.rows(d, ne), ne)
  exp = np.where(idx[:, None] >= 0, v[np.maximum(idx, 0)], 0)
  cmp.equal(got, exp, 'octree_align')
  cmp.equal(value, v, 'the values')
  cmp.same(b1, cmp.snap_octree(o1), 'the first octree')
  cmp.same(b2, cmp.snap_octree(o2), 'the second octree')
  # aligning with itself changes nothing
  cmp.equal(ocnn.nn.octree_align(value, o1, o1, d, ne), v, 'octree_align with itself')
  t = ['nempty' if ne else 'all']
  if (idx >= 0).any() and (idx < 0).any():
    t.append('nt')
  return t


FACETS = [
    Facet('search', strat_search, check_search, 3000, 60000, examples=[
        {'n': 5, 'range': 60, 'base': 0, 'q': 9, 'salt': 1, 'c': 2, 'dtype': 'int64'}]),
    Facet('align', strat_align, check_align, 2000, 40000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('search', 'align')]
