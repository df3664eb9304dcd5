"""C07: searching a node by coordinates or key finds exactly that node or nothing."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C07'
RULE = ('octrees of depth 1..10 in batches of 1..4; queries mix existing nodes, their '
        'neighbours, cells of other samples (also samples that do not exist), random cells '
        'and cells after the last node, as integers or as fractional float positions, searched among all or only non-empty '
        'nodes; non-trivial: the queries contain both found and missing cells')


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 10, 0, 3, max_batch=4, allow_empty=True, bulk=150, deep=16,
                              max_shapes=2))
  case['d'] = draw(st.integers(0, case['depth']))
  case['nempty'] = draw(st.booleans())
  case['float'] = draw(st.booleans())
  case['nq'], case['qr'] = draw(gen.many(0, 60)), draw(gen.SALT)
  case['steps'] = draw(st.integers(1, 3))
  return case


def queries(case, r):
  d, s = case['d'], 1 << case['d']
  lv = r.levels[d]
  h = gen.hash_ints(max(case['nq'], 1) * 8, case['qr']).reshape(-1, 8)
  rnd = np.stack([h[:, 0] % len(case['samples'])] + [h[:, i] % s for i in (1, 2, 3)], 1)
  parts = [rnd[:case['nq']]]
  if lv.nnum:
    base = lv.nodes[h[:, 4] % lv.nnum]
    parts.append(base)
    step = np.stack([np.zeros(len(h), dtype=np.int64)] +
                    [h[:, i] % (2 * case['steps'] + 1) - case['steps'] for i in (5, 6, 7)], 1)
    q = base + step
    parts.append(q[((q[:, 1:] >= 0) & (q[:, 1:] < s)).all(1)])
    o = base.copy()
    o[:, 0] = (o[:, 0] + 1) % len(case['samples'])
    parts.append(o)
    o = base[:3].copy()                     # a sample the octree has not
    o[:, 0] = len(case['samples']) + h[:3, 0] % 3
    parts.append(o)
    # the first and last nodes, and the last cell of the volume
    parts.append(lv.nodes[[0, -1]])
    parts.append(np.array([[len(case['samples']) - 1, s - 1, s - 1, s - 1], [0, 0, 0, 0]]))
  q = np.concatenate(parts, 0).astype(np.int64)
  return q


def check(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, ne = case['d'], case['nempty']
  lv = r.levels[d]
  q = queries(case, r)
  exp = lv.index(q, ne)
  key = torch.from_numpy(ref.full_keys(q[:, 0], q[:, 1], q[:, 2], q[:, 3], d))
  k0 = key.clone()
  cmp.equal(octree.search_key(key, d, ne), exp, 'search_key(depth %d, nempty=%s)' % (d, ne))
  cmp.equal(key, k0, 'query keys after the search')
  xyzb = torch.from_numpy(np.stack([q[:, 1], q[:, 2], q[:, 3], q[:, 0]], 1))
  if case['float']:
    xyzb = xyzb.double() if d > 12 else xyzb.float()
    n = xyzb.shape[0]
    xyzb[:, :3] += torch.from_numpy(gen.hash_ints(n * 3, case['qr'], 9).reshape(n, 3) % 8 / 8.0)
  x0 = xyzb.clone()
  got = octree.search_xyzb(xyzb, d, ne)
  cmp.equal(got, exp, 'search_xyzb(depth %d, nempty=%s)' % (d, ne))
  cmp.equal(xyzb, x0, 'query coordinates after the search')
  # searching every node finds itself
  own = octree.search_key(octree.key(d, ne), d, ne)
  cmp.equal(own, np.arange(r.num(d, ne)), 'searching the keys of the layer itself')
  tags = ['depth%d' % d, 'nempty' if ne else 'all', 'float' if case['float'] else 'int']
  if (exp >= 0).any() and (exp < 0).any():
    tags.append('nt')
  return tags


FACETS = [Facet('search', strat, check, 6000, 120000)]
FACETS += [large(f, 64, 1200) for f in FACETS if f.name == 'search']
