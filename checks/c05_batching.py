"""C05: merging samples into a batch loses nothing, mixes nothing and changes no input."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, Points, merge_octrees, merge_points

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C05'
RULE = ('1..6 samples (sometimes up to 40 small ones), empty samples, the same octree '
        'object several times, with or without normals/features/labels; octrees merged '
        'after being built and octrees built from merged points are both compared with the '
        'reference and with each other; non-trivial: at least 2 samples with different cells')


@st.composite
def strat(draw):
  many = draw(st.integers(0, 6)) == 0
  case = draw(gen.octree_case(1, 3 if many else 7, 0 if not many else 1, 3 if not many else 2,
                              max_batch=40 if many else 6, allow_empty=True,
                              bulk=30 if many else 200, max_shapes=2,
                              deep=0 if many else 16))
  case['has_n'], case['has_f'] = draw(st.booleans()), draw(st.booleans())
  case['has_l'] = draw(st.booleans())
  case['nsalt'], case['fsalt'] = draw(gen.SALT), draw(gen.SALT)
  case['odd'] = draw(st.booleans())
  case['dup'] = draw(st.booleans())       # one octree object used twice
  case['neigh'] = draw(st.booleans())     # the originals already have neighbours
  return case


def check(case):
  if case['dup'] and len(case['samples']) > 1:
    case = dict(case, samples=case['samples'] + [case['samples'][0]])
  d, full = case['depth'], case['full']
  ps = gen.make_points(case, case['has_n'], case['has_f'], case['has_l'])
  if case['dup'] and len(ps) > 1:
    ps[-1] = ps[0]
  snaps = [cmp.snap_points(p) for p in ps]
  octs = []
  for i, p in enumerate(ps):
    if case['dup'] and i == len(ps) - 1 and i > 0:
      octs.append(octs[0])
      continue
    o = Octree(d, full)
    o.build_octree(p)
    if case['neigh'] and full > 0:
      o.construct_all_neigh()
    octs.append(o)
  osnaps = [cmp.snap_octree(o) for o in octs]
  B = len(ps)
  r = gen.make_ref(case)

  merged = merge_octrees(octs)
  oct.check_structure(merged, r, 'merged octree')
  for i, (o, s) in enumerate(zip(octs, osnaps)):
    cmp.same(s, cmp.snap_octree(o), 'octree %d of the batch' % i)

  # per-sample node numbers
  for l in range(d + 1):
    lv = r.levels[l]
    exp = np.bincount(lv.nodes[:, 0], minlength=B)
    expn = np.bincount(lv.nodes[lv.nempty, 0], minlength=B)
    cmp.equal(merged.batch_nnum[l], exp, 'batch_nnum of layer %d' % l)
    cmp.equal(merged.batch_nnum_nempty[l], expn, 'batch_nnum_nempty of layer %d' % l)

  # every sample is recoverable
  for i, o in enumerate(octs):
    for l in range(d + 1):
      m = merged.batch_id(l) == i
      cmp.equal(merged.keys[l][m] & ((1 << 48) - 1), o.keys[l], 'keys of sample %d' % i)
      c = merged.children[l][m]
      off = int(r.levels[l].nnum_nempty and
                (r.levels[l].nodes[r.levels[l].nempty, 0] < i).sum())
      exp = torch.where(o.children[l] >= 0, o.children[l] + off, o.children[l])
      cmp.equal(c, exp, 'children of sample %d' % i)
    mn = merged.batch_id(d, True) == i
    for a, has in (('points', True), ('normals', case['has_n']), ('features', case['has_f'])):
      v = getattr(merged, a)[d]
      if not has:
        cmp.require(v is None, '%s of the merged octree appeared from nowhere', a)
      else:
        cmp.require(v is not None, '%s of the merged octree are missing', a)
        cmp.equal(v[mn], getattr(o, a)[d], '%s of sample %d' % (a, i))

  # merge_points
  mp = merge_points(ps)
  for i, (p, s) in enumerate(zip(ps, snaps)):
    cmp.same(s, cmp.snap_points(p), 'points %d of the batch' % i)
  cmp.number(mp.batch_size, B, 'batch size of the merged points')
  cmp.equal(mp.batch_npt, [p.npt for p in ps], 'batch_npt')
  cmp.equal(mp.batch_id, np.repeat(np.arange(B), [p.npt for p in ps])[:, None], 'batch_id')
  for a, has in (('points', True), ('normals', case['has_n']), ('features', case['has_f']),
                 ('labels', case['has_l'])):
    v = getattr(mp, a)
    if has:
      cmp.equal(v, torch.cat([getattr(p, a) for p in ps]), 'merged ' + a)
    else:
      cmp.require(v is None, 'merged %s appeared from nowhere', a)
  cmp.number(mp.npt, sum(p.npt for p in ps), 'number of merged points')
  mp2 = merge_points(ps, update_batch_info=False)
  cmp.require(mp2.batch_id is None and mp2.batch_npt is None and mp2.batch_size == 1,
              'merge_points(update_batch_info=False) changed the batch information')

  # building from the merged points is the same octree
  direct = Octree(d, full, B)
  direct.build_octree(mp if B > 1 else ps[0])
  oct.check_structure(direct, r, 'octree of the merged points')
  for a, has in (('points', True), ('normals', case['has_n']), ('features', case['has_f'])):
    if has:
      cmp.close(getattr(direct, a)[d], getattr(merged, a)[d],
                '%s of the octree of the merged points' % a, 1e-6, 1e-6)
  if full > 0:
    merged.construct_all_neigh()
    direct.construct_all_neigh()
    oct.check_neighs(merged, r, 'merged octree')
    oct.check_neighs(direct, r, 'octree of the merged points')
    for i, o in enumerate(octs[:3]):
      o.construct_all_neigh()
      for l in range(1, d + 1):
        m = merged.batch_id(l) == i
        off = int((r.levels[l].nodes[:, 0] < i).sum())
        exp = torch.where(o.neighs[l] >= 0, o.neighs[l] + off, -1)
        cmp.equal(merged.neighs[l][m], exp, 'neighbours of sample %d' % i)
  # a device move is a deep copy
  cp = merged.to('cpu')
  oct.check_structure(cp, r, 'octree.to(cpu)')
  tags = gen.octree_tags(case, r)
  cellsets = {tuple(map(tuple, np.unique(gen.cells_of(gen.expand(s, d), d), axis=0)))
              for s in case['samples']}
  if len(cellsets) > 1:
    tags.append('nt')
  return tags


@st.composite
def strat_grown(draw):
  depth = draw(st.integers(1, 4))
  return {'depth': depth, 'full': draw(st.integers(1, min(2, depth))),
          'r': draw(st.lists(gen.SALT, min_size=1, max_size=4)),
          'm': draw(st.integers(1, 4))}


def check_grown(case):
  """Octrees grown layer by layer (no points) can be merged as well."""
  from ocnn.octree import init_octree
  d, full = case['depth'], case['full']
  octs, per = [], []
  for salt in case['r']:
    o = init_octree(d, full)
    sp = {}
    for l in range(full, d + 1):
      s = gen.hash_ints(int(o.nnum[l]), salt, l) % case['m'] == 0
      if not s.any():
        s[0] = True
      sp[l] = s
      o.octree_split(torch.from_numpy(s).int(), l)
      if l < d:
        o.octree_grow(l + 1)
    octs.append(o)
    per.append(sp)
  snaps = [cmp.snap_octree(o) for o in octs]
  m = merge_octrees(octs)
  splits = {l: np.concatenate([p[l] for p in per]) for l in range(full, d + 1)}
  r = ref.RefOctree.from_splits(splits, d, full, len(octs))
  oct.check_structure(m, r, 'merged grown octrees')
  m.construct_all_neigh()
  oct.check_neighs(m, r, 'merged grown octrees')
  for i, (o, s) in enumerate(zip(octs, snaps)):
    cmp.same(s, cmp.snap_octree(o), 'grown octree %d' % i)
  return ['nt'] if len(octs) > 1 else []


FACETS = [
    Facet('merge', strat, check, 2500, 50000),
    Facet('merge-grown', strat_grown, check_grown, 800, 12000),
]
FACETS += [large(f, 32, 500, 50000) for f in FACETS if f.name == 'merge']
