"""C23: collating samples gives the batch of the samples, and leaves the samples alone."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, Points

from vlib import cmp, gen, oct
from vlib.core import Facet, large

PROPERTY = 'C23'
RULE = ('1..5 sample dictionaries with several octrees, point clouds, labels and other '
        'values in a generated key order, collated with and without merging of points, '
        'through CollateBatch itself, through a torch DataLoader and after the full '
        'Transform; non-trivial: at least two samples with different cells')
ASSUMPTIONS = ['at most one key of a batch holds a label (as in all projects)']

KEYS = ['octree', 'octree_gt', 'octree_in', 'points', 'points_gt', 'points_in', 'label',
        'filename', 'inbox_mask', 'idx', 'uid', 'meta']


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 5, 1, 2, max_batch=5, bulk=80, max_shapes=2))
  case['keys'] = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=8, unique=True))
  case['merge'] = draw(st.booleans())
  case['nsalt'], case['fsalt'] = draw(gen.SALT), draw(gen.SALT)
  case['has_n'], case['has_f'] = draw(st.booleans()), draw(st.booleans())
  case['lab'] = draw(st.lists(st.integers(-1, 100), min_size=5, max_size=5))
  case['flab'] = draw(st.booleans())
  case['order'] = draw(st.booleans())    # the later samples have another key order
  case['loader'] = draw(st.booleans())
  if gen.LARGE and draw(st.integers(0, 3)) == 0:      # batches of more than 256 samples
    small = [[{'k': 'pts', 'p': [[1 + i, 2, 3]]}] for i in range(3)]
    case['samples'] = [small[i % 3] for i in range(260 + draw(st.integers(0, 90)))]
    case['depth'], case['full'] = max(case['depth'], 2), 1
    case['keys'] = case['keys'][:3]
  return case


def rolled(case, k):
  """The same samples, rotated by k: what the k-th octree/points key of a batch holds."""
  s = case['samples']
  n = len(s)
  return dict(case, samples=[s[(i + k) % n] for i in range(n)])


def check_octree(o, case, r, what):
  cmp.require(isinstance(o, Octree), '%s is not an Octree', what)
  oct.check_structure(o, r, what)
  oct.check_neighs(o, r, what)
  d = case['depth']
  avg = oct.leaf_average(gen.sample_arrays(case), case, r)
  # signals of the voxel averages follow the nodes
  cmp.close(o.points[d], avg['pos'], what + ' points', 1e-4, 1e-5)
  if case['has_n']:
    cmp.close(o.normals[d], oct.normalize(avg['nsum']), what + ' normals', 1e-4, 1e-4)
  if case['has_f']:
    cmp.close(o.features[d], avg['feat'], what + ' features', 1e-4, 1e-5)


def check(case):
  n = len(case['samples'])
  rolls = {k: rolled(case, i % n) for i, k in enumerate(KEYS)}
  batch = [{} for _ in range(n)]
  for key in case['keys']:
    rc = rolls[key]
    pts = gen.make_points(rc, case['has_n'], case['has_f'])
    for i in range(n):
      if 'octree' in key:
        o = Octree(case['depth'], case['full'])
        o.build_octree(pts[i])
        batch[i][key] = o
      elif 'points' in key:
        batch[i][key] = pts[i]
      elif key == 'label':
        batch[i][key] = case['lab'][i % 5] * (0.5 if case['flab'] else 1)
      elif key == 'filename':
        batch[i][key] = 'dir/file_%d.ply' % case['lab'][i % 5]
      elif key == 'inbox_mask':
        batch[i][key] = torch.from_numpy(gen.hash_ints(5 + i, case['nsalt'], i) % 2 == 0)
      elif key == 'meta':
        batch[i][key] = {'a': i, 'b': [1, 2]}
      else:
        batch[i][key] = case['lab'][i % 5]
  if case['order']:
    for i in range(1, n, 2):
      batch[i] = dict(reversed(list(batch[i].items())))
  snaps = [{k: cmp.snapshot(v) for k, v in b.items()} for b in batch]
  keep = [dict(b) for b in batch]
  col = ocnn.dataset.CollateBatch(case['merge'])
  if case['loader']:
    dl = torch.utils.data.DataLoader(batch, batch_size=n, shuffle=False, collate_fn=col)
    outs = list(dl)
    cmp.require(len(outs) == 1, 'the loader gave %d batches', len(outs))
    out = outs[0]
  else:
    out = col(batch)
  cmp.require(len(batch) == n, 'the list of samples changed its length')
  for i in range(n):
    cmp.require(set(batch[i]) == set(keep[i]), 'sample %d changed its keys', i)
    for k in keep[i]:
      cmp.require(batch[i][k] is keep[i][k], 'sample %d: %s was replaced', i, k)
      cmp.same(snaps[i][k], cmp.snapshot(batch[i][k]), 'sample %d: %s' % (i, k))
  cmp.require(set(out) == set(case['keys']), 'the batch has the keys %s, expected %s',
              sorted(out), sorted(case['keys']))
  for key in case['keys']:
    v = out[key]
    rc = rolls[key]
    w = 'batch[%s]' % key
    if 'octree' in key:
      check_octree(v, rc, gen.make_ref(rc), w)
    elif 'points' in key and case['merge']:
      cmp.require(isinstance(v, Points), '%s is not a Points', w)
      arrs = gen.sample_arrays(rc)
      npt = [a[0].shape[0] for a in arrs]
      cmp.equal(v.points, torch.cat([gen.coords_of(a[0], case['depth']) for a in arrs]), w)
      cmp.equal(v.batch_npt, npt, w + '.batch_npt')
      cmp.equal(v.batch_id.reshape(-1), np.repeat(np.arange(n), npt), w + '.batch_id')
      cmp.number(v.batch_size, n, w + '.batch_size')
      cmp.equal(v.labels, np.concatenate([a[3] for a in arrs]), w + '.labels')
      cmp.require((v.normals is not None) == case['has_n'], '%s.normals', w)
      cmp.require((v.features is not None) == case['has_f'], '%s.features', w)
      if case['has_f']:
        cmp.equal(v.features, np.concatenate([a[2] for a in arrs]), w + '.features')
    elif key == 'label':
      cmp.tensor(v, w)
      cmp.equal(v, [b['label'] for b in batch], w)
    else:
      cmp.require(isinstance(v, list) and len(v) == n, '%s is not a list of %d', w, n)
      for i in range(n):
        cmp.require(v[i] is batch[i][key] or v[i] == batch[i][key],
                    '%s[%d] is not the value of sample %d', w, i, i)
  r = gen.make_ref(case)
  tags = gen.octree_tags(case, r) + [k for k in case['keys'] if k in KEYS[:7]]
  if n > 1 and len({str(s) for s in case['samples']}) > 1:
    tags.append('nt')
  return tags


@st.composite
def strat_pipe(draw):
  case = draw(gen.octree_case(2, 5, 1, 2, max_batch=4, bulk=80, max_shapes=2))
  case['nsalt'] = draw(gen.SALT)
  case['bs'] = draw(st.integers(1, 4))
  case['scale2'] = draw(st.booleans())      # half of the points are out of the box
  return case


class RawSet(torch.utils.data.Dataset):

  def __init__(self, raw, transform):
    self.raw, self.transform = raw, transform

  def __len__(self):
    return len(self.raw)

  def __getitem__(self, i):
    p, nrm, lab = self.raw[i]
    s = {'points': p.copy(), 'normals': nrm.copy()}
    out = self.transform(s, i)
    out['label'] = lab
    return out


def check_pipe(case):
  """Raw clouds -> Transform -> CollateBatch -> the octree of the in-box points."""
  d, full = case['depth'], case['full']
  for s in case['samples']:
    s.append({'k': 'pts', 'p': [[gen.SUB << (d - 1)] * 3]})     # the centre
  raw, inb = [], []
  for i, (p, nrm, _, _) in enumerate(gen.sample_arrays(case)):
    c = p.copy()
    # some points leave the box through the faces; the last point stays
    far = (gen.hash_ints(c.shape[0], case['nsalt'], 77 + i) % 3 == 0) & case['scale2']
    far[-1] = False
    c[far] += (1 << d) * gen.SUB + 4
    # the clipping keeps what is inside of the box shrunk by 0.01 (the documented default)
    x = gen.coords_of(c, d).numpy()
    inb.append((np.abs(x) < 0.99).all(1))
    raw.append((gen.coords_of(c, d).numpy(), nrm.astype(np.float32), i * 3 - 1))
  tr = ocnn.dataset.Transform(d, full, False, [0, 0, 0], [1, 1, 1], 0.0, True, 0.0, [0, 0, 0])
  dl = torch.utils.data.DataLoader(RawSet(raw, tr), batch_size=case['bs'], shuffle=False,
                                   collate_fn=ocnn.dataset.CollateBatch(merge_points=True))
  got = 0
  for out in dl:
    ids = list(range(got, min(got + case['bs'], len(raw))))
    got += len(ids)
    cells = []
    for j, i in enumerate(ids):
      p = gen.expand(case['samples'][i], d)[inb[i]]
      c = gen.cells_of(p, d)
      cells.append(np.concatenate([np.full((c.shape[0], 1), j), c], 1))
      cmp.equal(out['inbox_mask'][j].reshape(-1), inb[i], 'inbox_mask of sample %d' % i)
    from vlib import ref
    r = ref.RefOctree.from_cells(np.concatenate(cells), d, full, len(ids))
    oct.check_structure(out['octree'], r, 'octree of the batch')
    oct.check_neighs(out['octree'], r, 'octree of the batch')
    cmp.equal(out['label'], [i * 3 - 1 for i in ids], 'label of the batch')
    cmp.equal(out['points'].batch_npt, [int(inb[i].sum()) for i in ids], 'batch_npt')
    cmp.equal(out['points'].points,
              np.concatenate([raw[i][0][inb[i]] for i in ids]), 'points of the batch')
    cmp.equal(out['points'].normals,
              np.concatenate([raw[i][1][inb[i]] for i in ids]), 'normals of the batch')
  cmp.require(got == len(raw), 'the loader lost samples')
  tags = ['bs%d' % case['bs']]
  if case['bs'] > 1 and len(raw) > 1:
    tags.append('nt')
  return tags


FACETS = [Facet('collate', strat, check, 1500, 25000),
          Facet('pipeline', strat_pipe, check_pipe, 500, 8000)]
FACETS += [large(f, 32, 500, 50000) for f in FACETS if f.name in ('collate', 'pipeline')]
