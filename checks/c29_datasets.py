"""C29: the data readers and data sets of the projects deliver what is in the files."""
import os
import shutil
import sys
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import boot, cmp, gen, oct, ref
from vlib.core import Facet

PROPERTY = 'C29'
RULE = ('files written by an independent writer (npz, bin/label, png) or by the repository '
        '(ply, binary and text) with hashed contents, read back through every reader; the seven '
        'project data sets (ModelNet40, ShapeNet segmentation, ScanNet, SemanticKITTI, '
        'auto-encoder, completion, image2shape) read several times, in memory or from disk, in '
        'generated order, through collation; the augmentation of ScanNet scenes judged by its '
        'displacements and colours; non-trivial: at least two files')
ASSUMPTIONS = ['ScanNet colours are not constant in any channel (contrast enhancement divides '
               'by the range)', 'the random draws of the augmentation are judged by wide '
               'bounds on their statistics over twelve scenes each']

KITTI = {   # raw SemanticKITTI label -> trained class (the 19 classes of the benchmark)
    40: 1, 48: 2, 44: 3, 49: 4, 50: 5, 10: 6, 18: 7, 11: 8, 15: 9, 20: 10, 70: 11, 71: 12,
    72: 13, 30: 14, 31: 15, 32: 16, 51: 17, 80: 18, 81: 19, 252: 6, 253: 15, 254: 14, 255: 16,
    258: 7, 259: 10}
RAW = [0, 1, 10, 11, 13, 15, 16, 18, 20, 30, 31, 32, 40, 44, 48, 49, 50, 51, 52, 60, 70, 71, 72,
       80, 81, 99, 252, 253, 254, 255, 256, 257, 258, 259]


class Flags(dict):
  """Attribute access and ** expansion, like the configuration nodes of the solver."""

  def __getattr__(self, k):
    try:
      return self[k]
    except KeyError:
      raise AttributeError(k)


class Scratch:

  def __enter__(self):
    self.dir = tempfile.mkdtemp(prefix='verif-c29-')
    return self.dir

  def __exit__(self, *a):
    shutil.rmtree(self.dir, ignore_errors=True)


def cloud(n, salt, spread=1.0):
  """n points in general position (all different), normals and colours."""
  p = gen.real_data((n, 3), salt, 1).numpy() * spread
  nrm = gen.int_array((n, 3), salt, 2, -3, 3).astype(np.float32)
  col = (gen.hash_ints(n * 3, salt, 3) % 256).reshape(n, 3)
  col[0], col[-1] = 0, 255
  lab = gen.hash_ints(n, salt, 4) % 40
  return p.astype(np.float32), nrm, col, lab


# ---------------------------------------------------------------------------
# readers
# ---------------------------------------------------------------------------

@st.composite
def strat_read(draw):
  return {'n': draw(st.integers(2, 60)), 'salt': draw(gen.SALT),
          'fmt': draw(st.sampled_from(['ply', 'ply-text', 'npz', 'kitti', 'npz-dict'])),
          'has': [draw(st.booleans()) for _ in range(3)],
          'want': [draw(st.booleans()) for _ in range(3)],
          'dt': draw(st.sampled_from(['float32', 'float64', 'float16'])),
          'nolabel': draw(st.booleans()),
          'name': draw(st.sampled_from(['a', 'b.c', 'x-1', 'velodyne0']))}


def check_read(case):
  utils = boot.import_project('datascts.utils')
  tools = boot.import_project('tools.utils')
  p, nrm, col, lab = cloud(case['n'], case['salt'], 3.0)
  hn, hc, hl = case['has']
  wn, wc, wl = (a and b for a, b in zip(case['has'], case['want']))
  f = case['fmt']
  with Scratch() as d:
    if f in ('ply', 'ply-text'):
      name = os.path.join(d, 'sub', case['name'] + '.ply')
      args = [nrm if hn else None, col.astype(np.float64) if hc else None,
              lab[:, None] if hl else None]
      keep = [p.copy()] + [None if a is None else a.copy() for a in args]
      tools.save_points_to_ply(name, p, *args, text=f == 'ply-text')
      for a, b in zip([p] + args, keep):
        if a is not None:
          cmp.equal(a, b, 'array given to save_points_to_ply')
    elif f in ('npz', 'npz-dict'):
      name = os.path.join(d, case['name'] + '.npz')
      p = p.astype(case['dt'])
      data = {'points': p, 'normals': nrm, 'colors': col, 'labels': lab}
      np.savez(name, **{k: v for k, v in data.items() if k == 'points' or {
          'normals': hn, 'colors': hc, 'labels': hl}[k]})
    if f == 'kitti':
      kitti = boot.import_project('datascts.semantic_kitti')
      os.makedirs(os.path.join(d, 'velodyne'))
      os.makedirs(os.path.join(d, 'labels'))
      raw = np.concatenate([p, col[:, :1].astype(np.float32)], 1).astype(np.float32)
      name = os.path.join(d, 'velodyne', '000012.bin')
      raw.tofile(name)
      ids = np.array(RAW)[gen.hash_ints(case['n'], case['salt'], 5) % len(RAW)]
      inst = gen.hash_ints(case['n'], case['salt'], 6) % 65536
      full = (inst * 65536 + ids).astype(np.uint32)
      if not case['nolabel']:
        full.tofile(os.path.join(d, 'labels', '000012.label'))
      out = kitti.read_file(name)
      cmp.equal(out['points'], raw, 'velodyne points')
      exp = np.zeros(case['n'], np.int64) if case['nolabel'] else ids
      cmp.equal(out['labels'] & 0xFFFF, exp, 'semantic part of the labels')
      return ['kitti', 'nt']
    readers = []
    if f in ('ply', 'ply-text'):
      readers.append(utils.ReadPly(wn, wc, wl))
    else:
      readers.append(utils.ReadNpz(wn, wc, wl))
    readers.append(utils.ReadFile(wn, wc, wl))
    for rd in readers:
      for _ in range(2):
        out = rd(name)
        exp = {'points': p.astype(np.float32)}
        if wn:
          exp['normals'] = nrm
        if wc:
          exp['colors'] = col
        if wl:
          exp['labels'] = lab
        cmp.require(set(exp) == set(out), 'entries %s, expected %s', sorted(out), sorted(exp))
        for k, v in exp.items():
          cmp.equal(np.asarray(out[k]).reshape(v.shape), v, '%s of the %s file' % (k, f))
          cmp.require(out[k].dtype == (np.int32 if k == 'labels' else np.float32),
                      '%s has dtype %s', k, out[k].dtype)
  return [f, 'nt']


# files that other programs write: any property types and order, further properties, elements
PROPS = ['x', 'y', 'z', 'nx', 'ny', 'nz', 'red', 'green', 'blue', 'label', 'alpha', 'quality']
TYPES = {'x': ['f4', 'f8', 'f4', 'i4', 'i2'], 'nx': ['f4', 'f8', 'i1'],
         'red': ['u1', 'f4', 'u2', 'i4'], 'label': ['u1', 'u2', 'i4', 'i2', 'i1', 'f4', 'u4']}


@st.composite
def strat_foreign(draw):
  return {'n': draw(st.integers(1, 40)), 'salt': draw(gen.SALT),
          'fmt': draw(st.sampled_from(['<', '>', '=', 'text', 'npz'])),
          'order': draw(st.permutations(PROPS)),
          'types': {k: draw(st.sampled_from(v)) for k, v in TYPES.items()},
          'faces': draw(st.sampled_from(['', 'before', 'after'])),
          'want': [draw(st.booleans()) for _ in range(3)]}


def check_foreign(case):
  from plyfile import PlyData, PlyElement
  utils = boot.import_project('datascts.utils')
  n, salt, ty = case['n'], case['salt'], case['types']
  first = {'y': 'x', 'z': 'x', 'ny': 'nx', 'nz': 'nx', 'green': 'red', 'blue': 'red'}
  col = {}
  for i, k in enumerate(PROPS):
    t = np.dtype(ty.get(first.get(k, k), 'f4'))
    if t.kind == 'f':
      v = gen.int_array((n,), salt, 20 + i, -999, 999) / (1 if k in ('label', 'red') else 8)
    else:
      a = np.iinfo(t)
      lo, hi = max(a.min, -2 ** 24), min(a.max, 2 ** 24)
      if k == 'label':
        hi = min(a.max, 2 ** 31 - 1)
        lo = max(a.min, -2 ** 31)
      h = gen.hash_ints(n, salt, 20 + i)
      v = lo + h % (hi - lo + 1)
      v = np.where(h % 7 == 0, hi, np.where(h % 7 == 1, lo, np.where(h % 3 == 0, h % 100, v)))
    col[k] = v.astype(t)
  exp = {'points': np.stack([col[k] for k in 'xyz'], 1).astype(np.float32)}
  for w, k, names in zip(case['want'], ('normals', 'colors', 'labels'),
                         (('nx', 'ny', 'nz'), ('red', 'green', 'blue'), None)):
    if w:
      v = np.stack([col[a] for a in names], 1) if names else col['label']
      exp[k] = v.astype(np.float32) if names else v.astype(np.int64)
  with Scratch() as d:
    if case['fmt'] == 'npz':
      fn = os.path.join(d, 'a.npz')
      order = np.asfortranarray if salt % 2 else np.ascontiguousarray
      np.savez(fn, other=np.zeros(3), labels=col['label'], **{
          k: order(np.stack([col[a] for a in names], 1)) for k, names in (
              ('colors', ('red', 'green', 'blue')), ('points', 'xyz'),
              ('normals', ('nx', 'ny', 'nz')))})
    else:
      fn = os.path.join(d, 'a.ply')
      a = np.zeros(n, dtype=[(k, col[k].dtype) for k in case['order']])
      for k in PROPS:
        a[k] = col[k]
      els = [PlyElement.describe(a, 'vertex')]
      if case['faces']:
        face = np.zeros(3, dtype=[('vertex_indices', 'i4', (3,)), ('x', 'f4'), ('label', 'u1')])
        els.insert(0 if case['faces'] == 'before' else 1, PlyElement.describe(face, 'face'))
      PlyData(els, case['fmt'] == 'text', '=' if case['fmt'] == 'text' else case['fmt']).write(fn)
    for cls in ((utils.ReadNpz if case['fmt'] == 'npz' else utils.ReadPly), utils.ReadFile):
      out = cls(*case['want'])(fn)
      cmp.require(set(exp) == set(out), 'entries %s, expected %s', sorted(out), sorted(exp))
      for k, v in exp.items():
        cmp.equal(np.asarray(out[k]), v, '%s of a file of %s' % (k, case['fmt']))
  return ['foreign-' + case['fmt'], 'nt']


# ---------------------------------------------------------------------------
# data sets
# ---------------------------------------------------------------------------

NAMES = ['modelnet', 'seg_shapenet', 'scannet', 'kitti', 'ae', 'completion', 'image2shape']


@st.composite
def strat_set(draw):
  n = draw(st.integers(1, 4))
  return {'set': draw(st.sampled_from(NAMES)), 'n': [draw(st.integers(4, 60)) for _ in range(n)],
          'salt': draw(gen.SALT), 'depth': draw(st.integers(2, 7)),
          'full': draw(st.integers(1, 2)), 'npz': draw(st.booleans()),
          'mem': draw(st.booleans()), 'take': draw(st.sampled_from([-1, -1, 1, 2])),
          'reads': draw(st.lists(st.integers(0, 3), min_size=1, max_size=6)),
          'labels': [draw(st.integers(0, 39)) for _ in range(n)],
          'scale': draw(st.sampled_from([0.5, 1.0, 2.0])),
          'distort': draw(st.integers(0, 3)) == 0,
          'spread': draw(st.sampled_from([0.4, 0.9])),
          'collate': draw(st.booleans())}


def write_files(case, d):
  """Writes the files and the list; returns per file a dictionary of contents."""
  out, lines = [], []
  kind = case['set']
  for i, n in enumerate(case['n']):
    p, nrm, col, lab = cloud(n, case['salt'] + 31 * i, case['spread'])
    c = {'points': p, 'normals': nrm, 'colors': col, 'labels': lab}
    base = 'f%d' % i
    if kind == 'kitti':
      for s in ('velodyne', 'labels'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
      c['points'] = p = p * 100
      raw = np.concatenate([p, col[:, :1].astype(np.float32)], 1).astype(np.float32)
      raw.tofile(os.path.join(d, 'velodyne', base + '.bin'))
      c['raw'] = np.array(RAW)[gen.hash_ints(n, case['salt'], 50 + i) % len(RAW)]
      inst = gen.hash_ints(n, case['salt'], 60 + i) % 65536
      (inst * 65536 + c['raw']).astype(np.uint32).tofile(
          os.path.join(d, 'labels', base + '.label'))
      lines.append('velodyne/%s.bin' % base)
    elif kind == 'image2shape':
      from PIL import Image
      suffix = 'npz' if case['npz'] else 'ply'
      folder = os.path.join(d, base)
      os.makedirs(folder)
      c['files'] = write_cloud(os.path.join(folder, 'points.' + suffix), suffix, c, extra=True)
      img = (gen.hash_ints(6 * 5 * 3, case['salt'], 70 + i) % 256).reshape(6, 5, 3)
      c['image'] = img.astype(np.uint8)
      os.makedirs(os.path.join(folder, 'renderings', 'rendering'))
      rgba = np.concatenate([c['image'], np.full((6, 5, 1), 255, np.uint8)], 2)
      for v in range(24):
        Image.fromarray(rgba, 'RGBA').save(
            os.path.join(folder, 'renderings', 'rendering', '%02d.png' % v))
      lines.append('%s/points.%s' % (base, suffix))
    else:
      suffix = 'npz' if case['npz'] and kind != 'seg_shapenet' else 'ply'
      if kind == 'scannet':
        c['points'] = p = p * 5
      fn = os.path.join(d, base + '.' + suffix)
      write_cloud(fn, suffix, c, extra=kind == 'ae')
      lines.append(base if kind == 'ae' else base + '.' + suffix)
    out.append(c)
  with open(os.path.join(d, 'list.txt'), 'w') as f:
    for i, l in enumerate(lines):
      f.write('%s %d\n' % (l, case['labels'][i]))
  return out, lines


def write_cloud(fn, suffix, c, extra=False):
  """`extra`: also under the name with the suffix repeated (readers that append it)."""
  if suffix == 'npz':
    np.savez(fn, points=c['points'], normals=c['normals'], colors=c['colors'],
             labels=c['labels'])
  else:
    from plyfile import PlyData, PlyElement
    n = c['points'].shape[0]
    a = np.zeros(n, dtype=[(k, 'f4') for k in ('x', 'y', 'z', 'nx', 'ny', 'nz')] + [
        (k, 'u1') for k in ('red', 'green', 'blue', 'label')])
    for j, k in enumerate(('x', 'y', 'z')):
      a[k] = c['points'][:, j]
    for j, k in enumerate(('nx', 'ny', 'nz')):
      a[k] = c['normals'][:, j]
    for j, k in enumerate(('red', 'green', 'blue')):
      a[k] = c['colors'][:, j]
    a['label'] = c['labels']
    PlyData([PlyElement.describe(a, 'vertex')]).write(fn)
  if extra:
    shutil.copy(fn, fn + '.' + suffix)


def get_dataset(case, d):
  ds = boot.import_project('datascts')
  flags = Flags(depth=case['depth'], full_depth=case['full'], distort=case['distort'],
                angle=(0, 0, 180), interval=(1, 1, 1), scale=0.1, uniform=True, jitter=0.05,
                flip=(0.0, 0.5, 0.0), orient_normal='', location=d,
                filelist=os.path.join(d, 'list.txt'), take=case['take'],
                filetype='npz' if case['npz'] else 'ply', points_scale=case['scale'],
                in_memory=case['mem'] and case['set'] in ('kitti', 'ae', 'image2shape'))
  fn = {'modelnet': ds.get_modelnet40_dataset, 'seg_shapenet': ds.get_seg_shapenet_dataset,
        'scannet': ds.get_scannet_dataset, 'kitti': ds.get_kitti_dataset,
        'ae': ds.get_ae_shapenet_dataset, 'completion': ds.get_completion_dataset,
        'image2shape': ds.get_image2shape_dataset}[case['set']]
  return fn(flags)


def expected(case, c):
  """Expected points/normals/features/labels before clipping (no distortion), float64."""
  k = case['set']
  p = c['points'].astype(np.float64)
  nrm, fea, lab = c['normals'], None, None
  lo, hi = p.min(0), p.max(0)
  if k == 'seg_shapenet':
    r = (hi - lo).max() / 2 if False else None
    p, lab = None, c['labels']        # judged separately: fits a sphere/box of 0.8
  elif k == 'scannet':
    ctr = (lo + hi) / 2
    ctr[2] = 0.5
    p, fea, lab = (p - ctr) / 10.24, c['colors'] / 255.0, c['labels']
  elif k == 'kitti':
    p, nrm = (p - (lo + hi) / 2) / 100, None
    fea = c['colors'][:, :1].astype(np.float32)
    lab = np.array([KITTI.get(int(v), 0) for v in c['raw']])
  elif k in ('ae', 'image2shape'):
    p = p / case['scale']
  elif k == 'completion':
    ctr = (lo + hi) / 2
    p = (p - ctr) * (2.0 / (np.max(hi - lo) + 1e-6)) * 0.95
  return p, nrm, fea, lab


def check_points(pts, mask, exp, c, case, what):
  p, nrm, fea, lab = exp
  if p is not None:
    inb = (np.abs(p) < 0.99).all(1)
    edge = (np.abs(np.abs(p) - 0.99) < 1e-4).any(1)
    if mask is not None:
      m = cmp.arr(mask).reshape(-1)
      cmp.require(m.shape == inb.shape, '%s: mask of %s points', what, m.shape)
      cmp.equal(m[~edge], inb[~edge], what + ': inbox mask')
      inb = m
    elif edge.any():
      return
  else:
    inb = cmp.arr(mask).reshape(-1)
    cmp.require(inb.all(), '%s: normalised points were clipped', what)
    q = cmp.arr(pts.points).astype(np.float64)
    o = c['points'].astype(np.float64)
    # a similarity: one factor for all axes, centred, inside of the 0.8 box
    f = (q.max(0) - q.min(0)) / (o.max(0) - o.min(0))
    cmp.require(np.ptp(f) <= 1e-3 * f.max(), '%s: anisotropic normalisation %s', what, f)
    cmp.close(q, (o - (o.max(0) + o.min(0)) / 2) * f.mean(), what + ': points', 1e-3, 1e-3)
    cmp.require(np.abs(q).max() <= 0.8 + 1e-3, '%s: exceeds the 0.8 box', what)
    p = None
  if p is not None:
    cmp.close(pts.points, p[inb], what + ': points', 2e-5, 2e-5)
  for got, e, name in ((pts.normals, nrm, 'normals'), (pts.features, fea, 'features'),
                       (pts.labels, None if lab is None else lab[:, None], 'labels')):
    if e is None:
      cmp.require(got is None, '%s: unexpected %s', what, name)
    else:
      cmp.require(got is not None, '%s: no %s', what, name)
      cmp.close(got, np.asarray(e)[inb], '%s: %s' % (what, name), 1e-5, 1e-5)


def check_octree(o, pts, case, what):
  """The octree holds the cells of its points."""
  d = case['depth']
  q = cmp.arr(pts.points).astype(np.float32)
  u = (q.astype(np.float64) + 1) * 2.0 ** (d - 1)
  if (np.abs(u - np.round(u)) < 1e-4).any():
    return            # a point on a cell face: rounding decides
  cells = np.concatenate([np.zeros((q.shape[0], 1)), np.floor(u)], 1).astype(np.int64)
  oct.check_structure(o, ref.RefOctree.from_cells(cells, d, min(case['full'], d), 1), what)


def check_set(case):
  kind = case['set']
  tags = [kind, 'distort' if case['distort'] else 'plain']
  if case['npz']:
    tags.append('npz')
  with Scratch() as d:
    contents, lines = write_files(case, d)
    # a progress bar of the in-memory data set writes to stderr
    err, sys.stderr = sys.stderr, open(os.devnull, 'w')
    try:
      dataset, collate = get_dataset(case, d)
    finally:
      sys.stderr.close()
      sys.stderr = err
    takes = kind in ('modelnet', 'seg_shapenet')
    n = len(lines)
    if takes and 1 <= case['take'] <= n:
      n = case['take']
    cmp.require(len(dataset) == n, '%s: %d samples, expected %d', kind, len(dataset), n)
    batch = []
    for i in case['reads']:
      i = i % n
      try:
        s = dataset[i]
      except AssertionError:
        raise
      batch.append((i, s))
      w = '%s file %d' % (kind, i)
      cmp.require(s['label'] == case['labels'][i], '%s: label %s', w, s['label'])
      cmp.require(s['filename'] == lines[i], '%s: file name %s', w, s['filename'])
      c = contents[i]
      exp = expected(case, c)
      if kind == 'completion':
        check_points(s['points_gt'], None, exp, c, case, w)
        check_octree(s['octree_gt'], s['points_gt'], case, w)
        check_octree(s['octree'], s['points'], case, w)
        # every input point is a noisy point of the shape
        q = cmp.arr(s['points'].points).astype(np.float64)
        cmp.require(2500 < q.shape[0] <= 3000, '%s: %d input points', w, q.shape[0])
        dist = np.sqrt(((q[:200, None] - exp[0][None]) ** 2).sum(-1)).min(1)
        cmp.require(dist.max() < 0.0095 * 8, '%s: input point %f off the shape', w, dist.max())
        cmp.require(s['points'].normals is None, '%s: the input has normals', w)
        continue
      pts, mask = s['points'], s['inbox_mask']
      if not case['distort']:
        check_points(pts, mask, exp, c, case, w)
      else:
        check_distorted(pts, mask, exp, c, case, w)
      if kind != 'scannet':
        check_octree(s['octree'], pts, case, w)
      if kind == 'image2shape':
        img = c['image'].transpose(2, 0, 1) / 255.0
        cmp.close(s['image'], img, w + ': image', 1e-6, 1e-6)
    if case['collate']:
      if any(s['points'].npt == 0 for _, s in batch):
        return tags
      out = collate([s for _, s in batch])
      cmp.equal(out['label'], [case['labels'][i] for i, _ in batch], kind + ': labels')
      cmp.require(out['filename'] == [lines[i] for i, _ in batch], '%s: file names', kind)
      for key in ('octree', 'octree_gt'):
        if key in batch[0][1]:
          cmp.number(out[key].batch_size, len(batch), kind + ': batch size')
          dd = case['depth']
          for j, (i, s) in enumerate(batch):
            m = out[key].batch_id(dd) == j
            cmp.equal(out[key].keys[dd][m] & ((1 << 48) - 1), s[key].keys[dd],
                      '%s: octree %d of the batch' % (kind, j))
      if kind in ('seg_shapenet', 'kitti'):
        cmp.equal(out['points'].batch_npt, [s['points'].npt for _, s in batch], 'batch_npt')
        cmp.equal(out['points'].labels, torch.cat([s['points'].labels for _, s in batch]),
                  'labels of the points')
      else:
        for j, (i, s) in enumerate(batch):
          cmp.equal(out['points'][j].points, s['points'].points, 'points %d' % j)
      if kind == 'image2shape':
        cmp.equal(out['image'], torch.stack([s['image'] for _, s in batch]), 'images')
      tags.append('collated')
  if len(lines) > 1:
    tags.append('nt')
  return tags


def check_distorted(pts, mask, exp, c, case, w):
  """Under augmentation: attributes stay with their points, shapes stay consistent."""
  p, nrm, fea, lab = exp
  m = cmp.arr(mask).reshape(-1)
  cmp.require(m.shape[0] == c['points'].shape[0], '%s: mask size', w)
  cmp.require(pts.npt == int(m.sum()), '%s: %d points, mask marks %d', w, pts.npt, m.sum())
  cmp.require(bool((pts.points.abs() < 1).all()), '%s: points outside of the box', w)
  if lab is not None:
    cmp.equal(pts.labels, lab[m][:, None], w + ': labels')
  if nrm is not None:
    # rotation about z and reflection of y preserve the length and the z component
    ln = np.sqrt((nrm.astype(np.float64) ** 2).sum(1))[m]
    cmp.close(pts.normals.norm(dim=1), ln, w + ': length of the normals', 1e-4, 1e-4)
    cmp.close(pts.normals[:, 2], nrm[m, 2], w + ': z of the normals', 1e-4, 1e-4)
  if case['set'] == 'scannet':
    cmp.require(bool(((pts.features >= -1e-6) & (pts.features <= 1 + 1e-6)).all()),
                '%s: colours outside of [0, 1]', w)
  elif fea is not None:
    cmp.equal(pts.features, fea[m], w + ': features')
  if p is not None and case['set'] != 'scannet' and m.any():
    # the centre is only translated by the jitter, the rest is one similarity per sample
    q = cmp.arr(pts.points).astype(np.float64)
    o = p[m]
    if q.shape[0] >= 2:
      dq = np.sqrt(((q - q[:1]) ** 2).sum(1))
      do = np.sqrt(((o - o[:1]) ** 2).sum(1))
      ok = do > 1e-2
      if ok.any():
        f = dq[ok] / do[ok]
        cmp.require(np.ptp(f) < 1e-2, '%s: not a similarity', w)
        cmp.require(0.9 - 1e-3 <= f.mean() <= 1.1 + 1e-3, '%s: scaled by %f', w, f.mean())


@st.composite
def strat_map(draw):
  return {'labels': draw(st.lists(st.integers(0, 259), min_size=1, max_size=50))}


def check_map(case):
  kitti = boot.import_project('datascts.semantic_kitti')
  m = kitti.get_label_map()
  for v in case['labels']:
    cmp.number(m[v], KITTI.get(v, 0), 'class of the raw label %d' % v)
  return ['nt']


@st.composite
def strat_aug(draw):
  return {'seed': draw(st.integers(0, 10 ** 6)), 'calls': 12,
          'lo': [draw(st.integers(0, 120)) for _ in range(3)],
          'range': [draw(st.integers(60, 130)) for _ in range(3)],
          'size': [draw(st.floats(8.0, 18.0)) for _ in range(3)]}


def check_aug(case):
  """The augmentation of ScanNet: one smooth displacement field, one colour map per scene."""
  import random
  sc = boot.import_project('datascts.scannet')
  flags = Flags(distort=True, depth=8, full_depth=2, orient_normal='', angle=(0, 0, 0),
                interval=(1, 1, 1), scale=0.0, uniform=True, jitter=0.0, flip=(0.0, 0.0, 0.0))
  tr = sc.ScanNetTransform(flags)
  n, g = 1500, np.random.default_rng(case['seed'])
  xyz = (g.random((n, 3)) * case['size']).astype(np.float32)
  xyz[n // 2:] = xyz[:n - n // 2] + 0.002 * g.random((n - n // 2, 3)).astype(np.float32)
  xyz[0], xyz[1] = 0, case['size']
  xyz[2] = xyz[3]
  lo, rg = np.array(case['lo'], float), np.array(case['range'], float)
  level = np.array([0.0, 0.4, 0.5, 0.6, 1.0])
  which = np.arange(n) % 5
  color = (lo + level[which][:, None] * rg).astype(np.float32)
  sample = {'points': xyz, 'normals': np.zeros((n, 3), np.float32), 'colors': color,
            'labels': np.arange(n, dtype=np.int32)}
  ctr = (xyz.min(0) + xyz.max(0)) / 2
  ctr[2] = 0.5
  base = (xyz.astype(np.float64) - ctr) / 10.24
  np.random.seed(case['seed'])
  random.seed(case['seed'])
  torch.manual_seed(case['seed'])
  rms, still, jit, moved = [], 0, [], []
  before = {k: v.copy() for k, v in sample.items()}
  for _ in range(case['calls']):
    out = tr({k: v.copy() for k, v in sample.items()}, 0)
    pts, m = out['points'], cmp.arr(out['inbox_mask']).reshape(-1)
    cmp.equal(pts.labels[:, 0], before['labels'][m], 'labels')
    q = np.full((n, 3), np.nan)
    q[m] = cmp.arr(pts.points)
    d = q - base
    ok = m[:n - n // 2] & m[n // 2:]
    a, b = d[:n - n // 2][ok], d[n // 2:][ok]
    far = np.abs(xyz[n // 2:] - xyz[:n - n // 2]).max(1)[ok] < 0.01
    cmp.require(np.abs(a - b)[far].max(initial=0) < 2e-3,
                'neighbouring points are torn apart by %s', np.abs(a - b)[far].max(initial=0))
    r = float(np.sqrt(np.nanmean(d ** 2)))
    if r < 1e-5:
      still += 1
    else:
      rms.append(r)
    f = np.full((n, 3), np.nan)
    f[m] = cmp.arr(pts.features)
    cmp.require(np.nanmin(f) >= -1e-6 and np.nanmax(f) <= 1 + 1e-6, 'colours outside of [0, 1]')
    med = np.stack([np.nanmedian(f[which == j], axis=0) for j in (1, 2, 3)])
    slope = (med[2] - med[0]) / (0.2 * rg / 255)
    s = 255 / rg            # the slope of the full contrast, 1 without contrast
    t = (slope - 1) / (s - 1)
    cmp.require(bool((t > -0.35).all() and (t < 1.35).all()), 'contrast of %s', t)
    w = np.average(t, weights=(s - 1))
    mid = lo / 255 + rg / 255 / 2
    shift = med[1] - (mid * (1 - w) + 0.5 * w)
    cmp.require(bool((np.abs(shift) < 0.1 + 0.06).all()), 'colours shifted by %s', shift)
    moved.append(np.abs(shift).max())
    jit.append(float(np.nanmean([np.nanstd(f[which == j], axis=0) for j in (1, 2, 3)])))
  for k, v in sample.items():
    cmp.equal(v, before[k], 'the sample given: ' + k)
  cmp.require(still <= 5, '%s of %s scenes are not distorted', still, case['calls'])
  mean, on = float(np.mean(rms)), [j for j in jit if j > 0.01]
  cmp.require(0.05 < mean < 0.12, 'elastic displacements of %s', mean)
  cmp.require(len(on) >= 7, 'colour jitter in %s of %s scenes', len(on), case['calls'])
  cmp.require(0.045 < np.mean(on) < 0.055, 'colour jitter of %s', np.mean(on))
  cmp.require(max(moved) > 0.03, 'the colours are never shifted: %s', max(moved))
  return ['nt', 'augmentation']


@st.composite
def strat_small(draw):
  return {'n': draw(st.sampled_from([1, 2, 3, 20, 60])), 'salt': draw(gen.SALT),
          'seed': draw(st.integers(0, 10 ** 6)),
          'extent': [draw(st.sampled_from([0.0, 0.05, 1.0, 6.0])) for _ in range(3)],
          'flat': [draw(st.sampled_from([None, None, 0, 2, 100, 255])) for _ in range(3)],
          'grey': draw(st.booleans()), 'calls': 4}


def check_small(case):
  """Augmented scenes of few points, flat scenes and scenes of a single colour."""
  import random
  sc = boot.import_project('datascts.scannet')
  flags = Flags(distort=True, depth=8, full_depth=2, orient_normal='', angle=(0, 0, 0),
                interval=(1, 1, 1), scale=0.0, uniform=True, jitter=0.0, flip=(0.0, 0.0, 0.0))
  tr = sc.ScanNetTransform(flags)
  n = case['n']
  p, nrm, col, _ = cloud(n, case['salt'])
  p = ((p - p.min(0)) * np.array(case['extent'])).astype(np.float32)
  col = col.astype(np.float32)
  for i, v in enumerate(case['flat']):
    if v is not None:
      col[:, i] = v
  if case['grey']:
    col[:] = col[:, :1]
  if col.max() <= 1:           # taken for colours of [0, 1]
    col[0] = 2
  ctr = (p.min(0) + p.max(0)) / 2
  ctr[2] = 0.5
  base = (p.astype(np.float64) - ctr) / 10.24
  np.random.seed(case['seed'])
  random.seed(case['seed'])
  torch.manual_seed(case['seed'])
  for _ in range(case['calls']):
    out = tr({'points': p.copy(), 'normals': nrm.copy(), 'colors': col.copy(),
              'labels': np.arange(n, dtype=np.int32)}, 0)
    pts, m = out['points'], cmp.arr(out['inbox_mask']).reshape(-1)
    cmp.equal(pts.labels[:, 0], np.arange(n)[m], 'labels')
    cmp.equal(pts.normals, nrm[m], 'normals')
    d = np.abs(cmp.arr(pts.points) - base[m])
    cmp.require(bool((d < 2).all()), 'points moved by %s', d.max(initial=0))
    f = cmp.arr(pts.features)
    cmp.require(bool(((f >= -1e-6) & (f <= 1 + 1e-6)).all()), 'colours %s', f)
  single = (col == col[0]).all(0).any()
  return ['nt'] + (['flat-channel'] if single else [])


FACETS = [Facet('readers', strat_read, check_read, 400, 6000),
          Facet('foreign', strat_foreign, check_foreign, 400, 6000),
          Facet('datasets', strat_set, check_set, 500, 8000),
          Facet('kitti-labels', strat_map, check_map, 50, 500),
          Facet('augmentation', strat_aug, check_aug, 24, 300),
          Facet('small-scenes', strat_small, check_small, 200, 3000)]
