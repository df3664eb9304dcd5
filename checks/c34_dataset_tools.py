"""C34: the tools that prepare the data sets and handle checkpoints lose and invent nothing."""
import json
import math
import os
import shutil
import zipfile

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import boot, cmp, gen
from vlib.core import Facet
from vlib.tool import Tools

PROPERTY = 'C34'
RULE = ('small copies of the raw data sets (text clouds with part labels, ply scans, off and obj '
        'meshes, zip archives, sequence folders, checkpoints) are generated in a scratch '
        'directory, the real scripts run on them and every file they write is compared with what '
        'was put in; non-trivial: several files or classes')
ASSUMPTIONS = ['downloads are replaced by files already in place',
               'sampled points are judged by lying on a face of the mesh with its normal',
               'the minimum enclosing ball package is not installed; a recording stand-in is used']

CAT16 = ['02691156', '02773838', '02954340', '02958343', '03001627', '03261776', '03467517',
         '03624134', '03636649', '03642806', '03790512', '03797390', '03948459', '04099429',
         '04225987', '04379243']
PARTS = [4, 2, 2, 4, 4, 3, 3, 2, 4, 2, 6, 2, 3, 3, 3, 3]
CAT13 = ['02691156', '02828884', '02933112', '02958343', '03001627', '03211117', '03636649',
         '03691459', '04090263', '04256520', '04379243', '04401088', '04530566']


def files_under(folder):
  out = []
  for d, _, fs in os.walk(folder):
    out += [os.path.relpath(os.path.join(d, f), folder) for f in fs]
  return sorted(out)


def read_cloud(name):
  from plyfile import PlyData
  v = PlyData.read(name)['vertex'].data
  return {k: np.asarray(v[k]) for k in v.dtype.names}


def xyz(v, pre=''):
  return np.stack([v[pre + c] for c in 'xyz'], 1)


def put(name, text):
  os.makedirs(os.path.dirname(name), exist_ok=True)
  with open(name, 'w') as f:
    f.write(text)


def lines(name):
  with open(name) as f:
    return f.read().splitlines()


def reals(n, c, *salt):
  """Decimal numbers with few digits, so that text keeps them exactly."""
  return gen.hash_ints(n * c, *salt).reshape(n, c) % 20001 / 10000.0 - 1


def names_of(n, salt, stream, odd=False):
  """Different names; with odd, some are a part of others and some contain dots."""
  h = gen.hash_ints(2 * n, salt, stream)
  out = ['%08x%04x' % (h[2 * i] & 0xffffffff, (h[2 * i + 1] & 0xfff) + 4096 * i)
         for i in range(n)]
  # a category number inside a name would be ambiguous in the lists of ShapeNet
  out = [s.replace('0', 'a') for s in out]
  for i in range(1, n if odd else 0):
    if h[2 * i] % 3:
      out[i] = out[i - 1] + ['b', '.1', '.a'][h[2 * i] % 7 % 3]
  return out


# ---------------------------------------------------------------------------
# ShapeNet segmentation
# ---------------------------------------------------------------------------

@st.composite
def strat_shapenet(draw):
  return {'files': draw(st.lists(st.tuples(st.integers(0, 15), st.integers(2, 30)), min_size=1,
                                 max_size=12)), 'salt': draw(gen.SALT)}


def check_shapenet(case):
  n = len(case['files'])
  names = names_of(n, case['salt'], 1)
  split = gen.hash_ints(n, case['salt'], 2) % 3
  with Tools() as t:
    root = t.path('projects', 'data', 'shapenet_segmentation', 'x')[:-2]
    txt = os.path.join(root, 'shapenetcore_partanno_segmentation_benchmark_v0_normal')
    for c in CAT16:
      os.makedirs(os.path.join(txt, c))
    data = {}
    for i, (c, m) in enumerate(case['files']):
      x = reals(m, 6, case['salt'], 10 + i)
      lab = gen.hash_ints(m, case['salt'], 40 + i) % PARTS[c]
      first = sum(PARTS[:c])
      put(os.path.join(txt, CAT16[c], names[i] + '.txt'), ''.join(
          ' '.join('%.6f' % v for v in r) + ' %.6f\n' % (first + k) for r, k in zip(x, lab)))
      data['%s/%s' % (CAT16[c], names[i])] = (x, lab, c)
    lists = [['shape_data/%s/%s' % (CAT16[case['files'][i][0]], names[i])
              for i in range(n) if split[i] == k] for k in range(3)]
    for k, s in enumerate(['train', 'val', 'test']):
      put(os.path.join(txt, 'train_test_split', 'shuffled_%s_file_list.json' % s),
          json.dumps(lists[k]))
    t.script('seg_shapenet', ['--run', 'txt_to_ply'])
    t.script('seg_shapenet', ['--run', 'generate_filelist'])
    cmp.require(files_under(os.path.join(root, 'points')) == sorted(k + '.ply' for k in data),
                'written clouds')
    for k, (x, lab, c) in data.items():
      v = read_cloud(os.path.join(root, 'points', k + '.ply'))
      cmp.equal(xyz(v), x[:, :3].astype(np.float32), 'points of ' + k)
      cmp.equal(xyz(v, 'n'), x[:, 3:].astype(np.float32), 'normals of ' + k)
      cmp.equal(v['label'].astype(np.int64), lab.astype(np.int64), 'parts of ' + k)
    for c in range(16):
      for s, ks in (('train_val', (0, 1)), ('test', (2,))):
        got = lines(os.path.join(root, 'filelist', '%s_%s.txt' % (CAT16[c], s)))
        exp = ['%s.ply %d' % (v[11:], c) for k in ks for v in lists[k] if v[11:19] == CAT16[c]]
        cmp.require(got == exp, 'list of class %s (%s): %s, expected %s', CAT16[c], s, got, exp)
  return ['nt'] if len({c for c, _ in case['files']}) > 1 else []


# ---------------------------------------------------------------------------
# clouds for completion and auto-encoding
# ---------------------------------------------------------------------------

@st.composite
def strat_ae(draw):
  return {'files': draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 1),
                                           st.integers(1, 30)), min_size=1, max_size=6)),
          'salt': draw(gen.SALT), 'junk': draw(st.booleans())}


def check_ae(case):
  with Tools() as t:
    root = t.path('projects', 'data', 'ae_shapenet', 'x')[:-2]
    kinds, data = ['shape', 'test.scans'], {}
    for k in kinds:
      os.makedirs(os.path.join(root, k + '.ply'))
    names = names_of(len(case['files']), case['salt'], 1, True)
    tools = t.load('utils')
    for i, (c, k, m) in enumerate(case['files']):
      x = reals(m, 6, case['salt'], 10 + i)
      key = (kinds[k], '%s/%s' % (CAT13[c], names[i]))
      data[key] = x.astype(np.float32)
      tools.save_points_to_ply(os.path.join(root, kinds[k] + '.ply', key[1] + '.ply'),
                               x[:, :3], x[:, 3:])
      if case['junk']:
        put(os.path.join(root, kinds[k] + '.ply', key[1] + '.txt'), 'no cloud')
    for j, f in enumerate(['filelist_test', 'filelist_train', 'filelist_test_scans']):
      put(os.path.join(root, f + '.txt'), ''.join(
          '%s.points %d\n' % (k[1], i) for i, k in enumerate(data) if (i + j) % 2))
    t.script('ae_shapenet', ['--run', 'convert_ply_to_numpy'])
    t.script('ae_shapenet', ['--run', 'create_filelist'])
    for k in kinds:
      exp = sorted(v + '.npz' for q, v in data if q == k)
      cmp.require(files_under(os.path.join(root, k + '.npz')) == exp, 'files of %s', k)
    for (k, v), x in data.items():
      raw = np.load(os.path.join(root, k + '.npz', v + '.npz'))
      cmp.require(set(raw.files) == {'points', 'normals'}, 'entries %s', raw.files)
      for name, e in (('points', x[:, :3]), ('normals', x[:, 3:])):
        cmp.require(raw[name].dtype == np.float32, 'type of %s: %s', name, raw[name].dtype)
        cmp.equal(raw[name], e, '%s of %s' % (name, v))
    for f in ['filelist_test', 'filelist_train', 'filelist_test_scans']:
      src = lines(os.path.join(root, f + '.txt'))
      for suf in ['.npz', '.ply']:
        got = lines(os.path.join(root, f + suf + '.txt'))
        cmp.require(got == [s.replace('.points', suf) for s in src], '%s of %s', suf, f)
  return ['nt'] if len(data) > 1 else []


# ---------------------------------------------------------------------------
# meshes
# ---------------------------------------------------------------------------

def mesh_of(kind, salt, stream):
  """Vertices and triangles of a closed box, a tetrahedron or separate triangles."""
  h = gen.hash_ints(6, salt, stream).astype(np.int64)
  off, ext = (h[:3] % 41 - 20) / 4.0, (h[3:] % 15 + 1) / 2.0
  if kind == 'box':
    v = np.array([[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)], np.float64)
    f = [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6],
         [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]]
  elif kind == 'tetra':
    v = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], np.float64)
    f = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
  else:
    v = np.array([[0, 0, 0], [1, 0, 0.5], [0, 1, 0.25], [0, 0, 2], [1, 0, 2], [0.25, 1, 2]],
                 np.float64)
    f = [[0, 1, 2], [3, 5, 4]]
  return v * ext + off, np.array(f)


def write_off(name, v, f, style):
  head = {'plain': 'OFF\n', 'glued': 'OFF', 'space': 'OFF '}[style]
  put(name, head + '%d %d 0\n' % (len(v), len(f)) +
      ''.join('%.6f %.6f %.6f\n' % tuple(r) for r in v) +
      ''.join('3 %d %d %d\n' % tuple(r) for r in f))


def write_obj(name, v, f):
  put(name, ''.join('v %.6f %.6f %.6f\n' % tuple(r) for r in v) +
      ''.join('f %d %d %d\n' % tuple(r + 1) for r in f))


def on_mesh(p, nrm, v, f, what):
  """Every point lies on a face that has the given normal."""
  a, b, c = (v[f[:, k]] for k in range(3))
  n = np.cross(b - a, c - a)
  area = np.linalg.norm(n, axis=1)
  n = n / area[:, None]
  size = np.abs(v).max() + 1
  rel = p[:, None] - a[None]
  plane = np.abs((rel * n[None]).sum(-1)) < 1e-5 * size
  same = (np.abs(n[None] - nrm[:, None]).max(-1) < 1e-4)

  def part(u, w):   # area of the triangle (point, u, w) relative to the face
    return (np.cross(u[None] - p[:, None], w[None] - p[:, None]) * n[None]).sum(-1) / area
  tol = -1e-4 * size / np.sqrt(area)
  inside = (part(a, b) > tol) & (part(b, c) > tol) & (part(c, a) > tol)
  bad = ~(plane & same & inside).any(1)
  cmp.require(not bad.any(), '%s: %d sampled points are not on a face with their normal, e.g. '
              '%s, %s', what, int(bad.sum()), p[bad][:1], nrm[bad][:1])


@st.composite
def strat_modelnet(draw):
  mesh = st.tuples(st.integers(0, 39), st.booleans(), st.sampled_from(['box', 'tetra', 'open']),
                   st.sampled_from(['plain', 'plain', 'glued', 'space']))
  return {'files': draw(st.lists(mesh, min_size=1, max_size=7)), 'salt': draw(gen.SALT),
          'num': draw(st.integers(20, 80)), 'y': draw(st.booleans()),
          'norm': draw(st.booleans()), 'valid': draw(st.booleans()),
          'whole': draw(st.integers(0, 5)) == 0, 'huge': draw(st.booleans())}


# meshes of the training set which are too large to be scanned, left out by the conversion
HUGE = ('cone/train/cone_0117', 'curtain/train/curtain_0066', 'laptop/train/laptop_0104')


def check_modelnet(case):
  import trimesh
  import trimesh.sample
  from unittest import mock
  folders = sorted(['class_%02d' % ((i * 7) % 100) for i in range(37)] +
                   [h.split('/')[0] for h in HUGE])
  balls, taken = [], []

  def ball(points, details=False):
    c = np.array([0.1, -0.2, 0.3])
    balls.append((np.array(points), c))
    r2 = ((points - c) ** 2).sum(1).max()
    return (c, r2, {'is_valid': case['valid']}) if details else (c, r2)
  real = trimesh.sample.sample_surface

  def sample(mesh, count, *a, **k):
    out = real(mesh, count, *a, **k)
    taken.append((np.array(mesh.vertices), np.array(mesh.faces), np.array(out[0]),
                  np.array(out[1])))
    return out
  with Tools() as t, mock.patch.object(trimesh.sample, 'sample_surface', sample):
    root = t.path('projects', 'data', 'ModelNet40', 'x')[:-2]
    os.makedirs(os.path.join(root, 'flags'))
    src = os.path.join(root, 'ModelNet40')
    for f in folders:
      for s in ('train', 'test'):
        os.makedirs(os.path.join(src, f, s))
    data = {}
    for i, (c, train, kind, style) in enumerate(case['files']):
      key = '%s/%s/%s_%04d' % (folders[c], 'train' if train else 'test', folders[c], i)
      data[key] = mesh_of(kind, case['salt'], 10 + i)
      write_off(os.path.join(src, key + '.off'), *data[key], style)
    if case['whole']:         # from the archive to the lists in one go: all classes have meshes
      for i, c in enumerate(folders):
        for s in ('train', 'test'):
          key = '%s/%s/%s_%04d' % (c, s, c, 200 + i)
          data[key] = mesh_of('box' if i % 2 else 'tetra', case['salt'], 300 + i)
          write_off(os.path.join(src, key + '.off'), *data[key], 'glued' if i % 5 else 'plain')
    text = {k: open(os.path.join(src, k + '.off')).read() for k in data}
    if case['huge']:
      for h in HUGE:
        write_off(os.path.join(src, h + '.off'), *mesh_of('box', case['salt'], 5), 'plain')
    # classes without a mesh still appear in the lists of clouds
    args = ['--sample_num', case['num'], '--align_y', str(case['y']).lower(), '--normalize',
            str(case['norm']).lower()]
    stub = {'cyminiball': {'compute': ball}}
    np.random.seed(case['salt'] % 1000)
    if case['whole']:
      with zipfile.ZipFile(os.path.join(root, 'ModelNet40.zip'), 'w') as z:
        for d, _, fs in os.walk(src):
          for f in ([''] if not fs else fs):
            name = os.path.join(d, f)
            z.write(name, os.path.relpath(name, root))
      shutil.rmtree(src)
      os.rmdir(os.path.join(root, 'flags'))
      t.script('cls_modelnet', args, stub)
    else:
      t.script('cls_modelnet', args + ['--run', 'convert_mesh_to_points'], stub)
    # the headers are repaired, the rest of the meshes is kept
    for k, v in text.items():
      got = open(os.path.join(src, k + '.off')).read()
      cmp.require(got[:4] == 'OFF\n' and got[4:].split() == v[3:].split(),
                  '%s.off was changed: %r', k, got[:40])
    out = os.path.join(root, 'ModelNet40.ply' + ('.y' if case['y'] else '') +
                       ('.normalize' if case['norm'] else ''))
    cmp.require(files_under(out) == sorted(k + '.ply' for k in data), 'sampled clouds %s',
                files_under(out))
    order = sorted(k for k in data if '/train/' in k) + sorted(k for k in data if '/test/' in k)
    for k, (v, f) in data.items():
      if case['y']:     # z points up in the meshes, y in the clouds
        v = v[:, [1, 2, 0]]
      w = read_cloud(os.path.join(out, k + '.ply'))
      p, nrm = xyz(w).astype(np.float64), xyz(w, 'n').astype(np.float64)
      cmp.require(p.shape[0] == case['num'], '%s: %d points instead of %d', k, p.shape[0],
                  case['num'])
      if not case['norm']:
        on_mesh(p, nrm, v, f, k)
        continue
      cmp.close(np.linalg.norm(nrm, axis=1), np.ones(len(p)), 'length of normals', 1e-5, 0)
      if len(taken) == len(data) == len(balls):
        i = order.index(k)
        on_mesh(taken[i][2], nrm, v, f, k)
        q = taken[i][2]
        lo, hi = q.min(0), q.max(0)
        e = (q - (lo + hi) / 2) / ((hi - lo).max() / 2 + 1e-6)
        cmp.close(balls[i][0], e, 'points handed to the miniball', 1e-5, 0)
        if case['valid']:
          c = balls[i][1]
          e = (e - c) / np.sqrt(((e - c) ** 2).sum(1).max())
        cmp.close(p, e, 'points of ' + k, 1e-5, 0)
      if case['valid']:
        cmp.close(np.linalg.norm(p, axis=1).max(), 1.0, 'radius of ' + k, 1e-5, 0)
      else:
        cmp.close(np.abs(p).max(), 1.0, 'extent of ' + k, 1e-5, 0)
    for f in folders:
      for s in ('train', 'test'):
        os.makedirs(os.path.join(out, f, s), exist_ok=True)
    if not case['whole']:
      put(os.path.join(out, folders[0], 'train', 'readme.txt'), 'no cloud')
      t.script('cls_modelnet', args + ['--run', 'generate_points_filelist'], stub)
    by = {s: {c: sorted(k for k in data if k.startswith('%s/%s/' % (folders[c], s)))
              for c in range(40)} for s in ('train', 'test')}
    for s, ratio in [('train', None), ('test', None), ('test', 1.0)] + \
                    [('train', r) for r in (0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0)]:
      name = 'm40_%s.txt' % s if ratio is None else 'm40_%.2f_%s.txt' % (ratio, s)
      exp = ['%s.ply %d' % (k, c) for c in range(40)
             for k in by[s][c][:math.ceil(len(by[s][c]) * (ratio or 1))]]
      got = lines(os.path.join(root, 'filelist', name))
      cmp.require(got == exp, '%s: %s, expected %s', name, got, exp)
    tag = ['normalised' if case['norm'] else 'raw'] + (['whole'] if case['whole'] else [])
  return tag + (['nt'] if len(data) > 1 else [])


@st.composite
def strat_filelist(draw):
  return {'n': draw(st.lists(st.integers(0, 60), min_size=4, max_size=4)),
          'ratio': draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.9, 1.0])),
          'salt': draw(gen.SALT), 'train': draw(st.booleans())}


def check_filelist(case):
  """Lists with a fraction of the clouds, and moving the files of a suffix."""
  folders = ['%s%d' % ('tab'[i % 3], i) for i in range(40)]
  sub = 'train' if case['train'] else 'test'
  with Tools() as t:
    m = t.load('cls_modelnet', stubs={'cyminiball': {}})
    for i, f in enumerate(folders):
      for s in ('train', 'test'):
        os.makedirs(os.path.join('src', f, s))
    num = {folders[h % 40]: n for h, n in
           zip(gen.hash_ints(4, case['salt'], 1).astype(np.int64), case['n'])}
    files = {}
    for f, n in num.items():
      names = ['%s_%04d.ply' % (f, int(h) % 10000 + 10000 * j)
               for j, h in enumerate(gen.hash_ints(n, case['salt'], 2))]
      for v in names:
        put(os.path.join('src', f, sub, v), v)
      put(os.path.join('src', f, sub, 'a.off'), 'mesh')
      files[f] = sorted(names)
    got, cat = m.get_filelist('src', case['train'], 'ply', case['ratio'])
    exp = [(os.path.join(f, sub, v), i) for i, f in enumerate(sorted(folders))
           for v in files.get(f, [])[:math.ceil(len(files.get(f, [])) * case['ratio'])]]
    cmp.require(list(zip(got, cat)) == exp, 'list %s, expected %s', list(zip(got, cat))[:5],
                exp[:5])
    m.move_files('src', 'des', 'ply')
    left = ['%s/%s/a.off' % (f, sub) for f in num]
    cmp.require(files_under('src') == sorted(left), 'files left behind')
    moved = sorted('%s/%s/%s' % (f, sub, v) for f in files for v in files[f])
    cmp.require(files_under('des') == moved, 'files moved')
    for v in moved:
      cmp.require(open(os.path.join('des', v)).read() == os.path.basename(v), 'content of %s', v)
  return ['nt'] if len(exp) > 1 else []


@st.composite
def strat_image(draw):
  return {'n': draw(st.lists(st.integers(0, 4), min_size=13, max_size=13)),
          'salt': draw(gen.SALT), 'num': draw(st.integers(5, 40)),
          'kinds': draw(st.lists(st.sampled_from(['box', 'tetra', 'open']), min_size=1,
                                 max_size=5)), 'many': draw(st.integers(0, 40))}


def check_image(case):
  with Tools() as t:
    root = t.path('projects', 'data', 'ShapeNetV1', 'x')[:-2]
    data, total = {}, 0
    for c, n in zip(CAT13, case['n']):
      os.makedirs(os.path.join(root, 'shapenet.mesh', c))
      os.makedirs(os.path.join(root, 'renderings', c))
      for v in names_of(n if sum(case['n'][:CAT13.index(c)]) < 12 else 0, case['salt'],
                        5 + CAT13.index(c), True):
        v = c + '/' + v
        data[v] = mesh_of(case['kinds'][total % len(case['kinds'])], case['salt'], 30 + total)
        write_obj(os.path.join(root, 'shapenet.mesh', v + '.obj'), *data[v])
        total += 1
    np.random.seed(case['salt'] % 1000)
    run = ['--sample_num', case['num'], '--run']
    t.script('image2shape', run + ['mesh2points'])
    t.script('image2shape', run + ['ply2npz'])
    for kind in ('ply', 'npz'):
      cmp.require(files_under(os.path.join(root, 'points.' + kind)) ==
                  sorted(k + '.' + kind for k in data), 'files of points.%s', kind)
    for k, (v, f) in data.items():
      w = read_cloud(os.path.join(root, 'points.ply', k + '.ply'))
      p, nrm = xyz(w), xyz(w, 'n')
      cmp.require(p.shape[0] == case['num'], '%d points instead of %d', p.shape[0], case['num'])
      on_mesh(p.astype(np.float64), nrm.astype(np.float64), v, f, k)
      raw = np.load(os.path.join(root, 'points.npz', k + '.npz'))
      cmp.require(set(raw.files) == {'points', 'normals'}, 'entries %s', raw.files)
      cmp.equal(raw['points'], p.astype(np.float16), 'stored points')
      cmp.equal(raw['normals'], nrm.astype(np.float16), 'stored normals')
    # more clouds and renderings; only shapes with both are listed
    both = {c: [] for c in CAT13}
    for j, v in enumerate(names_of(case['many'], case['salt'], 90, True)):
      h = gen.hash_ints(2, case['salt'], 100 + j).astype(np.int64)
      c = CAT13[h[0] % 2]
      if h[1] % 4 < 3:
        put(os.path.join(root, 'points.ply', c, v + '.ply'), '')
      if h[1] % 4 > 0:
        os.makedirs(os.path.join(root, 'renderings', c, v))
      if h[1] % 4 in (1, 2):
        both[c].append(c + '/' + v)
    for j, k in enumerate(data):
      if j % 3:
        os.makedirs(os.path.join(root, 'renderings', k))
        both[k[:8]].append(k)
    t.script('image2shape', run + ['create_filelist'])
    train, test = [], []
    for c in CAT13:
      s = sorted(both[c])
      m = len(s) * 8 // 10
      train, test = train + s[:m], test + s[m:]
    for name, exp in (('train', train), ('test', test)):
      got = lines(os.path.join(root, 'filelist', 'image2shape.%s.txt' % name))
      cmp.require(got == exp, '%s list %s, expected %s', name, got, exp)
  return ['nt'] if len(data) > 1 and len(train) > 1 else []


# ---------------------------------------------------------------------------
# SemanticKITTI
# ---------------------------------------------------------------------------

@st.composite
def strat_kitti(draw):
  return {'n': draw(st.lists(st.integers(0, 3), min_size=22, max_size=22)),
          'salt': draw(gen.SALT)}


def check_kitti(case):
  with Tools() as t:
    os.makedirs('kitti')
    scans = {}
    with zipfile.ZipFile('kitti/data_odometry_velodyne.zip', 'w') as z, \
        zipfile.ZipFile('kitti/data_odometry_labels.zip', 'w') as y:
      for s, n in enumerate(case['n']):
        base = 'dataset/sequences/%02d/' % s
        z.writestr(base + 'velodyne/', '')
        ids = sorted(set(int(h) % 100 for h in gen.hash_ints(n, case['salt'], s)))
        scans[s] = [base + 'velodyne/%06d.bin' % i for i in ids]
        for i in ids[::-1]:
          z.writestr(base + 'velodyne/%06d.bin' % i, b'cloud %d %d' % (s, i))
          if s < 11:
            y.writestr(base + 'labels/%06d.label' % i, b'label %d %d' % (s, i))
    t.script('seg_kitti', ['--root_folder', 'kitti'])
    for s, fs in scans.items():
      for f in fs:
        i = int(f[-10:-4])
        cmp.require(open('kitti/' + f, 'rb').read() == b'cloud %d %d' % (s, i), 'scan %s', f)
        if s < 11:
          g = f.replace('velodyne', 'labels').replace('.bin', '.label')
          cmp.require(open('kitti/' + g, 'rb').read() == b'label %d %d' % (s, i), 'labels %s', g)
    train = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10]
    for name, seqs in (('train', train), ('val', [8]), ('test', range(11, 22)),
                       ('train_val', train + [8])):
      got = lines('kitti/%s.txt' % name)
      exp = [f + ' 0' for s in seqs for f in scans[s]]
      cmp.require(got == exp, '%s list: %s, expected %s', name, got[:5], exp[:5])
  return ['nt'] if sum(case['n']) > 3 else []


# ---------------------------------------------------------------------------
# checkpoints
# ---------------------------------------------------------------------------

@st.composite
def strat_ckpt(draw):
  return {'net': draw(st.sampled_from(['ResNet', 'SegNet', 'LeNet', 'HRNet', 'UNet',
                                       'AutoEncoder'])), 'cin': draw(st.integers(1, 5)),
          'seed': draw(st.integers(0, 99)), 'flat': draw(st.booleans()),
          'outer': draw(st.sampled_from(['', '', 'module.', 'net.body.'])),
          'skips': draw(st.lists(st.sampled_from(['conv', 'bn', 'weight', 'linear', 'running',
                                                  'bias', 'zzz']), max_size=3)),
          'tree': draw(st.lists(st.lists(st.integers(0, 5), max_size=3), max_size=3)),
          'salt': draw(gen.SALT)}


def build(case):
  import ocnn
  M, c = ocnn.models, case['cin']
  torch.manual_seed(case['seed'])
  return {'ResNet': lambda: M.ResNet(c, 5, 1, 2), 'SegNet': lambda: M.SegNet(c, 3, 2),
          'LeNet': lambda: M.LeNet(c, 4, 2), 'HRNet': lambda: M.HRNet(c, 4),
          'UNet': lambda: M.UNet(c, 3), 'AutoEncoder': lambda: M.AutoEncoder(c, 2, 3, 2)
          }[case['net']]()


def legacy(state, flat):
  """The parameters under the names and in the layout of the first release."""
  out, names = {}, {}
  for k, v in state.items():
    old = k
    if v.ndim == 3 and k.endswith('conv.weights'):      # [kernel, in, out] -> [out, in, kernel]
      if (v.shape[0] == 8) != ('downsample' in k or 'upsample' in k):
        continue
      w = v.permute(2, 1, 0).contiguous()
      w = w.view(w.shape[0], -1) if flat else w
    elif k.endswith('linear.weight') and v.ndim == 2:
      if '.conv1x1.' in k:          # the names of these layers are not known
        continue
      old = k.replace('conv.linear', 'conv1x1.conv1x1') if 'conv.linear' in k else \
          k.replace('linear', 'conv1x1')
      w = v.unsqueeze(2)
    elif k.endswith('linear.bias') and 'conv.linear' not in k:
      old, w = k.replace('linear', 'conv1x1'), v
    else:
      w = v
    out[old], names[old] = w.clone(), k
  return out, names


def check_ckpt(case):
  outer = case.get('outer', '')      # the network as a part of another one
  state = {outer + k: v for k, v in build(case).state_dict().items()}
  old, names = legacy(state, case['flat'])
  with Tools() as t:
    torch.save(old, 'net.pth')
    t.script('upgrade_ckpt', ['net.pth'])
    new = torch.load('net.upgrade.pth', map_location='cpu')
    cmp.require(set(new) == set(names.values()), 'names after the upgrade: %s',
                sorted(set(new) ^ set(names.values()))[:6])
    for k, v in new.items():
      cmp.equal(v, state[k], 'parameter %s after the upgrade' % k)
    again = torch.load('net.pth', map_location='cpu')
    cmp.require(set(again) == set(old), 'the old checkpoint was modified')
    net = build(case)
    net.load_state_dict({k[len(outer):]: v for k, v in new.items()}, strict=False)
    # listing
    torch.save(dict(state), 'new.pth')
    t.printed()
    t.script('parse_ckpt', ['--ckpt', 'new.pth'] +
             (['--skips'] + case['skips'] if case['skips'] else []))
    got = [s.strip() for s in t.printed().splitlines() if s.strip()]
    exp = [(k, v) for k, v in state.items() if not any(s in k for s in case['skips'])]
    cmp.require(len(got) == len(exp) + 1, '%d parameters listed instead of %d', len(got) - 1,
                len(exp))
    for i, (k, v) in enumerate(exp):
      e = '%d, %s, [%s], ' % (i, k, '; '.join(str(s) for s in v.shape))
      cmp.require(got[i].startswith(e) and float(got[i][len(e):]) == v.numel(),
                  'listed as "%s"', got[i])
    cmp.require(float(got[-1].split(':')[1]) == sum(v.numel() for _, v in exp), 'total: %s',
                got[-1])
    # cleaning up
    keep = ['logs/readme.txt', 'logs/a/notes.txt']
    for k in keep:
      put(k, 'x')
    for i, row in enumerate(case['tree']):
      os.makedirs('logs/cat%d/other' % i, exist_ok=True)
      for j, n in enumerate(row):
        base = 'logs/cat%d/ratio_%d/' % (i, j)
        os.makedirs(base + 'checkpoints')
        put(base + 'log.csv', 'x')
        keep.append(base + 'log.csv')
        fs = ['%05d.%s' % (e * 100, s) for e in range(1, n // 2 + 2)
              for s in ('model.pth', 'solver.tar')][:n]
        for f in [fs[h] for h in np.argsort(gen.hash_ints(n, case['salt'], i * 9 + j))]:
          put(base + 'checkpoints/' + f, f)
        keep += [base + 'checkpoints/' + f for f in (fs[-2:-1] if n > 1 else fs)]
    t.script('cleanup_ckpt', ['logs'])
    cmp.require(['logs/' + f for f in files_under('logs')] == sorted(keep),
                'files after cleaning up: %s, expected %s', files_under('logs'), sorted(keep))
  return [case['net'], 'nt']


# ---------------------------------------------------------------------------
# writing clouds
# ---------------------------------------------------------------------------

@st.composite
def strat_save(draw):
  return {'n': draw(st.integers(0, 40)), 'normals': draw(st.booleans()),
          'colors': draw(st.booleans()), 'labels': draw(st.booleans()),
          'text': draw(st.booleans()), 'salt': draw(gen.SALT),
          'name': draw(st.sampled_from(['a.ply', 'x/a.ply', 'x/y/a.ply', './a.ply', 'x//a.ply']))}


def check_save(case):
  n, s = case['n'], case['salt']
  x = {'points': reals(n, 3, s, 1)}
  if case['normals']:
    x['normals'] = reals(n, 3, s, 2)
  if case['colors']:
    x['colors'] = gen.hash_ints(3 * n, s, 3).reshape(n, 3) % 256
  if case['labels']:
    x['labels'] = gen.hash_ints(n, s, 4).reshape(n, 1) % 256
  with Tools() as t:
    u = t.load('utils')
    for _ in range(2):      # an existing file is replaced
      u.save_points_to_ply(case['name'], text=case['text'], **x)
    v = read_cloud(case['name'])
    cols = {'points': 'xyz', 'normals': ['nx', 'ny', 'nz'], 'colors': ['red', 'green', 'blue'],
            'labels': ['label']}
    exp = [c for k in cols if k in x for c in cols[k]]
    cmp.require(list(v) == exp, 'columns %s instead of %s', list(v), exp)
    for k in x:
      got = np.stack([v[c] for c in cols[k]], 1)
      e = x[k].astype(np.float32) if k in ('points', 'normals') else x[k].astype(np.uint8)
      cmp.require(got.dtype == e.dtype, '%s stored as %s', k, got.dtype)
      cmp.equal(got, e, 'saved ' + k)
    head = open(case['name'], 'rb').read(40)
    cmp.require((b'ascii' in head) == case['text'], 'format of the file')
  return ['nt'] if n > 1 else []


EX_SAVE = {'n': 2, 'normals': True, 'colors': True, 'labels': True, 'text': False, 'salt': 1,
           'name': 'a.ply'}
FACETS = [
    Facet('shapenet', strat_shapenet, check_shapenet, 250, 5000),
    Facet('autoencoder', strat_ae, check_ae, 300, 5000),
    Facet('modelnet', strat_modelnet, check_modelnet, 120, 2500),
    Facet('filelist', strat_filelist, check_filelist, 120, 1500),
    Facet('image2shape', strat_image, check_image, 100, 2000),
    Facet('kitti', strat_kitti, check_kitti, 150, 2000),
    Facet('checkpoints', strat_ckpt, check_ckpt, 100, 1500, heavy=True),
    # the example: a file name without a folder (repaired)
    Facet('clouds', strat_save, check_save, 500, 10000, examples=[EX_SAVE]),
]
