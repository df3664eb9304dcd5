"""C32: the ScanNet tools keep points, normals and labels together from scan to score."""
import json
import os
import zipfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import cmp, gen
from vlib.core import Facet
from vlib.tool import Tools

PROPERTY = 'C32'
RULE = ('synthetic scans (ply meshes with colours, label meshes, segment and aggregation files, '
        'axis alignments, label table) run through the real preprocessing script in a scratch '
        'directory; point clouds of several extents and positions cut into chunks; predicted '
        'probabilities of whole scans and of chunks 0..14 merged into label files; label files '
        'scored; a scan with every id of a benchmark there and back; non-trivial: several scans, '
        'chunks or classes')
ASSUMPTIONS = ['the alpha channel of a scan is constant (asserted by the script)',
               'every scored file has at least one labelled point',
               'chunks with fewer than 3000 points are dropped by design']

# the label ids of the ScanNet benchmarks; 0 is "unlabelled"
IDS20 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 24, 28, 33, 34, 36, 39]
IDS200 = [int(v) for v in '''0 1 2 3 4 5 6 7 8 9 10 11 13 14 15 16 17 18 19 21 22 23 24 26 27 28 29
31 32 33 34 35 36 38 39 40 41 42 44 45 46 47 48 49 50 51 52 54 55 56 57 58 59 62 63 64 65 66 67 68
69 70 71 72 73 74 75 76 77 78 79 80 82 84 86 87 88 89 90 93 95 96 97 98 99 100 101 102 103 104 105
106 107 110 112 115 116 118 120 121 122 125 128 130 131 132 134 136 138 139 140 141 145 148 154 155
156 157 159 161 163 165 166 168 169 170 177 180 185 188 191 193 195 202 208 213 214 221 229 230 232
233 242 250 261 264 276 283 286 300 304 312 323 325 331 342 356 370 392 395 399 408 417 488 540 562
570 572 581 609 748 776 1156 1163 1164 1165 1166 1167 1168 1169 1170 1171 1172 1173 1174 1175 1176
1178 1179 1180 1181 1182 1183 1184 1185 1186 1187 1188 1189 1190 1191'''.split()]
# raw categories of the label table: every id of the benchmark and its neighbours
NAMED = sorted(set(IDS200[1:]) | {v + d for v in IDS200[1:] for d in (-1, 1) if v + d} | {1000})
OTHER = [13, 15, 17, 20, 25, 40, 1000, 1177, 1191, 1156]


def write_mesh(name, vertex, face, cols, text=False):
  """An independent writer of the ply files of a scan."""
  n = vertex.shape[0]
  head = ['ply', 'format ascii 1.0', 'element vertex %d' % n]
  head += ['property float ' + c for c in 'xyz']
  head += ['property %s %s' % (t, c) for c, t, _ in cols]
  head += ['element face %d' % face.shape[0], 'property list uchar int vertex_indices',
           'end_header']
  rows = [' '.join(['%r' % float(v) for v in vertex[i]] + ['%d' % c[2][i] for c in cols])
          for i in range(n)]
  rows += ['3 %d %d %d' % tuple(f) for f in face]
  with open(name, 'w') as f:
    f.write('\n'.join(head + rows) + '\n')


def read_cloud(name):
  from plyfile import PlyData
  v = PlyData.read(name)['vertex'].data
  return {k: np.asarray(v[k]) for k in v.dtype.names}


def vertex_normals(vertex, face):
  """Sum of the incident area vectors, normalised."""
  v = vertex.astype(np.float64)
  c = np.cross(v[face[:, 1]] - v[face[:, 0]], v[face[:, 2]] - v[face[:, 0]]) / 2
  out = np.zeros_like(v)
  for k in range(3):
    np.add.at(out, face[:, k], c)
  return out


# ---------------------------------------------------------------------------
# preprocessing
# ---------------------------------------------------------------------------

@st.composite
def strat_prep(draw):
  def scans(n):
    return [{'n': draw(st.integers(3, 30)), 'f': draw(st.integers(1, 30)),
             'salt': draw(gen.SALT)} for _ in range(n)]
  return {'train': scans(draw(st.integers(0, 2))), 'test': scans(draw(st.integers(0, 2))),
          'npz': draw(st.booleans()), 'align': draw(st.sampled_from([0, 0, 1, 2])),
          'big': draw(st.booleans()), 'again': draw(st.booleans()),
          'names': draw(st.lists(st.sampled_from(range(len(NAMED))), min_size=2, max_size=2))}


def write_scan(folder, sid, sc, train, case):
  n, salt = sc['n'], sc['salt']
  os.makedirs(folder)
  v = gen.int_array((n, 3), salt, 1, -40, 40).astype(np.float64) / 8
  f = gen.hash_ints(sc['f'] * 3, salt, 2).reshape(-1, 3) % n
  rgb = gen.hash_ints(n * 3, salt, 3).reshape(n, 3) % 256
  cols = [(c, 'uchar', rgb[:, i]) for i, c in enumerate(('red', 'green', 'blue'))]
  base = os.path.join(folder, sid)
  write_mesh(base + '_vh_clean_2.ply', v, f, cols + [('alpha', 'uchar', np.full(n, 255))])
  M = np.eye(4)
  if case['align'] == 1:      # a rotation by multiples of 90 degrees and a shift
    p = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
    M[:3, :3] = np.linalg.matrix_power(np.array(p), int(gen.hash_ints(1, salt, 4)[0] % 4))
    M[:3, 3] = gen.int_array((3,), salt, 5, -16, 16) / 4
  with open(base + '.txt', 'w') as fid:
    fid.write('numDepthFrames = 5\n')
    if case['align'] == 1:
      fid.write('axisAlignment = ' + ' '.join('%f' % x for x in M.reshape(-1)) + ' \n')
    fid.write('sceneType = Office\n')
  label = np.zeros(n, int)
  if train:
    pool = IDS20 + OTHER
    label = np.array(pool)[gen.hash_ints(n, salt, 6) % len(pool)]
    if case['big']:           # labels come from segments and groups
      seg = gen.hash_ints(n, salt, 7) % 6
      grp = gen.hash_ints(6, salt, 8) % 4          # segment -> group, 3: no group
      a, b = [NAMED[i] for i in case['names']]
      names = ['kind %d' % a, 'kind %d' % b, 'rare']
      ids = {'kind %d' % v: v for v in NAMED}
      ids['rare'] = 1191
      order = gen.hash_ints(3, salt, 9)
      nm = {g: names[int(order[g] % 3)] for g in range(3)}
      groups = [{'id': g, 'label': nm[g] if g != 2 or salt % 2 else 'not in the table',
                 'segments': [int(s) for s in range(6) if grp[s] == g]} for g in range(3)]
      with open(base + '_vh_clean_2.0.010000.segs.json', 'w') as fid:
        json.dump({'segIndices': [int(s) for s in seg]}, fid)
      with open(base + '_vh_clean.aggregation.json', 'w') as fid:
        json.dump({'segGroups': groups}, fid)
      label = np.zeros(n, int)
      for i in range(n):
        g = grp[seg[i]]
        if g < 3:
          x = ids.get(groups[g]['label'], 0)
          label[i] = x if x in IDS200 else 0
    else:
      write_mesh(base + '_vh_clean_2.labels.ply', v, f, cols +
                 [('alpha', 'uchar', np.full(n, 255)), ('label', 'ushort', label)])
  w = v @ M[:3, :3].T + M[:3, 3]
  return w, f, rgb, label


def check_prep(case):
  ids = IDS200 if case['big'] else IDS20
  with Tools() as t:
    src, dst = t.path('raw'), t.path('out')
    os.makedirs(dst)
    with zipfile.ZipFile(os.path.join(dst, 'filelist.zip'), 'w') as z:
      z.writestr('scannetv2-labels.combined.tsv',
                 'id\traw_category\tcategory\n' +
                 ''.join('%d\tkind %d\tx\n' % (v, v) for v in NAMED) +
                 '1191\trare\tz\n7\trare\tz\n')
    exp = {}
    for sub, folder in (('train', 'scans'), ('test', 'scans_test')):
      os.makedirs(os.path.join(src, folder))
      for i, sc in enumerate(case[sub]):
        sid = 'scene%04d_%02d' % (i + 3, i)
        exp[sub, sid] = write_scan(os.path.join(src, folder, sid), sid, sc, sub == 'train', case)
    args = ['--path_in', src, '--path_out', dst, '--suffix_out',
            '.npz' if case['npz'] else '.ply'] + (
                ['--align_axis'] if case['align'] else []) + (
                    ['--scannet200'] if case['big'] else []) + ['--run', 'process_scannet']
    t.script('seg_scannet', args)
    if case['again']:          # a second run keeps the results
      stamp = {k: None for k in exp}
      for sub, sid in exp:
        p = os.path.join(dst, sub, sid + ('.npz' if case['npz'] else '.ply'))
        stamp[sub, sid] = open(p, 'rb').read()
      t.script('seg_scannet', args)
      for (sub, sid), v in stamp.items():
        p = os.path.join(dst, sub, sid + ('.npz' if case['npz'] else '.ply'))
        cmp.require(open(p, 'rb').read() == v, '%s changed in a second run', sid)
    for (sub, sid), (v, f, rgb, label) in exp.items():
      base = os.path.join(dst, sub, sid)
      if case['npz']:
        with np.load(base + '.npz') as z:
          out = dict(z)
        xyz, nrm, col, lab = out['points'], out['normals'], out['colors'], out['labels']
        cmp.require(xyz.dtype == nrm.dtype == col.dtype == np.float32 and lab.dtype == np.int32,
                    'types of the stored arrays')
      else:
        c = read_cloud(base + '.ply')
        xyz = np.stack([c['x'], c['y'], c['z']], 1)
        nrm = np.stack([c['nx'], c['ny'], c['nz']], 1)
        col = np.stack([c['red'], c['green'], c['blue']], 1)
        lab = c['label']
      cmp.close(xyz, v, 'points of ' + sid, 1e-5, 1e-6)
      cmp.equal(col.astype(int), rgb, 'colours of ' + sid)
      a = vertex_normals(v, f)
      ln = np.sqrt((a ** 2).sum(1))
      big = ln > 1e-3
      cmp.close(nrm[big], a[big] / ln[big][:, None], 'normals of ' + sid, 2e-3, 0)
      cmp.require((np.sqrt((nrm.astype(np.float64) ** 2).sum(1)) < 1.001).all(),
                  'normals longer than 1')
      free = np.ones(v.shape[0], bool)
      free[f.reshape(-1)] = False
      cmp.require((nrm[free] == 0).all(), 'a vertex without faces has a normal')
      if sub == 'train':
        m = {x: i for i, x in enumerate(ids)}
        cmp.equal(lab.astype(int), np.array([m.get(int(x), 0) for x in label]),
                  'labels of ' + sid)
        txt = [int(s) for s in open(base + '.txt').read().split()]
        cmp.equal(np.array(txt, int), label, 'original labels of ' + sid)
    for sub in ('train', 'test'):
      got = sorted(x for x in os.listdir(os.path.join(dst, sub)) if not x.endswith('.txt'))
      cmp.require(got == sorted(s + ('.npz' if case['npz'] else '.ply')
                                for b, s in exp if b == sub), 'files %s', got)
  return ['nt'] if len(exp) > 1 else []


@st.composite
def strat_table(draw):
  return {'big': draw(st.booleans()), 'salt': draw(gen.SALT), 'per': draw(st.integers(1, 3))}


def check_table(case):
  """Every id of a benchmark (and ids outside of it) there and back: a scan which has all of
  them, its training labels, and the label file of a perfect prediction."""
  ids = IDS200 if case['big'] else IDS20
  salt, sid = case['salt'], 'scene0007_00'
  pool = np.array(sorted(set(NAMED) | set(ids)))
  raw = np.repeat(pool, case['per'])
  raw = raw[np.argsort(gen.hash_ints(raw.size, salt, 1))]
  n = raw.size
  with Tools() as t:
    src, dst = t.path('raw'), t.path('out')
    os.makedirs(dst), os.makedirs(os.path.join(src, 'scans_test'))
    folder = os.path.join(src, 'scans', sid)
    os.makedirs(folder)
    with zipfile.ZipFile(os.path.join(dst, 'filelist.zip'), 'w') as z:
      z.writestr('scannetv2-labels.combined.tsv', 'id\traw_category\tcategory\n' +
                 ''.join('%d\tkind %d\tx\n' % (v, v) for v in NAMED))
    v = gen.int_array((n, 3), salt, 2, -40, 40) / 8.0
    f = gen.hash_ints(30, salt, 3).reshape(-1, 3) % n
    cols = [(c, 'uchar', gen.hash_ints(n, salt, 4 + i) % 256)
            for i, c in enumerate(('red', 'green', 'blue'))]
    cols += [('alpha', 'uchar', np.full(n, 255))]
    base = os.path.join(folder, sid)
    write_mesh(base + '_vh_clean_2.ply', v, f, cols)
    if case['big']:
      with open(base + '_vh_clean_2.0.010000.segs.json', 'w') as fid:
        json.dump({'segIndices': list(range(n))}, fid)
      groups = [{'id': i, 'label': 'kind %d' % x if x else 'no name',
                 'segments': [int(j) for j in np.flatnonzero(raw == x)]}
                for i, x in enumerate(pool)]
      with open(base + '_vh_clean.aggregation.json', 'w') as fid:
        json.dump({'segGroups': groups}, fid)
    else:
      write_mesh(base + '_vh_clean_2.labels.ply', v, f, cols + [('label', 'ushort', raw)])
    base = ['--scannet200'] if case['big'] else []
    t.script('seg_scannet', base + ['--path_in', src, '--path_out', dst, '--suffix_out', '.npz',
                                    '--run', 'process_scannet'])
    with np.load(os.path.join(dst, 'train', sid + '.npz')) as z:
      lab = z['labels']
    m = {x: i for i, x in enumerate(ids)}
    want = np.array([m.get(int(x), 0) for x in raw])
    cmp.equal(lab.astype(int), want, 'classes of all the ids')
    txt = np.array([int(s) for s in open(os.path.join(dst, 'train', sid + '.txt')).read().split()])
    if case['big']:
      raw = np.where(np.isin(raw, ids), raw, 0)
    cmp.equal(txt, raw, 'ids of the scan')
    # a perfect prediction gives the ids again
    pred, out = t.path('pred'), t.path('seg')
    os.makedirs(pred)
    np.savez(os.path.join(pred, sid + '.eval.npz'),
             prob=np.eye(len(ids), dtype=np.float32)[want])
    with open(t.path('list.txt'), 'w') as fid:
      fid.write(sid + '.npz\n')
    t.script('seg_scannet', base + ['--path_in', os.path.join(dst, 'train'), '--path_pred', pred,
                                    '--path_out', out, '--filelist', t.path('list.txt'), '--run',
                                    'generate_output_seg'])
    got = np.array([int(s) for s in open(os.path.join(out, sid + '.txt')).read().split()])
    cmp.equal(got, np.where(np.isin(raw, ids), raw, 0), 'ids of a perfect prediction')
    # and a perfect score, of all the classes of the benchmark
    t.printed()
    t.script('seg_scannet', base + ['--path_in', os.path.join(dst, 'train'), '--path_pred', out,
                                    '--run', 'calc_iou'])
    text = [s.strip() for s in t.printed().splitlines()]
    score = [s for s in text if s.startswith(('Accu:', 'IoU:')) and ',' not in s]
    cmp.require(sorted(s.split(':')[0] for s in score) == ['Accu', 'IoU'] and
                all(abs(float(s.split(':')[1]) - 1) < 1e-6 for s in score),
                'scores of a perfect prediction: %s', score)
  return ['nt', 'all-ids']


# ---------------------------------------------------------------------------
# chunks
# ---------------------------------------------------------------------------

@st.composite
def strat_chunk(draw):
  return {'n': draw(st.integers(3000, 14000)), 'salt': draw(gen.SALT),
          'min': [draw(st.sampled_from([0.0, -6.0, -3.5, 2.0, -20.0])) for _ in range(3)],
          'ext': [draw(st.sampled_from([3.0, 8.0, 9.5, 10.0, 10.5, 13.0, 15.0, 15.5, 19.0]))
                  for _ in range(2)] + [draw(st.sampled_from([2.0, 3.0, 10.5]))],
          'clump': draw(st.integers(1, 3)), 'sizes': draw(st.sampled_from([None, None, 0, 1]))}


def check_chunk(case):
  n = case['n']
  ext, lo = np.array(case['ext']), np.array(case['min'])
  u = gen.hash_ints(n * 3, case['salt'], 1).reshape(n, 3) % 1025 / 1024.0
  if case['clump'] > 1:       # several dense regions
    c = gen.hash_ints(n, case['salt'], 2) % case['clump']
    u = np.where(c[:, None] == 0, u * 0.5, np.where(c[:, None] == 1, 1 - u * 0.5, u))
  u[0], u[1] = 0, 1
  p = np.round((u * ext) * 64) / 64 + lo
  pc = np.concatenate([p, gen.int_array((n, 3), case['salt'], 3, -4, 4) / 4.0,
                       gen.hash_ints(n * 4, case['salt'], 4).reshape(n, 4) % 200], 1)
  kw, crop, stride = {}, 10.0, 5.0
  if case['sizes'] is not None:
    crop, stride = [(8.0, 4.0), (12.0, 6.0)][case['sizes']]
    kw = {'cropsize': crop, 'stride': stride}
  keep = pc.copy()
  with Tools() as t:
    mod = t.load('seg_scannet', [])
    f = Path(t.path('data', 'scene0001_00.ply'))
    mod.generate_chunks(f, pc, **kw)
    names = sorted(os.listdir(f.parent))
    if (ext < crop).all():
      cmp.require(not names, 'a small scan was cut into %d chunks', len(names) // 2)
      return ['small']
    ids = sorted(int(s.split('.chunk_')[1].split('.')[0]) for s in names if s.endswith('.npy'))
    m = len(ids)
    cmp.require(ids == list(range(m)) and names == sorted(
        ['scene0001_00.chunk_%d.ply' % i for i in range(m)] +
        ['scene0001_00.chunk_%d.mask.npy' % i for i in range(m)]), 'files %s', names[:9])
    masks = []
    for i in range(m):
      mask = np.load(f.parent / ('scene0001_00.chunk_%d.mask.npy' % i))
      cmp.require(mask.dtype == bool and mask.shape == (n,), 'mask of chunk %d', i)
      c = read_cloud(f.parent / ('scene0001_00.chunk_%d.ply' % i))
      cmp.require(tuple(c) == ('x', 'y', 'z', 'nx', 'ny', 'nz', 'red', 'green', 'blue',
                               'label'), 'properties of a chunk')
      got = np.stack([c[k].astype(np.float64) for k in c], 1)
      cmp.equal(got, pc[mask].astype(np.float32).astype(np.float64), 'content of chunk %d' % i)
      masks.append(mask)
      q = p[mask]
      cmp.require((np.ptp(q, axis=0) <= crop + 1e-9).all(), 'chunk %d is larger than %g', i, crop)
      cmp.require(mask.sum() >= 3000, 'chunk %d has only %d points', i, mask.sum())
  cmp.equal(pc, keep, 'point cloud given to generate_chunks')
  # every window of the grid over the bounding box with enough points is a chunk
  steps = [int(np.ceil(max(e - crop, 0) / stride)) + 1 for e in np.ptp(p, axis=0)]
  seen = set(v.tobytes() for v in masks)
  tags, want = ['cut'], 0
  for a in np.ndindex(*steps):
    o = p.min(0) + np.array(a) * stride
    w = ((p >= o) & (p <= o + crop)).all(1)
    if w.sum() >= 3000:
      want += 1
      cmp.require(w.tobytes() in seen, 'the window at %s is missing', o.tolist())
  cmp.require(want == m, '%d chunks, expected %d', m, want)
  return tags + (['nt'] if m > 1 else [])


# ---------------------------------------------------------------------------
# merging predictions and scoring
# ---------------------------------------------------------------------------

@st.composite
def strat_merge(draw):
  scans = [{'n': draw(st.integers(1, 30)), 'whole': draw(st.integers(0, 3)) > 0,
            'chunks': draw(st.lists(st.integers(0, 14), max_size=5, unique=True)),
            'salt': draw(gen.SALT)} for _ in range(draw(st.integers(1, 3)))]
  return {'scans': scans, 'big': draw(st.booleans()), 'ext': draw(st.sampled_from(
      ['ply', 'npz'])), 'shuffle': draw(gen.SALT), 'extra': draw(st.sampled_from(
          ['', ' 0', ' 0 x'])), 'truth': draw(st.integers(0, 4)), 'tsalt': draw(gen.SALT)}


def check_merge(case):
  ids = IDS200 if case['big'] else IDS20
  k = len(ids)
  with Tools() as t:
    pred, data, out = t.path('pred'), t.path('data'), t.path('out', 'seg')
    os.makedirs(pred), os.makedirs(data)
    lines, votes = [], {}
    for i, s in enumerate(case['scans']):
      sid = 'scene%04d_00' % (i + 10)
      total = np.zeros((s['n'], k))
      whole = s['whole'] or not s['chunks']
      if whole:
        x = gen.real_data((s['n'], k), s['salt'], 1).numpy().astype(np.float64)
        np.savez(os.path.join(pred, sid + '.eval.npz'), prob=x.astype(np.float32))
        total += x.astype(np.float32)
        lines.append(sid)
      for c in s['chunks']:
        m = gen.hash_ints(s['n'], s['salt'], 10 + c) % 3 > 0
        x = gen.real_data((int(m.sum()), k), s['salt'], 30 + c).numpy()
        name = '%s.chunk_%d' % (sid, c)
        np.savez(os.path.join(pred, name + '.eval.npz'), prob=x)
        np.save(os.path.join(data, name + '.mask.npy'), m)
        total[m] += x
        lines.append(name)
      votes[sid] = total
    order = np.argsort(gen.hash_ints(len(lines), case['shuffle']))
    fl = t.path('list.txt')
    with open(fl, 'w') as f:
      f.write(''.join('%s.%s%s\n' % (lines[i], case['ext'], case['extra']) for i in order))
    base = ['--path_in', data] + (['--scannet200'] if case['big'] else [])
    t.script('seg_scannet', base + ['--path_pred', pred, '--path_out', out, '--filelist', fl,
                                    '--run', 'generate_output_seg'])
    cmp.require(sorted(os.listdir(out)) == sorted(s + '.txt' for s in votes), 'label files %s',
                sorted(os.listdir(out)))
    final = {}
    for sid, v in votes.items():
      got = np.array([int(x) for x in open(os.path.join(out, sid + '.txt')).read().split()])
      cmp.shape(got, (v.shape[0],), 'labels of ' + sid)
      final[sid] = got
      top = np.sort(v, 1)
      sure = top[:, -1] - top[:, -2] > 1e-5
      cmp.equal(got[sure], np.array(ids)[v.argmax(1)][sure], 'labels of ' + sid)
    # scores
    acc, ins, uni = [], dict.fromkeys(ids[1:], 0), dict.fromkeys(ids[1:], 0)
    for j, (sid, p) in enumerate(sorted(final.items())):
      pool = ids[1:] + [0, 0, 13 if not case['big'] else 12, 1000]
      g = np.array(pool)[gen.hash_ints(p.size, case['tsalt'] + j, 5) % len(pool)]
      agree = gen.hash_ints(p.size, case['tsalt'] + j, 6) % 5 < case['truth']
      g = np.where(agree, p, g)
      g[0] = ids[1 + j]
      np.savetxt(os.path.join(data, sid + '.txt'), g, fmt='%d')
      valid = [(a, b) for a, b in zip(p.tolist(), g.tolist()) if b in ins]
      acc.append(np.mean([a == b for a, b in valid]))
      for a, b in valid:
        for c in {a, b}:
          if c in uni:
            uni[c] += 1
        if a == b:
          ins[a] += 1
    t.printed()
    t.script('seg_scannet', base + ['--path_pred', out, '--run', 'calc_iou'])
    text = [s.strip() for s in t.printed().splitlines()]
    got = {s.split(':')[0]: s.split(':')[1] for s in text
           if s.startswith(('Accu:', 'IoU:')) and ',' not in s}
    cmp.require(set(got) == {'Accu', 'IoU'}, 'printed scores %s', text[-3:])
    cmp.close(float(got['Accu']), np.mean(acc), 'accuracy', 2e-6, 0)
    iou = np.mean([ins[c] / uni[c] if uni[c] else 0.0 for c in ids[1:]])
    cmp.close(float(got['IoU']), iou, 'IoU', 2e-6, 0)
  return ['nt'] if len(lines) > 1 else []


EX_CHUNK = {'n': 6000, 'salt': 3, 'min': [-6.0, -6.0, 0.0], 'ext': [13.0, 13.0, 3.0],
            'clump': 1, 'sizes': None}
EX_MERGE = {'scans': [{'n': 20, 'whole': True, 'chunks': [3, 11], 'salt': 5}], 'big': False,
            'ext': 'ply', 'shuffle': 1, 'extra': ' 0', 'truth': 3, 'tsalt': 2}
FACETS = [
    Facet('preprocess', strat_prep, check_prep, 400, 8000),
    Facet('all-ids', strat_table, check_table, 16, 200,
          examples=[{'big': True, 'salt': 1, 'per': 1}, {'big': False, 'salt': 2, 'per': 1}]),
    # the example: windows over scans which do not start at the origin (repaired)
    Facet('chunks', strat_chunk, check_chunk, 240, 4000, examples=[EX_CHUNK], heavy=True),
    # the example: chunk ids of two digits (repaired)
    Facet('merge', strat_merge, check_merge, 500, 10000, examples=[EX_MERGE]),
]
