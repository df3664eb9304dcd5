"""C30: the project solvers report and store exactly what the network predicted."""
import os
import shutil
import sys
import tempfile
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.dataset import CollateBatch
from ocnn.octree import Octree, Points, merge_octrees

from vlib import boot, cmp, gen, models, oct, ref
from vlib.core import Facet

PROPERTY = 'C30'
RULE = ('the real solver classes (segmentation, classification, auto-encoder, completion, '
        'image2shape) on the CPU with a recording stand-in for the network whose predictions are '
        'a known function of the queries; batches of 1..3 clouds with labels below and above the '
        'mask, delivered with or without octrees, histories of several epochs with clipped '
        'points; losses, accuracies, IoUs, votes, stored files and decoded point clouds are '
        'compared with set-based numpy references; non-trivial: more than one class, sample or '
        'epoch')
ASSUMPTIONS = ['`.cuda()` is replaced by the identity (there is no GPU)',
               'at least one point of a batch is labelled above the mask',
               'evaluation uses a mask below all labels, file names have an extension of 3 '
               'letters', 'ties of the largest logit do not occur']


class Flags(dict):

  def __getattr__(self, k):
    try:
      return self[k]
    except KeyError:
      raise AttributeError(k)


class Env:
  """No GPU, a scratch directory, no progress output."""

  def __enter__(self):
    ident = lambda self, *a, **k: self   # noqa: E731
    self.ps = [mock.patch.object(c, 'cuda', ident)
               for c in (torch.Tensor, torch.nn.Module, Octree, Points)]
    self.ps.append(mock.patch.object(torch.cuda, 'current_device', lambda: 'cpu'))
    for p in self.ps:
      p.start()
    self.dir = tempfile.mkdtemp(prefix='verif-c30-')
    self.err, sys.stderr = sys.stderr, open(os.devnull, 'w')
    self.out, sys.stdout = sys.stdout, sys.stderr
    return self.dir

  def __exit__(self, *a):
    sys.stderr.close()
    sys.stderr, sys.stdout = self.err, self.out
    for p in self.ps:
      p.stop()
    shutil.rmtree(self.dir, ignore_errors=True)


def solver_of(module, name, flags, logdir, model):
  mod = boot.import_project(module)
  flags = Flags(flags, SOLVER=Flags(flags.get('SOLVER', {}), gpu=(0,), progress_bar=False,
                                    logdir=logdir))
  s = getattr(mod, name)(flags)
  s.logdir = logdir
  s.model = model
  return s


class Stub(torch.nn.Module):
  """Predictions are a fixed function of the query points; the calls are recorded."""

  def __init__(self, num_class, salt):
    super().__init__()
    self.w = torch.nn.Parameter(gen.real_data((4, num_class), salt, 21) * 9)
    self.b = torch.nn.Parameter(gen.real_data((1, num_class), salt, 22))
    self.calls = []
    self.shift = 0.0

  def predict(self, q):
    return torch.sin(q @ self.w + self.shift) * 4 + self.b

  def forward(self, data, octree, depth, query):
    self.calls.append((data, octree, depth, query))
    return self.predict(query)


def log_softmax(x):
  x = x.astype(np.float64)
  x = x - x.max(1, keepdims=True)
  return x - np.log(np.exp(x).sum(1, keepdims=True))


def metrics(logit, label, k):
  """Cross entropy, accuracy, shape IoU, intersections and unions."""
  ls = log_softmax(logit)
  label = label.astype(int)
  loss = -ls[np.arange(label.size), label].mean()
  pred = logit.argmax(1)
  accu = float(np.mean(pred == label))
  ps = [set(np.nonzero(pred == c)[0]) for c in range(k)]
  gs = [set(np.nonzero(label == c)[0]) for c in range(k)]
  ins = [len(p & g) for p, g in zip(ps, gs)]
  uni = [len(p | g) for p, g in zip(ps, gs)]
  ious = [i / u for i, u, g in zip(ins, uni, gs) if g]
  return loss, accu, np.mean(ious) if ious else 0.0, ins, uni


# ---------------------------------------------------------------------------
# segmentation: training and test steps
# ---------------------------------------------------------------------------

@st.composite
def strat_seg(draw):
  case = draw(gen.octree_case(min_depth=2, max_depth=4, max_full=2, max_batch=3, bulk=40,
                              max_shapes=2))
  case.update(classes=draw(st.integers(2, 6)), mask=draw(st.integers(-1, 2)),
              feat=draw(st.sampled_from(['ND', 'NDF', 'L', 'P', 'F'])),
              nempty=draw(st.booleans()), built=draw(st.booleans()), nsalt=draw(gen.SALT),
              fsalt=draw(gen.SALT), salt=draw(gen.SALT), batches=draw(st.integers(1, 3)),
              pick=draw(st.integers(0, 3)))
  case['mask'] = min(case['mask'], case['classes'] - 2)
  return case


def seg_samples(case, rnd):
  """Points with labels in -1..classes-1, at least one above the mask in total."""
  out = []
  for i, pts in enumerate(gen.make_points(case)):
    n = pts.points.shape[0]
    hi = case['classes'] - 1
    lab = gen.int_array((n, 1), case['salt'] + 17 * rnd + i, 31, -1, hi)
    if case['pick'] == 1:      # few classes
      lab = np.where(lab > case['mask'], np.minimum(lab, case['mask'] + 1), lab)
    if case['pick'] == 2 and i > 0:
      lab[:] = -1              # a sample which is masked completely
    lab = np.clip(lab, min(-1, case['mask']), hi)
    if i == 0:
      lab[0] = hi
    pts.labels = torch.from_numpy(lab).float()
    out.append(pts)
  return out


def seg_batch(case, pts, extra=None):
  if case['built']:
    items = []
    for i, p in enumerate(pts):
      o = Octree(case['depth'], case['full'])
      o.build_octree(p)
      items.append({'points': p, 'octree': o, 'label': 0})
    return CollateBatch(merge_points=True)(items)
  return {'points': list(pts)}


def check_seg(case):
  k = case['classes']
  flags = {'MODEL': Flags(feature=case['feat'], nempty=case['nempty']),
           'LOSS': Flags(mask=case['mask'], num_class=k),
           'DATA': Flags(train=Flags(depth=case['depth'], full_depth=case['full']),
                         test=Flags(depth=case['depth'], full_depth=case['full']))}
  r = gen.make_ref(case)
  tags = ['octrees' if case['built'] else 'points']
  from thsolver.tracker import AverageTracker
  with Env() as d:
    model = Stub(k, case['salt'])
    s = solver_of('segmentation', 'SegSolver', flags, d, model)
    tracker = AverageTracker()
    ins_all, uni_all = np.zeros(k), np.zeros(k)
    for rnd in range(case['batches']):
      pts = seg_samples(case, rnd)
      xyz = np.concatenate([p.points.numpy() for p in pts])
      bid = np.concatenate([np.full((p.points.shape[0], 1), i) for i, p in enumerate(pts)])
      lab = np.concatenate([p.labels.numpy()[:, 0] for p in pts])
      q = np.concatenate([xyz, bid], 1).astype(np.float32)
      with torch.no_grad():
        logit = model.predict(torch.from_numpy(q)).numpy()
      sel = lab > case['mask']
      loss, accu, iou, ins, uni = metrics(logit[sel], lab[sel], k)
      ins_all += ins
      uni_all += uni
      model.calls.clear()
      out = s.train_step(seg_batch(case, pts))
      cmp.require(set(out) == {'train/loss', 'train/accu'}, 'training outputs %s', sorted(out))
      cmp.close(out['train/loss'], loss, 'training loss', 1e-4, 1e-4)
      cmp.close(out['train/accu'], accu, 'training accuracy', 1e-5, 0)
      model.zero_grad()
      out['train/loss'].backward()
      # the gradient of the loss with respect to a bias: mean of softmax - onehot
      g = np.exp(log_softmax(logit[sel]))
      g[np.arange(g.shape[0]), lab[sel].astype(int)] -= 1
      cmp.close(model.b.grad[0], g.mean(0), 'gradient of the loss', 1e-4, 1e-3)
      out = s.test_step(seg_batch(case, pts))
      exp = {'test/loss': loss, 'test/accu': accu, 'test/mIoU': iou}
      exp.update({'test/intsc_%d' % i: v for i, v in enumerate(ins)})
      exp.update({'test/union_%d' % i: v for i, v in enumerate(uni)})
      cmp.require(set(out) == set(exp), 'test outputs %s', sorted(set(out) ^ set(exp)))
      for key, v in exp.items():
        cmp.close(out[key], v, key, 1e-4, 1e-4)
      tracker.update(out)
      cmp.require(len(model.calls) == 2, 'the network was called %d times', len(model.calls))
      for data, octree, depth, query in model.calls:
        cmp.require(depth == case['depth'], 'depth %s was given to the network', depth)
        cmp.equal(query, q, 'query points')
        oct.check_structure(octree, r)
        oct.check_neighs(octree, r)
        cmp.equal(data, octree.get_input_feature(case['feat'], case['nempty']), 'input feature')
    s.result_callback(tracker, 1)
    lo = case['mask'] + 1
    part = np.mean([i / u if u else 0.0 for i, u in zip(ins_all[lo:], uni_all[lo:])])
    avg = tracker.average()
    cmp.require('test/mIoU_part' in avg, 'no part mIoU is reported')
    cmp.close(avg['test/mIoU_part'], part, 'part mIoU', 1e-4, 1e-4)
  return tags + (['nt'] if k > 2 or case['batches'] > 1 else [])


# ---------------------------------------------------------------------------
# IoU on arbitrary predictions
# ---------------------------------------------------------------------------

@st.composite
def strat_iou(draw):
  return {'n': draw(st.integers(1, 60)), 'k': draw(st.integers(1, 8)), 'salt': draw(gen.SALT),
          'pk': draw(st.integers(1, 8)), 'gk': draw(st.integers(1, 8)),
          'lo': draw(st.sampled_from([0, 0, -1])), 'agree': draw(st.integers(0, 4)),
          'dt': draw(st.sampled_from(['float', 'int']))}


def check_iou(case):
  n, k = case['n'], case['k']
  pk, gk = min(case['pk'], k), min(case['gk'], k)
  pred = gen.hash_ints(n, case['salt'], 1) % pk
  lab = gen.int_array((n,), case['salt'], 2, case['lo'], gk - 1)
  m = gen.hash_ints(n, case['salt'], 3) % 5 < case['agree']
  lab = np.where(m, pred, lab)
  logit = gen.real_data((n, k), case['salt'], 4).numpy()
  logit[np.arange(n), pred] += 3
  with Env() as d:
    s = solver_of('segmentation', 'SegSolver', {}, d, None)
    t = torch.from_numpy(lab)
    t = t.float() if case['dt'] == 'float' else t
    iou, ins, uni = s.IoU_per_shape(torch.from_numpy(logit), t, k)
    accu = s.accuracy(torch.from_numpy(logit), t)
  e = [(int(((pred == c) & (lab == c)).sum()), int(((pred == c) | (lab == c)).sum()),
        bool((lab == c).any())) for c in range(k)]
  cmp.require(len(ins) == k and len(uni) == k, 'number of intersections and unions')
  cmp.equal(np.array([cmp.arr(v) for v in ins]), np.array([v[0] for v in e]), 'intersections')
  cmp.equal(np.array([cmp.arr(v) for v in uni]), np.array([v[1] for v in e]), 'unions')
  val = [a / b for a, b, c in e if c]
  cmp.close(iou, np.mean(val) if val else 0.0, 'shape IoU', 1e-5, 1e-5)
  cmp.close(accu, np.mean(pred == lab), 'accuracy', 1e-6, 0)
  return ['nt'] if k > 1 and n > 1 else []


# ---------------------------------------------------------------------------
# evaluation: votes over epochs
# ---------------------------------------------------------------------------

@st.composite
def strat_eval(draw):
  nf = draw(st.integers(1, 4))
  return {'files': [draw(st.integers(1, 25)) for _ in range(nf)], 'salt': draw(gen.SALT),
          'classes': draw(st.integers(2, 5)), 'epochs': draw(st.integers(1, 4)),
          'bs': draw(st.integers(1, 3)), 'built': draw(st.booleans()),
          'ext': draw(st.sampled_from(['npz', 'ply', 'bin'])),
          'dirs': draw(st.sampled_from(['', 'a/', 'test/x/'])),
          # files of the same name in several folders
          'alike': draw(st.integers(0, 2)) == 0,
          'shuffle': draw(st.booleans()), 'clip': draw(st.sampled_from([0, 1, 2, 4])),
          'depth': draw(st.integers(2, 4))}


def check_eval(case):
  k, nf, E = case['classes'], len(case['files']), case['epochs']
  flags = {'MODEL': Flags(feature='P', nempty=True), 'LOSS': Flags(mask=-1, num_class=k),
           'SOLVER': Flags(eval_epoch=E),
           'DATA': Flags(test=Flags(depth=case['depth'], full_depth=1))}
  names = ['%sf%d.%s' % (case['dirs'], i, case['ext']) for i in range(nf)]
  if case['alike']:
    names = ['%ss%d/f.%s' % (case['dirs'], i, case['ext']) for i in range(nf)]
  votes = [np.zeros((n, k)) for n in case['files']]
  clipped = False
  with Env() as d:
    model = Stub(k, case['salt'])
    s = solver_of('segmentation', 'SegSolver', flags, d, model)
    for ep in range(E):
      order = list(range(nf))
      if case['shuffle']:
        order = list(int(v) for v in np.argsort(gen.hash_ints(nf, case['salt'], 50 + ep)))
      model.shift = 0.3 * ep
      for b in range(0, nf, case['bs']):
        ids = order[b:b + case['bs']]
        items, masks = [], []
        for j, f in enumerate(ids):
          n = case['files'][f]
          p = gen.real_data((n, 3), case['salt'] + f, 60 + ep).numpy()
          m = gen.hash_ints(n, case['salt'] + f, 70 + ep) % 5 >= case['clip']
          m[gen.hash_ints(1, case['salt'] + f, ep)[0] % n] = True
          clipped |= not m.all()
          pts = Points(torch.from_numpy(p[m]), labels=torch.from_numpy(
              gen.int_array((int(m.sum()), 1), f, 3, 0, k - 1)).float())
          o = Octree(case['depth'], 1)
          o.build_octree(pts)
          items.append({'points': pts, 'octree': o, 'inbox_mask': torch.from_numpy(m),
                        'filename': names[f], 'label': 0})
          q = torch.cat([torch.from_numpy(p[m]), torch.full((int(m.sum()), 1), float(j))], 1)
          with torch.no_grad():
            prob = np.exp(log_softmax(model.predict(q).numpy()))
          votes[f][m] += prob
        if case['built']:
          batch = CollateBatch(merge_points=True)(items)
        else:
          batch = {'points': [v['points'] for v in items],
                   'inbox_mask': [v['inbox_mask'] for v in items],
                   'filename': [v['filename'] for v in items]}
        batch['epoch'], batch['iter_num'] = ep, b
        with torch.no_grad():
          s.eval_step(batch)
        done = [os.path.join(d, names[f][:-4] + '.eval.npz') for f in ids]
        for f, p in zip(ids, done):
          cmp.require(os.path.exists(p) == (ep == E - 1), 'the votes of %s are %s after epoch '
                      '%d of %d', names[f], 'missing' if ep == E - 1 else 'stored', ep + 1, E)
    found = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, c in os.walk(d) for f in c)
    cmp.require(found == sorted(n[:-4] + '.eval.npz' for n in names), 'files %s', found)
    for f in range(nf):
      with np.load(os.path.join(d, names[f][:-4] + '.eval.npz')) as z:
        cmp.require(list(z.keys()) == ['prob'], 'stored entries %s', list(z.keys()))
        cmp.close(z['prob'], votes[f], 'votes of %s' % names[f], 1e-4, 1e-4)
  return (['nt'] if E > 1 or nf > 1 else []) + (['clipped'] if clipped else [])


# ---------------------------------------------------------------------------
# auto-encoder, completion, image2shape
# ---------------------------------------------------------------------------

@st.composite
def strat_ae(draw):
  case = draw(gen.octree_case(min_depth=2, max_depth=4, max_full=2, max_batch=3, bulk=60,
                              max_shapes=2, deep=8))
  case.update(kind=draw(st.sampled_from(['ae', 'completion', 'image'])), salt=draw(gen.SALT),
              train=draw(st.booleans()))
  case['other'] = [draw(gen.cloud(case['depth'], bulk=20, max_shapes=1))
                   for _ in case['samples']]
  for s in case['other']:
    if gen.expand(s, case['depth']).shape[0] == 0:
      s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  return case


class Recorder(torch.nn.Module):

  def __init__(self, result):
    super().__init__()
    self.result, self.calls = result, []

  def forward(self, *a, **k):
    self.calls.append((a, k))
    return self.result


KIND = {'ae': ('autoencoder', 'AutoEncoderSolver'),
        'completion': ('completion', 'CompletionSolver'),
        'image': ('image2shape', 'Image2ShapeSolver')}


def check_ae(case):
  gt = gen.make_octree(case)
  r = gen.make_ref(case)
  D, F = case['depth'], case['full']
  logits = {d: gen.real_data((r.num(d), 2), case['salt'], d) * 3 for d in range(F, D + 1)}
  signal = gen.real_data((r.num(D, True), 4), case['salt'], 40)
  model = Recorder({'logits': logits, 'signal': signal, 'octree_out': gt})
  other = gen.make_octree(dict(case, samples=case['other']))
  image = gen.real_data((len(case['samples']), 3, 4, 4), 1)
  batch = {'ae': {'octree': gt}, 'completion': {'octree': other, 'octree_gt': gt},
           'image': {'octree': gt, 'image': image}}[case['kind']]
  with Env() as d:
    s = solver_of(*KIND[case['kind']], {}, d, model)
    pre = 'train/' if case['train'] else 'test/'
    out = (s.train_step if case['train'] else s.test_step)(batch)
  a, k = model.calls[0]
  exp_args = {'ae': [gt], 'completion': [other, gt], 'image': [image, gt]}[case['kind']]
  cmp.require(len(model.calls) == 1 and len(a) <= len(exp_args), 'calls of the network')
  for i, v in enumerate(a):
    cmp.require(v is exp_args[i], 'argument %d of the network', i)
  flag = k.get('update_octree', False)
  cmp.require(flag is False, 'the ground truth octree would be updated')
  exp, total = {}, 0.0
  for dd, lg in logits.items():
    lab = r.levels[dd].nempty.astype(int)
    ls = log_softmax(lg.numpy())
    exp['loss_%d' % dd] = -ls[np.arange(lab.size), lab].mean()
    exp['accu_%d' % dd] = float((lg.numpy().argmax(1) == lab).mean())
    total += exp['loss_%d' % dd]
  nd = gt.get_input_feature('ND', nempty=True).numpy().astype(np.float64)
  exp['loss_reg'] = float(((nd - signal.numpy()) ** 2).sum(1).mean())
  exp['loss'] = total + exp['loss_reg']
  cmp.require(set(out) == {pre + v for v in exp}, 'outputs %s', sorted(out))
  for key, v in exp.items():
    cmp.close(out[pre + key], v, key, 1e-4, 1e-4)
  return [case['kind'], 'nt']


@st.composite
def strat_pts(draw):
  case = draw(gen.octree_case(min_depth=2, max_depth=5, max_full=2, max_batch=4, bulk=60,
                              max_shapes=2, deep=10, allow_empty=True))
  case.update(kind=draw(st.sampled_from(['ae', 'image'])), salt=draw(gen.SALT),
              own=draw(st.booleans()), nsalt=draw(gen.SALT),
              ext=draw(st.sampled_from(['.npz', '.ply', ''])),
              dirs=draw(st.sampled_from(['', '02691156/', 'a/b/'])))
  return case


def read_rows(name):
  with open(name) as f:
    return np.array([[float(v) for v in line.split()] for line in f if line.strip()])


def check_pts(case):
  o, r = gen.make_octree(case), gen.make_ref(case)
  D, n = case['depth'], len(case['samples'])
  m = r.num(D, True)
  rows = r.rows(D, True)
  if case['own']:     # the signal of the octree itself: points on the tangent plane
    sig = o.get_input_feature('ND', nempty=True)
    normal = sig[:, :3].numpy().astype(np.float64)
  else:
    sig = torch.cat([gen.real_data((m, 3), case['salt'], 1) + 0.01,
                     gen.real_data((m, 1), case['salt'], 2)], 1)
  o.features[D] = sig
  sn = sig.numpy().astype(np.float64)
  nrm = oct.normalize(sn[:, :3])
  xyz = (rows[:, 1:] + 0.5 + sn[:, 3:] * nrm) / 2.0 ** (D - 1) - 1
  exp = np.concatenate([xyz, nrm], 1)
  tags = [case['kind']]
  names = ['%ss%d%s' % (case['dirs'], i, case['ext']) for i in range(n)]
  with Env() as d:
    s = solver_of(*KIND[case['kind']], {}, d, Recorder({'octree_out': o}))
    out = s.octree2pts(o)
    cmp.require(len(out) == n, '%d point clouds of %d samples', len(out), n)
    for i in range(n):
      cmp.close(out[i], exp[rows[:, 0] == i], 'points of sample %d' % i, 2e-6, 1e-5)
    if case['own']:
      sig_pos = oct.leaf_average(gen.sample_arrays(case), case, r)
      p = sig_pos['pos'] / 2.0 ** (D - 1) - 1
      dist = ((np.concatenate([cmp.arr(v) for v in out])[:, :3] - p) * normal).sum(1)
      ok = np.abs((normal ** 2).sum(1) - 1) < 1e-3
      # (an average on the upper face of its cell is not judged, see C03)
      ok &= (sig_pos['pos'] < rows[:, 1:] + 1).all(1)
      cmp.close(dist[ok], np.zeros(int(ok.sum())), 'distance to the plane of the leaf',
                1e-5, 0)
    # the files
    batch = {'octree': o, 'filename': names}
    pin = gen.make_points(case, features=False, labels=False)
    if case['kind'] == 'image':
      img = torch.from_numpy(gen.hash_ints(n * 3 * 4 * 5, 3).reshape(n, 3, 4, 5) % 256)
      batch['image'] = img.float() / 255
    else:
      batch['points'] = pin
    with torch.no_grad():
      s.eval_step(batch)
    for i in range(n):
      stem = os.path.join(d, case['dirs'] + 's%d' % i)
      got = read_rows(stem + '.out.xyz')
      e = exp[rows[:, 0] == i]
      cmp.close(got.reshape(-1, 6), e, 'stored points of sample %d' % i, 3e-6, 1e-5)
      if case['kind'] == 'ae':
        got = read_rows(stem + '.in.xyz')
        e = torch.cat([pin[i].points, pin[i].normals], 1).numpy()
        cmp.close(got.reshape(-1, 6), e, 'stored input of sample %d' % i, 1e-4, 1e-5)
      else:
        from PIL import Image
        with Image.open(stem + '.img.png') as im:
          a = np.asarray(im).astype(int)
        cmp.require(np.abs(a - img[i].permute(1, 2, 0).numpy()).max() <= 1, 'stored image')
  return tags + (['nt'] if n > 1 else [])


# ---------------------------------------------------------------------------
# classification and the configured networks
# ---------------------------------------------------------------------------

@st.composite
def strat_cls(draw):
  case = draw(gen.octree_case(min_depth=2, max_depth=4, max_full=2, max_batch=4, bulk=40,
                              max_shapes=2))
  case.update(feat=draw(st.sampled_from(['ND', 'L', 'P', 'NDF'])), nempty=draw(st.booleans()),
              classes=draw(st.integers(2, 7)), salt=draw(gen.SALT), train=draw(st.booleans()))
  return case


def check_cls(case):
  n, k = len(case['samples']), case['classes']
  flags = {'MODEL': Flags(feature=case['feat'], nempty=case['nempty'])}
  logit = gen.real_data((n, k), case['salt'], 1) * 4
  lab = gen.hash_ints(n, case['salt'], 2) % k
  o = gen.make_octree(case)
  with Env() as d:
    model = Recorder(logit)
    s = solver_of('classification', 'ClsSolver', flags, d, model)
    pre = 'train/' if case['train'] else 'test/'
    out = (s.train_step if case['train'] else s.test_step)(
        {'octree': o, 'label': torch.from_numpy(lab)})
  loss, accu, _, _, _ = metrics(logit.numpy(), lab, k)
  cmp.require(set(out) == {pre + 'loss', pre + 'accu'}, 'outputs %s', sorted(out))
  cmp.close(out[pre + 'loss'], loss, 'loss', 1e-4, 1e-4)
  cmp.close(out[pre + 'accu'], accu, 'accuracy', 1e-6, 0)
  cmp.require(len(model.calls) == 1, 'the network was called %d times', len(model.calls))
  a = model.calls[0][0]
  cmp.equal(a[0], o.get_input_feature(case['feat'], case['nempty']), 'input feature')
  cmp.require(a[1] is o and a[2] == case['depth'], 'octree and depth given to the network')
  return ['nt'] if n > 1 else []


@st.composite
def strat_model(draw):
  kind = draw(st.sampled_from(['segnet', 'segnet', 'unet', 'lenet', 'resnet', 'hrnet', 'ae',
                               'completion']))
  return {'kind': kind, 'nempty': draw(st.booleans()), 'out': draw(st.integers(2, 9)),
          'stages': draw(st.integers(2, 3)), 'blocks': draw(st.integers(1, 2)),
          'interp': draw(st.sampled_from(['linear', 'nearest'])), 'up': draw(st.booleans()),
          'feat': draw(st.sampled_from(['ND', 'L', 'F'])), 'seed': draw(st.integers(0, 9))}


def check_model(case):
  import ocnn
  k, cin, ne, out = case['kind'], models.channels(case['feat']), case['nempty'], case['out']
  stg = case['stages'] if k in ('segnet', 'lenet') else 4 if k == 'unet' else case['stages']
  depth = {'unet': 5, 'hrnet': 5}.get(k, stg + 2)
  name = k.upper() if case['up'] else k
  f = Flags(name=name, channel=cin, nout=out, stages=stg, interp=case['interp'], nempty=ne,
            resblock_num=case['blocks'], feature=case['feat'], channel_out=4, depth=depth,
            full_depth=2)
  mod, cls = {'segnet': ('segmentation', 'SegSolver'), 'unet': ('segmentation', 'SegSolver'),
              'ae': KIND['ae'], 'completion': KIND['completion']}.get(
                  k, ('classification', 'ClsSolver'))
  if k == 'hrnet':
    f['stages'] = min(stg, 3)
  M = ocnn.models
  direct = {'segnet': lambda: M.SegNet(cin, out, stg, case['interp'], ne),
            'unet': lambda: M.UNet(cin, out, case['interp'], ne),
            'lenet': lambda: M.LeNet(cin, out, stg, ne),
            'resnet': lambda: M.ResNet(cin, out, case['blocks'], stg, ne),
            'hrnet': lambda: M.HRNet(cin, out, f['stages'], nempty=ne),
            'ae': lambda: M.AutoEncoder(cin, 4, depth, 2, feature=case['feat']),
            'completion': lambda: M.OUNet(cin, out, depth, 2, feature=case['feat'])}[k]
  with Env() as d:
    s = solver_of(mod, cls, {}, d, None)
    torch.manual_seed(case['seed'])
    a = s.get_model(f)
  torch.manual_seed(case['seed'])
  b = direct()
  cmp.require(type(a) is type(b), 'the network is a %s', type(a).__name__)
  sa, sb = a.state_dict(), b.state_dict()
  cmp.require(list(sa) == list(sb), 'parameters of the configured network')
  for key in sb:
    cmp.equal(sa[key], sb[key], key)
  c = models.calib_case(depth, 2, 2)
  c['feat'] = case['feat']
  o = gen.make_octree(c)
  a.eval(), b.eval()

  def run(m):
    with torch.no_grad():
      if k in ('ae', 'completion'):
        args = (o,) if k == 'ae' else (o, o)
        r = m(*args, update_octree=False)
        return list(r['logits'].values()) + [r['signal']]
      data = o.get_input_feature(case['feat'], ne)
      if k in ('segnet', 'unet'):
        q = torch.cat([gen.real_data((9, 3), 5), torch.zeros(9, 1)], 1)
        return [m(data, o, o.depth, q)]
      return [m(data, o, o.depth)]
  ra, rb = run(a), run(b)
  for x, y in zip(ra, rb):
    cmp.equal(x, y, 'output of the configured network')
  if k not in ('ae', 'completion'):
    cmp.require(ra[0].shape[1] == out, 'number of outputs')
  return [k, 'nt']


FACETS = [
    Facet('segmentation', strat_seg, check_seg, 900, 20000),
    Facet('iou', strat_iou, check_iou, 1200, 20000),
    Facet('votes', strat_eval, check_eval, 900, 20000),
    Facet('generation', strat_ae, check_ae, 900, 20000),
    Facet('decoded-points', strat_pts, check_pts, 900, 20000),
    Facet('classification', strat_cls, check_cls, 600, 8000),
    Facet('networks', strat_model, check_model, 64, 800, heavy=True),
]
