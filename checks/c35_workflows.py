"""C35: the documented commands work in sequence, repeatably and resumably."""
import json
import math
import os
import shlex
import shutil
import sys
import zipfile
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import boot, cmp, gen
from vlib.core import Facet
from vlib.tool import Project, commands

c29, c32, c34 = (boot.load_check(c) for c in ('C29', 'C32', 'C34'))
PROPERTY = 'C35'
RULE = ('for every documented task (ScanNet, SemanticKITTI, ShapeNet and ModelNet40, completion, '
        'auto-encoder, image to shape) a small raw data set is generated, the documented commands '
        'run one after the other on it with the shipped scripts and configurations: prepare, '
        'train, test, evaluate, merge, score; the training is interrupted and resumed; '
        'non-trivial: several clouds and epochs')
ASSUMPTIONS = ['CPU, one process, few epochs and small batches by command line options',
               'the archives are already downloaded', 'aliases in lower case',
               'networks with dropout and data with random noise are not compared after a resume']
OPTS = ('DATA.train.num_workers 0 DATA.test.num_workers 0 DATA.train.pin_memory False '
        'DATA.test.pin_memory False SOLVER.progress_bar False SOLVER.test_every_epoch 1 '
              'SOLVER.log_per_iter -1 DATA.test.batch_size 1').split()


def read_log(logdir):
  """The lines of log.csv as dictionaries."""
  out = []
  for s in c34.lines(os.path.join(logdir, 'log.csv')):
    row = {}
    for part in s.split(', '):
      k, v = part.split(': ')
      row[k] = float(v)
    out.append(row)
  return out


def weights(logdir, epoch):
  return torch.load(os.path.join(logdir, 'checkpoints', '%05d.model.pth' % epoch))


def compare_weights(a, b, what):
  cmp.require(list(a) == list(b), '%s: other parameters', what)
  for k in a:
    cmp.require(bool(torch.isfinite(a[k]).all()), '%s: %s is not finite', what, k)
    cmp.close(a[k], b[k], '%s: %s' % (what, k), 1e-5, 1e-4)


def check_train(logdir, epochs, keys):
  rows = read_log(logdir)
  cmp.require([r['Epoch'] for r in rows] == list(range(1, epochs + 1)), 'epochs in the log: %s',
              [r['Epoch'] for r in rows])
  for r in rows:
    for k in keys:
      cmp.require(k in r, '%s is not in the log', k)
    bad = [k for k, v in r.items() if not math.isfinite(v)]
    cmp.require(not bad, 'not finite in the log: %s', bad)
  names = ['%05d.%s' % (e, s) for e in range(1, epochs + 1) for s in ('model.pth', 'solver.tar')]
  cmp.require(sorted(os.listdir(os.path.join(logdir, 'checkpoints'))) == names, 'checkpoints %s',
              sorted(os.listdir(os.path.join(logdir, 'checkpoints'))))
  return rows


class Task:
  """prepare() -> number of samples; module, config, logdir as documented."""
  alias = True          # logdir of a run with an alias
  resumable = True
  repeatable = True     # testing twice gives the same numbers
  extra = []

  def __init__(self, t, case):
    self.t, self.case, self.salt = t, case, case['salt']

  def run(self, *args):
    return self.t.solve(self.module, ['--config', self.config] + list(args) + OPTS +
                        ['SOLVER.max_epoch', self.case['epochs'], 'SOLVER.rand_seed',
                         self.case['seed'], 'DATA.train.batch_size', 2] + self.extra)

  def finish(self):
    pass


def blob(n, *salt):
  """Points that fill several octants."""
  x = c34.reals(n, 6, *salt)
  x[:8, :3] = np.array([[a, b, c] for a in (-.9, .9) for b in (-.9, .9) for c in (-.9, .9)])[:n]
  nrm = x[:, 3:] + 1e-3
  x[:, 3:] = nrm / np.linalg.norm(nrm, axis=1, keepdims=True)
  return x


class ScanNet(Task):
  module, config, logdir = 'segmentation', 'configs/seg_scannet.yaml', 'logs/scannet/D10_2cm'
  keys = ['test/loss', 'test/accu', 'test/mIoU', 'test/mIoU_part']

  def prepare(self):
    os.makedirs('raw/scans')
    os.makedirs('raw/scans_test')
    self.label = {}
    ids = []
    for i, n in enumerate(self.case['sizes']):
      sub = 'scans' if i < max(2, len(self.case['sizes']) - 1) else 'scans_test'
      sid = 'scene%04d_%02d' % (i + 3, i)
      sc = {'n': n + 10, 'f': n, 'salt': self.salt + i}
      v = c32.write_scan('raw/%s/%s' % (sub, sid), sid, sc, sub == 'scans',
                         {'align': 0, 'big': False})
      self.label[sid] = v[3]
      ids.append((sub, sid))
    tr = [s for u, s in ids if u == 'scans']
    self.lists = {'train': tr[:1], 'val': tr[1:], 'train_val': tr,
                  'test': [s for u, s in ids if u == 'scans_test']}
    os.makedirs('data/scannet.ply')
    with zipfile.ZipFile('data/scannet.ply/filelist.zip', 'w') as z:
      z.writestr('scannetv2-labels.combined.tsv', 'id\traw_category\tcategory\n2\tchair\tx\n')
      for k, v in self.lists.items():
        z.writestr('scannetv2_%s.txt' % k, ''.join(s + '.ply\n' for s in v))
    self.t.script('seg_scannet', ['--run', 'process_scannet', '--path_in', 'raw'])

  def command(self, cmd):
    w = shlex.split(cmd)
    cmp.require(w[0] == 'python', 'command %s', cmd)
    if w[1] == 'segmentation.py':
      self.cmds.append(w)
      self.t.solve('segmentation', w[2:] + OPTS + ['SOLVER.max_epoch', self.case['epochs'],
                                                  'SOLVER.eval_epoch', self.case['votes'],
                                                  'DATA.train.batch_size', 2])
    else:
      cmp.require(w[1].startswith('tools/'), 'command %s', cmd)
      self.t.script(w[1][6:-3], w[2:])
    return 0

  def script(self, *args):
    self.cmds = []
    with commands(self.command):
      self.t.script('scripts/run_seg_scannet', list(args))

  def finish(self):
    """Training, evaluation with votes, merging and scoring by the script."""
    e, al = self.case['epochs'], self.case['alias']
    test = self.case['test'] and bool(self.lists['test'])
    self.script('--gpu', '0', '--alias', al, '--run', 'train_all' if test else 'train')
    check_train(self.logdir + '_' + al, e, self.keys)
    ckpt = self.logdir + '_%s/checkpoints/%05d.model.pth' % (al, e)
    self.t.printed()
    if self.case['final']:      # the checkpoint which the script expects
      shutil.copy(ckpt, os.path.join(os.path.dirname(ckpt), '00600.model.pth'))
    self.script('--gpu', '0', '--alias', al, '--run', 'test' if test else 'validate',
                *([] if self.case['final'] else ['--ckpt', ckpt]))
    text = self.t.printed().splitlines()
    kind = 'test' if test else 'val'
    pred = self.logdir + '_eval_%s_%s' % (kind, al)
    seg = self.logdir + '_eval_%s_seg_%s' % (kind, al)
    scans = self.lists[kind]
    got = sorted(f for f in c34.files_under(pred) if f.endswith('.npz'))
    cmp.require(got == sorted(s + '.eval.npz' for s in scans), 'stored votes %s', got)
    cmp.require(c34.files_under(seg) == sorted(s + '.txt' for s in scans), 'labels %s',
                c34.files_under(seg))
    accu = []
    for s in scans:
      prob = np.load(os.path.join(pred, s + '.eval.npz'))['prob'].astype(np.float64)
      cmp.shape(prob, (self.label[s].size, 21), 'votes of ' + s)
      cast = prob.sum(1)
      cmp.require(np.abs(cast - cast.round()).max() < 1e-3 and
                  cast.max() < self.case['votes'] + .5, 'votes of %s do not sum up', s)
      lab = np.loadtxt(os.path.join(seg, s + '.txt')).reshape(-1).astype(int)
      top = np.sort(prob, 1)
      sure = top[:, -1] - top[:, -2] > 1e-5
      cmp.equal(lab[sure], np.array(c32.IDS20)[prob.argmax(1)][sure], 'labels of ' + s)
      gt = self.label[s]
      ok = np.isin(gt, c32.IDS20[1:])
      if ok.any():
        accu.append((lab[ok] == gt[ok]).mean())
    if not test and len(accu) == len(scans):
      shown = [s for s in text if s.strip().startswith('Accu:') and ',' not in s]
      cmp.require(len(shown) == 1, 'the score is not printed')
      cmp.close(float(shown[0].split(':')[1]), np.mean(accu), 'accuracy', 1e-5, 0)


class Kitti(Task):
  module, config, logdir = 'segmentation', 'configs/seg_kitti.yaml', 'logs/kitti/D12_5cm'
  keys = ['test/loss', 'test/accu', 'test/mIoU', 'test/mIoU_part']

  def prepare(self):
    os.makedirs('data/SemanticKITTI')
    with zipfile.ZipFile('data/SemanticKITTI/data_odometry_velodyne.zip', 'w') as z, \
        zipfile.ZipFile('data/SemanticKITTI/data_odometry_labels.zip', 'w') as y:
      for s in range(22):
        base = 'dataset/sequences/%02d/' % s
        z.writestr(base + 'velodyne/', '')
      for i, n in enumerate(self.case['sizes'] + [20]):
        base = 'dataset/sequences/%02d/' % ([0, 8] + list(range(1, 8)))[i]
        x = blob(n + 10, self.salt, i)[:, :4] * [40, 40, 10, 1]
        z.writestr(base + 'velodyne/%06d.bin' % i, x.astype(np.float32).tobytes())
        keys = sorted(c29.KITTI)
        lab = np.array(keys)[gen.hash_ints(n + 10, self.salt, 30 + i) % len(keys)]
        lab[0] = 40
        y.writestr(base + 'labels/%06d.label' % i, lab.astype(np.int32).tobytes())
    self.t.script('seg_kitti')


class ShapeNet(Task):
  module, config = 'segmentation', 'configs/seg_shapenet.yaml'
  logdir = 'logs/seg_shapenet/02691156_airplane_d5'
  keys = ['test/loss', 'test/accu', 'test/mIoU']

  def prepare(self):
    name = 'shapenetcore_partanno_segmentation_benchmark_v0_normal'
    os.makedirs('src')
    names = c34.names_of(len(self.case['sizes']) + 1, self.salt, 3)
    lists = {'train': [], 'val': [], 'test': []}
    with zipfile.ZipFile('src/x.zip', 'w') as z:
      for c in c34.CAT16:
        z.writestr('%s/%s/' % (name, c), '')
      for i, n in enumerate(self.case['sizes'] + [15]):
        c = 0 if i < 3 else int(gen.hash_ints(1, self.salt, i)[0] % 16)
        x = blob(n + 10, self.salt, i)
        lab = gen.hash_ints(n + 10, self.salt, 40 + i) % c34.PARTS[c] + sum(c34.PARTS[:c])
        z.writestr('%s/%s/%s.txt' % (name, c34.CAT16[c], names[i]), ''.join(
            ' '.join('%.6f' % v for v in r) + ' %.6f\n' % k for r, k in zip(x, lab)))
        lists[('train', 'test', 'val')[i % 3]].append('shape_data/%s/%s' % (c34.CAT16[c],
                                                                            names[i]))
      for k, v in lists.items():
        z.writestr('%s/train_test_split/shuffled_%s_file_list.json' % (name, k), json.dumps(v))
    import wget
    with mock.patch.object(wget, 'download', lambda url, out: shutil.copy('src/x.zip', out)):
      self.t.script('seg_shapenet')


class ModelNet(Task):
  module, config, logdir = 'classification', 'configs/cls_m40.yaml', 'logs/m40/d5'
  keys = ['test/loss', 'test/accu']
  resumable = False        # dropout

  def prepare(self):
    os.makedirs('data/ModelNet40')
    folders = ['class_%02d' % i for i in range(40)]
    with zipfile.ZipFile('data/ModelNet40/ModelNet40.zip', 'w') as z:
      for f in folders:
        for s in ('train', 'test'):
          z.writestr('ModelNet40/%s/%s/' % (f, s), '')
      for f in folders:
        for s in ('train', 'test'):
          h = gen.hash_ints(1, self.salt, hash_name(f + s))[0]
          if f == folders[0] or h % 40 == 0:
            v, tri = c34.mesh_of(('box', 'tetra', 'open')[int(h % 3)], self.salt, 7 + int(h % 99))
            self.mesh(z, 'ModelNet40/%s/%s/%s_0001.off' % (f, s, f), v, tri)

    def ball(points, details=False):
      c = np.zeros(3)
      r2 = float((points ** 2).sum(1).max())
      return (c, r2, {'is_valid': True}) if details else (c, r2)
    stub = {'cyminiball': {'compute': ball}}
    np.random.seed(self.salt % 1000)
    # the lists need a folder per class, so every class has at least one mesh in the archive
    self.t.script('cls_modelnet', ['--sample_num', 60, '--run', 'download_m40'], stub)
    self.t.script('cls_modelnet', ['--sample_num', 60, '--run', 'convert_mesh_to_points'], stub)
    for f in folders:
      for s in ('train', 'test'):
        os.makedirs('data/ModelNet40/ModelNet40.ply.normalize/%s/%s' % (f, s), exist_ok=True)
    self.t.script('cls_modelnet', ['--sample_num', 60, '--run', 'generate_points_filelist'], stub)

  def mesh(self, z, name, v, f):
    z.writestr(name, 'OFF\n%d %d 0\n' % (len(v), len(f)) +
               ''.join('%.6f %.6f %.6f\n' % tuple(r) for r in v) +
               ''.join('3 %d %d %d\n' % tuple(r) for r in f))


class HRNet(ModelNet):
  config, logdir = 'configs/cls_m40_hrnet.yaml', 'logs/m40/hrnet'


def hash_name(s):
  return sum((i + 1) * ord(c) for i, c in enumerate(s)) % 1000


class Completion(Task):
  module, config, logdir = 'completion', 'configs/completion.yaml', 'logs/completion/shapenet'
  keys = ['test/loss', 'test/loss_reg']
  resumable = repeatable = False        # noise

  def prepare(self):
    os.makedirs('data/ae_shapenet')
    self.t.load('utils')
    u = self.t.load('utils')
    names = c34.names_of(len(self.case['sizes']), self.salt, 3)
    self.names = ['%s/%s' % (c34.CAT13[i % 3], s) for i, s in enumerate(names)]
    with zipfile.ZipFile('data/ae_shapenet/ae_shapenet.zip', 'w') as z:
      z.writestr('test.scans.ply/', '')
      for i, n in enumerate(self.case['sizes']):
        x = blob(n + 20, self.salt, i)
        u.save_points_to_ply('tmp/a.ply', x[:, :3], x[:, 3:])
        z.write('tmp/a.ply', 'shape.ply/%s.ply' % self.names[i])
      for k, j in (('train', 0), ('test', 1), ('test_scans', 1)):
        z.writestr('filelist_%s.txt' % k, ''.join('%s.points 0\n' % s for s in self.names[j::2]))
    self.t.script('ae_shapenet')

  def finish(self):
    ck = '%s/checkpoints/%05d.model.pth' % (self.logdir, self.case['epochs'])
    self.run('SOLVER.run', 'evaluate', 'SOLVER.alias', 'eval', 'SOLVER.ckpt', ck)
    self.stored(self.logdir + '_eval', self.names[1::2])

  def stored(self, folder, names, kinds=('.in.xyz', '.out.xyz')):
    got = [f for f in c34.files_under(folder) if f.endswith(('.xyz', '.png'))]
    cmp.require(got == sorted(s + k for s in names for k in kinds), 'stored results %s', got)
    for s in names:
      with open(os.path.join(folder, s + '.out.xyz')) as f:
        rows = [[float(v) for v in r.split()] for r in f]
      cmp.require(all(len(r) == 6 and all(map(math.isfinite, r)) for r in rows),
                  'stored points of %s', s)


class AutoEnc(Completion):
  module, config, logdir = 'autoencoder', 'configs/ae_shapenet.yaml', 'logs/ae_shapenet/ae'
  resumable = repeatable = True

  def prepare(self):
    names = c34.names_of(len(self.case['sizes']), self.salt, 3)
    self.names = ['%s/%s' % (c34.CAT13[i % 3], s) for i, s in enumerate(names)]
    root = 'data/ShapeNetV1/'
    for c in c34.CAT13:
      os.makedirs(root + 'shapenet.mesh/' + c)
      os.makedirs(root + 'renderings/' + c)
    for i, s in enumerate(self.names):
      v, f = c34.mesh_of(('box', 'tetra', 'open')[i % 3], self.salt, 5 + i)
      v = v - (v.min(0) + v.max(0)) / 2       # the shapes of ShapeNet lie in a unit cube
      c34.write_obj(root + 'shapenet.mesh/%s.obj' % s, v / (v.max() * 2), f)
      self.image(root + 'renderings/%s/rendering' % s, i)
    np.random.seed(self.salt % 1000)
    for run in ('mesh2points', 'ply2npz'):
      self.t.script('image2shape', ['--sample_num', 50, '--run', run])
    os.makedirs(root + 'filelist')
    for k, j in (('train', 0), ('test', 1)):
      c34.put(root + 'filelist/%s.txt' % k, ''.join(s + '\n' for s in self.names[j::2]))

  def image(self, folder, i):
    pass


class Image2Shape(AutoEnc):
  module, config = 'image2shape', 'configs/image2shape.yaml'
  logdir = 'logs/image2shape/image2shape'

  def image(self, folder, i):
    from PIL import Image
    os.makedirs(folder)
    x = gen.hash_ints(137 * 137 * 4, self.salt, 60 + i).astype(np.uint8).reshape(137, 137, 4)
    for k in range(24):       # all views alike, since the view is drawn at random
      Image.fromarray(x, 'RGBA').save(folder + '/%02d.png' % k, compress_level=0)

  def stored(self, folder, names):
    super().stored(folder, names, ('.img.png', '.out.xyz'))


TASKS = {c.__name__: c for c in (ScanNet, Kitti, ShapeNet, ModelNet, HRNet, Completion, AutoEnc,
                                 Image2Shape)}


@st.composite
def strat(draw):
  kind = draw(st.sampled_from(sorted(TASKS)))
  return {'task': kind, 'sizes': draw(st.lists(st.integers(5, 60), min_size=3, max_size=4)),
          'salt': draw(gen.SALT), 'epochs': draw(st.integers(1, 2)),
          'seed': draw(st.integers(1, 99)), 'votes': draw(st.integers(1, 2)),
          'alias': draw(st.sampled_from(['a', 'scannet', 'run_2'])), 'test': draw(st.booleans()),
          'final': draw(st.booleans())}


def check_flow(case):
  with Project() as t:
    task = TASKS[case['task']](t, case)
    task.prepare()
    e = case['epochs']
    task.run()
    rows = check_train(task.logdir, e, task.keys)
    last = weights(task.logdir, e)
    for k, v in last.items():
      cmp.require(bool(torch.isfinite(v).all()), 'after training %s is not finite', k)
    ck = '%s/checkpoints/%05d.model.pth' % (task.logdir, e)
    task.run('SOLVER.run', 'test', 'SOLVER.ckpt', ck, 'SOLVER.alias', 'again')
    again = read_log(task.logdir + '_again')
    cmp.require(len(again) == 1, 'testing wrote %d lines', len(again))
    if task.repeatable:
      for k, v in rows[-1].items():
        if k.startswith('test/'):
          cmp.require(k in again[0], '%s is not in the log of the test', k)
          cmp.close(again[0][k], v, '%s after loading the checkpoint' % k, 2e-3, 2e-3)
    task.finish()
  return [case['task'], 'nt']


@st.composite
def strat_resume(draw):
  case = draw(strat())
  case['task'] = draw(st.sampled_from(sorted(k for k, c in TASKS.items() if c.resumable)))
  case['epochs'] = draw(st.integers(2, 3))
  case['at'] = draw(st.integers(1, case['epochs'] - 1))
  return case


def check_resume(case):
  """Training which is interrupted and resumed ends where the uninterrupted one does."""
  with Project() as t:
    task = TASKS[case['task']](t, case)
    task.extra = ['DATA.train.shuffle', 'False', 'DATA.train.distort', 'False',
                  'DATA.train.batch_size', 1]     # every epoch starts with the first cloud
    task.prepare()
    e, at = case['epochs'], case['at']
    task.run()
    other = task.logdir + '_b'
    os.makedirs(other + '/checkpoints')
    for s in ('model.pth', 'solver.tar'):
      shutil.copy('%s/checkpoints/%05d.%s' % (task.logdir, at, s), other + '/checkpoints')
    task.run('SOLVER.alias', 'b')
    cmp.require([r['Epoch'] for r in read_log(other)] == list(range(at + 1, e + 1)),
                'epochs after the resume')
    compare_weights(weights(other, e), weights(task.logdir, e), 'resumed at %d' % at)
    task.run('SOLVER.alias', 'c')
    compare_weights(weights(task.logdir + '_c', e), weights(task.logdir, e), 'second training')
  return [case['task'], 'nt']


# ---------------------------------------------------------------------------
# the script for the 16 classes of ShapeNet
# ---------------------------------------------------------------------------
TRAIN = [2348, 62, 44, 717, 3052, 55, 626, 312, 1261, 367, 151, 146, 234, 54, 121, 4421]
TEST = [341, 14, 11, 153, 693, 14, 159, 80, 285, 78, 51, 38, 41, 12, 31, 842]


@st.composite
def strat_script(draw):
  return {'ratios': draw(st.lists(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0]),
                                  min_size=1, max_size=3, unique=True)),
          'depth': draw(st.integers(4, 7)), 'model': draw(st.sampled_from(['segnet', 'unet'])),
          'alias': draw(st.sampled_from(['a', 'segnet_d5', 'x.y'])), 'salt': draw(gen.SALT),
          'ckpt': draw(st.sampled_from([None, 'logs/pretrained.pth'])),
          'rows': draw(st.integers(1, 3)), 'plain': draw(st.integers(0, 7)) == 0}


def parsed(cmd):
  """The settings with which a command starts segmentation.py."""
  import thsolver.config
  w = shlex.split(cmd)
  cmp.require(w[:2] == ['python', 'segmentation.py'], 'command %s', cmd)
  argv, sys.argv = sys.argv, w[1:]
  thsolver.config.FLAGS = thsolver.config.verif_default.clone()
  try:
    return thsolver.config.parse_args(backup=False)
  finally:
    sys.argv = argv


def check_script(case):
  import thsolver.config
  from thsolver.tracker import AverageTracker
  runs = []
  if case['plain']:           # the defaults are the first documented command
    case = dict(case, ratios=[1.0], depth=5, model='segnet', alias='segnet_d5', ckpt=None)

  def system(cmd):
    f = parsed(cmd)
    i = len(runs)
    runs.append(f)
    os.makedirs(f.SOLVER.logdir)
    for r in range(case['rows']):
      tr = AverageTracker()
      x = gen.hash_ints(9, case['salt'], 10 * i + r) % 1001 / 1000.0
      names = ['loss', 'accu', 'mIoU', 'intsc_0', 'union_0', 'mIoU_part']
      tr.update({'test/' + k: torch.tensor(v, dtype=torch.float64) for k, v in zip(names, x)})
      tr.log(r + 1, None, os.path.join(f.SOLVER.logdir, 'log.csv'))
    f.verif_iou = float(x[2])
    return 0
  with Project() as t:
    thsolver.config.verif_default.set_new_allowed(True)
    args = ['--gpu', '0', '--alias', case['alias'], '--depth', case['depth'], '--model',
            case['model'], '--ratios'] + case['ratios']
    if case['ckpt']:
      args += ['--ckpt', case['ckpt']]
    if case['plain']:
      args = []
    plain = thsolver.config.CN.freeze
    with commands(system), \
        mock.patch.object(thsolver.config.CN, 'freeze', lambda self: None):
      t.script('scripts/run_seg_shapenet', args)
    assert thsolver.config.CN.freeze is plain
    n = len(case['ratios'])
    cmp.require(len(runs) == 16 * n, '%d trainings', len(runs))
    dirs = [f.SOLVER.logdir for f in runs]
    cmp.require(len(set(dirs)) == len(dirs), 'two trainings in the same folder')
    todo = {}
    for f in runs:
      c = [i for i in range(16) if c34.CAT16[i] in f.DATA.train.filelist]
      cmp.require(len(c) == 1, 'list of files %s', f.DATA.train.filelist)
      c = c[0]
      base = 'data/shapenet_segmentation/filelist/' + c34.CAT16[c]
      cmp.require(f.DATA.train.filelist == base + '_train_val.txt' and
                  f.DATA.test.filelist == base + '_test.txt', 'lists of files')
      cmp.require(f.MODEL.nout == f.LOSS.num_class == c34.PARTS[c], 'class %d: %s parts, %s '
                  'in the loss', c, f.MODEL.nout, f.LOSS.num_class)
      cmp.require(f.DATA.train.depth == f.DATA.test.depth == case['depth'] and
                  f.MODEL.stages == case['depth'] - 2 and f.MODEL.name == case['model'],
                  'network of class %d', c)
      cmp.require(f.SOLVER.ckpt == (case['ckpt'] or ''), 'checkpoint %s', f.SOLVER.ckpt)
      cmp.require(f.SOLVER.gpu == (0,) and f.SOLVER.run == 'train', 'gpu %s', f.SOLVER.gpu)
      r = [r for r in case['ratios'] if math.ceil(TRAIN[c] * r) == f.DATA.train.take]
      cmp.require(bool(r), 'class %d: %d clouds', c, f.DATA.train.take)
      e = f.SOLVER.max_epoch
      cmp.require(e >= 1 and 1 <= f.SOLVER.test_every_epoch <= e, 'class %d: %d epochs, tested '
                  'every %d', c, e, f.SOLVER.test_every_epoch)
      cmp.require(all(0 < m < e for m in f.SOLVER.milestones), 'milestones %s of %d epochs',
                  f.SOLVER.milestones, e)
      todo.setdefault(c, []).append(f)
    cmp.require(all(len(todo.get(c, [])) == n for c in range(16)), 'classes trained')
    rows = [s.split(', ') for s in c34.lines('logs/seg_shapenet/%s/summaries.csv' %
                                             case['alias'])]
    cmp.require(len(rows) == 3 + n, '%d rows in the summary', len(rows))
    cmp.require([len(r) for r in rows] == [19, 17, 17] + [19] * n, 'shape of the summary')
    for r, num in ((rows[1], TRAIN), (rows[2], TEST)):
      cmp.require([int(v) for v in r[1:]] == num, 'number of clouds in the summary: %s', r)
    got = {r[0]: [float(v) for v in r[1:]] for r in rows[3:]}
    for i, ratio in enumerate(case['ratios']):
      iou = np.array([todo[c][i].verif_iou for c in range(16)])
      exp = list(iou) + [iou.mean(), (iou * TEST).sum() / sum(TEST)]
      row = got.get('Ratio:%.2f' % ratio)
      cmp.require(row is not None, 'ratio %.2f is not in the summary', ratio)
      cmp.close(np.array(row), np.array(exp), 'scores for the ratio %.2f' % ratio, 6e-4, 0)
  return ['nt']


# ---------------------------------------------------------------------------
# the script for ScanNet, with a stand-in for the network
# ---------------------------------------------------------------------------

@st.composite
def strat_scannet(draw):
  return {'run': draw(st.sampled_from(['test', 'validate', 'train', 'train_all', None])),
          'alias': draw(st.sampled_from([None, 'a', 'run_2'])),
          'ckpt': draw(st.sampled_from([None, 'logs/other.pth'])),
          'gpu': draw(st.sampled_from([None, 0])), 'port': draw(st.sampled_from([None, 10007])),
          'sizes': draw(st.lists(st.integers(3, 30), min_size=1, max_size=3)),
          'salt': draw(gen.SALT), 'chunks': draw(st.booleans())}


def check_scannet(case):
  """Which commands the script starts, and what they make of the votes of a network."""
  run, alias = case['run'] or 'train', case['alias'] or 'scannet'
  kind = {'test': 'test', 'validate': 'val'}.get(run)
  solved, tools = [], []
  with Project() as t:
    os.makedirs('data/scannet.ply/train')
    os.makedirs('data/scannet.ply/test')
    root = 'data/scannet.ply/' + ('test' if kind == 'test' else 'train')
    scans = ['scene%04d_%02d' % (i + 3, i) for i in range(len(case['sizes']))]
    votes, truth, listed = {}, {}, []
    for i, (sid, n) in enumerate(zip(scans, case['sizes'])):
      x = gen.real_data((n, 21), case['salt'], i).numpy().astype(np.float32)
      parts = [(sid, np.ones(n, bool), x)]
      if case['chunks'] and i == 0:
        m = gen.hash_ints(n, case['salt'], 40) % 2 == 0
        y = gen.real_data((int(m.sum()), 21), case['salt'], 41).numpy().astype(np.float32)
        np.save('%s/%s.chunk_12.mask.npy' % (root, sid), m)
        parts.append((sid + '.chunk_12', m, y))
      v = np.zeros((n, 21))
      for name, m, y in parts:
        v[m] += y
        listed.append((name, y))
      votes[sid] = v
      pool = c32.IDS20[1:]
      truth[sid] = np.array(pool)[gen.hash_ints(n, case['salt'], 60 + i) % len(pool)]
      if kind != 'test':
        np.savetxt('%s/%s.txt' % (root, sid), truth[sid], fmt='%d')
    filelist = 'data/scannet.ply/scannetv2_%s.txt' % (kind or 'train')
    c34.put(filelist, ''.join(s + '.ply\n' for s, _ in listed))

    def command(cmd):
      w = shlex.split(cmd)
      if w[1] == 'segmentation.py':
        f = parsed(cmd)
        solved.append(f)
        if f.SOLVER.run == 'evaluate':
          os.makedirs(f.SOLVER.logdir)
          for name, y in listed:
            np.savez('%s/%s.eval.npz' % (f.SOLVER.logdir, name), prob=y)
      else:
        cmp.require(w[:2] == ['python', 'tools/seg_scannet.py'], 'command %s', cmd)
        tools.append(w)
        t.script('seg_scannet', w[2:])
      return 0
    args = []
    for k in ('run', 'alias', 'gpu', 'port', 'ckpt'):
      if case[k] is not None:
        args += ['--' + k, case[k]]
    with commands(command):
      t.script('scripts/run_seg_scannet', args)
    cmp.require(len(solved) == 1, '%d networks were run', len(solved))
    f = solved[0]
    cmp.require(f.SOLVER.gpu == (0,), 'gpu %s', f.SOLVER.gpu)
    if kind is None:
      cmp.require(not tools and f.SOLVER.run == 'train', 'the script should only train')
      cmp.require(f.SOLVER.logdir == 'logs/scannet/D10_2cm_' + alias, 'folder of the training: %s',
                  f.SOLVER.logdir)
      cmp.require(str(f.SOLVER.port) == str(case['port'] or 10001), 'port %s', f.SOLVER.port)
      cmp.require(f.DATA.train.filelist == 'data/scannet.ply/scannetv2_%s.txt' % (
          'train_val' if run == 'train_all' else 'train'), 'list of the training: %s',
                  f.DATA.train.filelist)
      cmp.require(f.DATA.train.location == 'data/scannet.ply/train' and f.MODEL.nout ==
                  f.LOSS.num_class == 21, 'data of the training')
      return ['train'] + (['nt'] if len(args) > 2 else [])
    cmp.require(f.SOLVER.run == 'evaluate' and f.SOLVER.eval_epoch > 1 and f.DATA.test.distort and
                f.LOSS.mask == -1, 'the network should vote over several views of all points')
    cmp.require(f.SOLVER.ckpt == (case['ckpt'] or 'logs/scannet/D10_2cm_%s/checkpoints/'
                                  '00600.model.pth' % alias), 'checkpoint %s', f.SOLVER.ckpt)
    cmp.require(f.DATA.test.location == root and f.DATA.test.filelist == filelist,
                'clouds of the evaluation: %s, %s', f.DATA.test.location, f.DATA.test.filelist)
    seg = 'logs/scannet/D10_2cm_eval_%s_seg_%s' % (kind, alias)
    cmp.require(c34.files_under(seg) == sorted(s + '.txt' for s in scans), 'labels %s',
                c34.files_under(seg))
    acc = []
    for s in scans:
      lab = np.loadtxt('%s/%s.txt' % (seg, s)).reshape(-1).astype(int)
      top = np.sort(votes[s], 1)
      sure = top[:, -1] - top[:, -2] > 1e-5
      cmp.equal(lab[sure], np.array(c32.IDS20)[votes[s].argmax(1)][sure], 'labels of ' + s)
      acc.append((lab == truth[s]).mean())
    shown = [s for s in t.printed().splitlines() if s.strip().startswith('Accu:') and
             ',' not in s]
    cmp.require(len(shown) == (kind == 'val'), 'scores: %s', shown)
    if shown:
      cmp.close(float(shown[0].split(':')[1]), np.mean(acc), 'accuracy', 2e-6, 0)
  return [run] + (['nt'] if len(listed) > 1 else [])


FACETS = [
    Facet('scannet-script', strat_scannet, check_scannet, 120, 1500),
    Facet('script', strat_script, check_script, 160, 2000),
    Facet('workflow', strat, check_flow, 48, 600, heavy=True),
    Facet('resume', strat_resume, check_resume, 32, 400, heavy=True),
]
