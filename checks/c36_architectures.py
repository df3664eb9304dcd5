"""C36: every network computes the function of its published architecture."""
import contextlib
import copy

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
import ocnn

from vlib import boot, cmp, conv, gen, models, ref
from vlib.core import Facet, Mismatch

PROPERTY = 'C36'
RULE = ('every network of C24, C25 and C26 with generated configurations (the default UNet and '
        'HRNet included), on generated batches with random features, in float64, training and '
        'evaluation: outputs, running statistics and the set and shapes of the parameters '
        'compared with the published architecture written out with the reference operators of '
        'C27 on the reference octree; non-trivial: the outputs of two rows differ')
ASSUMPTIONS = ['training mode needs several rows in every layer; dropout is switched off',
               'SegNet is not judged where two siblings have the same pooled value',
               'parameters are addressed by their names in the state dictionary']

c24, c25, c26, c27, c33 = (boot.load_check(c) for c in ('C24', 'C25', 'C26', 'C27', 'C33'))
relu = c27.relu


class Skip(Exception):
  pass


class Net(c27.Ref):
  """The reference operators, checking the widths and that every parameter is used."""

  def __init__(self, module, case, r):
    super().__init__(module, case, r)
    self.used = set()
    self.noise = None          # of rounding size, to see how it is amplified

  def get(self, name):
    self.used.add(name)
    return super().get(name)

  def bn(self, x, p):
    if self.train and x.shape[0] < 2:
      raise Skip('single row')
    if self.noise is not None and x.size:
      x = x + self.noise.standard_normal(x.shape) * (1e-13 * np.abs(x).max())
    return super().bn(x, p)

  def lin(self, x, p, cout=None, bias=False):
    w = self.get(p + '.weight')
    cmp.require(w.shape == (cout or w.shape[0], x.shape[1]), '%s has the shape %s for %d -> %s '
                'channels', p, w.shape, x.shape[1], cout)
    y = x @ w.T
    return y + self.get(p + '.bias') if bias else y

  def conv(self, x, p, d, kernel='333', stride=1, cout=None):
    w = self.get(p + '.weights')
    k = conv.kdim(kernel)
    cmp.require(w.shape == (k, x.shape[1], cout or w.shape[2]), '%s has the shape %s for '
                '%d -> %s channels', p, w.shape, x.shape[1], cout)
    return conv.conv_forward(self.r, x, w, d, kernel, stride, self.ne)

  def cbr(self, x, p, d, cout, kernel='333', stride=1):
    return relu(self.bn(self.conv(x, p + '.conv', d, kernel, stride, cout), p + '.bn'))

  def dbr(self, x, p, d, cout):
    """Deconvolution from layer d to d + 1."""
    w = self.get(p + '.deconv.weights')
    cmp.require(w.shape == (8, x.shape[1], cout) or w.shape == (8, cout, x.shape[1]),
                '%s has the shape %s', p, w.shape)
    return relu(self.bn(conv.deconv_forward(self.r, x, w, d, '222', 2, self.ne), p + '.bn'))

  def c1br(self, x, p, cout):
    return relu(self.bn(self.lin(x, p + '.conv.linear', cout), p + '.bn'))

  def fbr(self, x, p, cout):
    return relu(self.bn(self.lin(x, p + '.fc', cout), p + '.bn'))

  def head(self, x, p, hidden, cout):
    x = self.c1br(x, p + '.0', hidden)
    return self.lin(x, p + '.1.linear', cout, True)

  def blocks(self, x, p, d, num, cout, bneck, blk=1):
    for i in range(num):
      q = '%s.resblks.%d.' % (p, i)
      mid = self.get(q + ('conv3x3.conv' if blk == 1 else 'conv3x3a.conv') + '.weights').shape[2]
      cmp.require(mid == cout // bneck, '%s: the bottleneck has %d channels, not %d', q, mid,
                  cout // bneck)
      x = getattr(self, 'res%d' % blk)(x, q, d, 1, x.shape[1], cout)
      cmp.require(x.shape[1] == cout, '%s: %d channels', q, x.shape[1])
    return x

  def gpool(self, x, d):
    b = self.r.batch_id(d, self.ne)
    out = np.zeros((self.r.batch, x.shape[1]))
    np.add.at(out, b, x)
    return out / np.maximum(np.bincount(b, minlength=self.r.batch), 1)[:, None]

  def voxel(self, x, d):
    rows = self.r.rows(d, self.ne)
    s = 1 << d
    out = np.zeros((self.r.batch, s, s, s, x.shape[1]))
    out[rows[:, 0], rows[:, 1], rows[:, 2], rows[:, 3]] = x
    return out.reshape(self.r.batch, -1)

  def family(self, d):
    rows = self.r.rows(d, self.ne).copy()
    rows[:, 1:] >>= 1
    return self.r.levels[d - 1].index(rows, self.ne)

  def upsample(self, x, d):
    return x[self.family(d + 1)]

  def winners(self, x, d):
    """For every parent and channel the child with the largest value."""
    p, m = self.family(d), self.pool(x, d)
    best = x >= m[p]
    cnt = np.zeros(m.shape)
    np.add.at(cnt, p, x > m[p] - 1e-9)
    has = np.bincount(p, minlength=m.shape[0]) > 0
    if (cnt[has] != 1).any():
      raise Skip('tie')
    return p, best

  def interp(self, x, d, q, method):
    ok = np.ones(q.shape[0], bool)
    p = (q[:, :3] + 1.0) * 2.0 ** (d - 1)
    b, lv = q[:, 3].astype(np.int64), self.r.levels[d]
    if method == 'nearest':
      idx = lv.index(np.concatenate([b[:, None], np.floor(p).astype(np.int64)], 1), self.ne)
      return ref.gather(x, idx), ok
    cell = np.floor(p - 0.5)
    frac = p - 0.5 - cell
    out, norm = np.zeros((q.shape[0], x.shape[1])), np.zeros(q.shape[0])
    for o in np.ndindex(2, 2, 2):
      w = np.where(o, frac, 1 - frac).prod(1)
      idx = lv.index(np.concatenate([b[:, None], cell.astype(np.int64) + o], 1), self.ne)
      w = np.where(idx >= 0, w, 0)
      out += ref.gather(x, idx) * w[:, None]
      norm += w
    ok = (norm == 0) | (norm > 1e-4)     # the others are divided by almost nothing
    if self.train and not ok.all():
      raise Skip('tiny weights')
    return out / np.where(norm > 0, norm, 1)[:, None], ok


# ---------------------------------------------------------------------------
# the architectures
# ---------------------------------------------------------------------------

def lenet(n, case, x, d):
  s = case['stages']
  for i in range(s):
    x = n.cbr(x, 'convs.%d' % i, d, 2 ** max(i + 7 - s, 2))
    x, d = n.pool(x, d), d - 1
  x = n.fbr(n.voxel(x, d), 'header.1', 128)
  return [n.lin(x, 'header.3', case['out'], True)]


def resnet(n, case, x, d):
  s = case['stages']
  ch = [2 ** max(i + 9 - s, 2) for i in range(s)]
  x = n.cbr(x, 'conv1', d, ch[0])
  x, d = n.pool(x, d), d - 1
  for i in range(s - 1):
    x = n.blocks(x, 'resblocks.%d' % i, d, case['blocks'], ch[i + 1], 4)
    x, d = n.pool(x, d), d - 1
  x = n.fbr(n.gpool(x, d), 'header.0', 512)
  return [n.lin(x, 'header.2', case['out'], True)]


def hrnet(n, case, x, d):
  s = case['stages']
  ch = [128, 256, 512, 512]
  x = n.pool(n.cbr(x, 'front.conv.0', d, 32), d)
  d -= 1
  xs = [n.cbr(x, 'front.conv.1', d, 128)]
  for i in range(s):
    xs = [n.blocks(v, 'branches.%d.resblocks.%d' % (i, j), d - j, 3, ch[j],
                   4 if ch[j] < 256 else 8) for j, v in enumerate(xs)]
    if i == s - 1:
      break
    num = i + 2
    new = [0] * num
    for a in range(num - 1):
      for b in range(num):
        v, p = xs[a], 'transitions.%d.trans_func.%d.conv1x1' % (i, a * num + b)
        for k in range(d - a, d - b, -1):       # to a coarser branch
          v = n.pool(v, k)
        if ch[a] != ch[b]:
          v = n.c1br(v, p, ch[b])
        for k in range(d - a, d - b):           # to a finer branch
          v = n.upsample(v, k)
        new[b] = new[b] + v
    xs = new
  for j in range(s):
    for k in range(d - j, 2, -1):
      xs[j] = n.pool(xs[j], k)
  x = n.c1br(np.concatenate(xs, 1), 'cls_header.conv1x1', 1024)
  return [n.lin(n.gpool(x, 2), 'cls_header.header.1', case['out'], True)]


def segnet(n, case, x, d, q):
  s = case['stages']
  ch = [2 ** max(i + 8 - s, 2) for i in range(s)]
  back = []
  for i in range(s):
    x = n.cbr(x, 'convs.%d' % i, d, ch[i])
    back.append((n.winners(x, d), x.shape))
    x, d = n.pool(x, d), d - 1
  x = n.cbr(x, 'bottleneck', d, ch[-1])
  for i in range(s):
    (p, best), shape = back.pop()
    x = np.where(best, x[p], 0)
    d += 1
    x = n.cbr(x, 'deconvs.%d' % i, d, (ch[::-1] + ch[:1])[i + 1])
  x, ok = n.interp(x, d, q, case['interp'])
  return [n.head(x, 'header', 64, case['out']), ok]


def unet(n, case, x, d, q):
  if case['net'] == 'unet-default':
    c = {'encoder_channel': [32, 32, 64, 128, 256], 'decoder_channel': [256, 256, 128, 96, 96],
         'encoder_blocks': [2, 3, 4, 6], 'decoder_blocks': [2, 2, 2, 2], 'head_channel': 64,
         'bottleneck': 1}
    blk = 2
  else:
    c, blk = c25.unet_conf(case), case['blk']
  skip = {d: n.cbr(x, 'conv1', d, c['encoder_channel'][0])}
  for i, num in enumerate(c['encoder_blocks']):
    ch = c['encoder_channel'][i + 1]
    x = n.cbr(skip[d], 'downsample.%d' % i, d, ch, '222', 2)
    d -= 1
    skip[d] = n.blocks(x, 'encoder.%d' % i, d, num, ch, c['bottleneck'], blk)
  x = skip[d]
  for i, num in enumerate(c['decoder_blocks']):
    ch = c['decoder_channel'][i + 1]
    x = n.dbr(x, 'upsample.%d' % i, d, ch)
    d += 1
    x = n.blocks(np.concatenate([skip[d], x], 1), 'decoder.%d' % i, d, num, ch,
                 c['bottleneck'], blk)
  x, ok = n.interp(x, d, q, case['interp'])
  return [n.head(x, 'header', c['head_channel'], case['out']), ok]


def encoder(n, case, x, ch):
  d, f = case['depth'], case['full']
  out = {d: n.cbr(x, 'conv1', d, ch[d])}
  for i, l in enumerate(range(d, f - 1, -1)):
    out[l] = n.blocks(out[l], 'encoder_blks.%d' % i, l, 2, ch[l], 4)
    if l > f:
      out[l - 1] = n.cbr(out[l], 'downsample.%d' % i, l, ch[l - 1], '222', 2)
  return out


def decoder(n, case, x, ch, skip=None):
  d, f = case['depth'], case['full']
  res = []
  for i, l in enumerate(range(f, d + 1)):
    if l > f:
      x = n.dbr(x, 'upsample.%d' % (i - 1), l - 1, ch[l])
      if skip is not None:
        x = x + skip(l)
    x = n.blocks(x, 'decoder_blks.%d' % i, l, 2, ch[l], 4)
    res.append(n.head(x, 'predict.%d' % i, 64, 2))
  sig = np.tanh(n.head(x, 'header', 64, case['cout']))
  return res + [sig[n.r.levels[d].nempty]]


AE = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
I2S = [512, 512, 256, 256, 128, 128, 64, 64, 32, 32]


def autoencoder(n, case, x):
  ch = list(AE)
  code = encoder(n, case, x, ch)[case['full']]
  ch[case['full']] = case['code'] if case['code'] > 0 else ch[case['full']]
  code = np.tanh(n.lin(code, 'proj', ch[case['full']], True))
  return decoder(n, case, code, ch)


def ounet(n, case, x, rin, rout):
  convs = encoder(n, case, x, AE)
  n.r = rout

  def skip(l):
    idx = rin.levels[l].index(rout.rows(l, False))
    return ref.gather(convs[l], idx)
  return decoder(n, case, convs[case['full']], AE, skip)


# ---------------------------------------------------------------------------

@st.composite
def strat(draw):
  fam = draw(st.sampled_from(['cls', 'seg', 'gen']))
  case = draw({'cls': c24, 'seg': c25, 'gen': c26}[fam].strat())
  if fam == 'gen':
    case['bias'] = [max(min(b, 1.0), -1.0) for b in case['bias']]
  case['fam'] = fam
  case['train'] = draw(st.booleans())
  if draw(st.integers(0, 5)) == 0:       # deeper networks on a few points
    net = case['net']
    if net in ('lenet', 'segnet', 'resnet', 'hrnet'):
      lo, hi, d = {'lenet': (5, 8, 2), 'segnet': (4, 8, 1), 'resnet': (4, 6, 1),
                   'hrnet': (3, 4, 2)}[net]
      case['stages'] = draw(st.integers(lo, hi))
      case['depth'], case['full'] = case['stages'] + d, min(case['full'], d)
    elif fam == 'gen':
      case['depth'] = draw(st.integers(6, 9))
      case['bias'] = [-1.0] * (case['depth'] + 1 - case['full'])
      case['gt'] = ['mx' if g == 'other' else g for g in case['gt']]
    n = len(case['samples'])
    case['samples'] = [[{'k': 'rnd', 'n': 2 + i, 'r': draw(gen.SALT)}] for i in range(n)]
  case['salt'] = draw(gen.SALT)
  # decode: the decoder follows its own predictions instead of a given octree
  case['decode'] = fam == 'gen' and case['depth'] <= 5 and draw(st.integers(0, 2)) == 0
  return case


def model_of(case):
  _, m = c33.model_of(case)
  m = copy.deepcopy(m).double()
  if case['net'] == 'segnet':      # few values are cut off by the ReLUs before the pooling:
    with torch.no_grad():          # where siblings agree, any of them may win
      for k in m.convs:
        k.bn.bias += 4.0
  return m.train(case['train'])


@contextlib.contextmanager
def no_dropout():
  old = F.dropout, torch.dropout
  F.dropout = lambda x, *a, **k: x
  torch.dropout = lambda x, *a, **k: x
  try:
    yield
  finally:
    F.dropout, torch.dropout = old


def check(case):
  with no_dropout():
    return check_architecture(case)


def check_architecture(case):
  m = model_of(case)
  w = '%s(%s)' % (case['net'], 'training' if case['train'] else 'evaluation')
  x = c33.inputs_of(case, torch.float64)
  r = gen.make_ref(case)
  net, ne, d = case['net'], case.get('nempty', False), case['depth']
  n = Net(m, dict(case, nempty=ne), r)
  ok = None
  tags = [net, 'train' if case['train'] else 'eval']
  try:
    if case['fam'] in ('cls', 'seg'):
      o, *q = x
      data = gen.real_data((r.num(d, ne), models.channels(case['feat'])), case['salt'], 1,
                           torch.float64)
      fn = {'lenet': lenet, 'resnet': resnet, 'hrnet': hrnet, 'segnet': segnet, 'unet': unet,
            'unet-default': unet}[net]
      q = [v.double() for v in q]
      for v in q:            # the upper faces do not belong to the volume
        v[:, :3].clamp_(max=1 - 1e-6)

      def expected(n):
        return fn(n, case, data.numpy(), d, *(v.numpy() for v in q))
      exp = expected(n)
      if case['fam'] == 'seg':
        ok = exp.pop()
      got = [m(data, o, d, *q)]
    else:
      got, expected = generative(case, m, x, r, w)
      exp = expected(n)
  except Skip as e:
    return tags + ['skip-' + str(e).replace(' ', '-')]
  nt = False
  cmp.require(len(got) == len(exp), '%s: %d outputs', w, len(got))
  for i, (a, e) in enumerate(zip(got, exp)):
    a = a.detach()
    cmp.require(a.dtype == torch.float64, '%s: output %d is %s', w, i, a.dtype)
    cmp.shape(a, e.shape, '%s: output %d' % (w, i))
    nt |= bool(e.shape[0] > 1 and np.abs(e - e[:1]).max() > 1e-3)
  names = {k for k in n.sd if not k.endswith('num_batches_tracked')}
  if net == 'i2s':
    names = {k for k in names if not k.startswith('resnet18.')}
  if case['train']:
    names = {k for k in names if not k.endswith(('running_mean', 'running_var'))}
  cmp.require(names <= n.used, '%s: %s is not part of the architecture', w,
              sorted(names - n.used)[:3])
  try:
    values(case, m, n, got, exp, ok, w)
  except Mismatch:
    if not case['train'] or well_conditioned(case, m, n, r, expected, exp):
      raise
    tags.append('ill-conditioned')
  return tags + (['nt'] if nt else [])


def values(case, m, n, got, exp, ok, w):
  for i, (a, e) in enumerate(zip(got, exp)):
    a = a.detach()
    if ok is not None:
      a, e = a[torch.from_numpy(ok)], e[ok]
    models.near(a, e, '%s: output %d of %d' % (w, i, len(exp)), 1e-6)
  sd = m.state_dict()
  for name in n.sd:
    if name.endswith('num_batches_tracked') or name.startswith('resnet18.'):
      continue
    e = n.stats.get(name, n.sd[name])
    models.near(sd[name], e, '%s: %s afterwards' % (w, name), 1e-6)


def well_conditioned(case, m, old, r, expected, exp):
  """Normalisation by a batch deviation which is nearly zero, layer upon layer, can amplify
  rounding to any size: then nothing can be said."""
  n = Net(m, dict(case, nempty=case.get('nempty', False)), r)
  n.sd, n.noise = old.sd, np.random.default_rng(1)
  new = expected(n)
  try:
    for a, e in zip(new, exp):
      models.near(a, e, 'output', 1e-6)
    for k in old.stats:
      models.near(n.stats[k], old.stats[k], k, 1e-6)
  except Mismatch:
    return False
  return True


def generative(case, m, x, r, w):
  net = case['net']
  octree = x[-1]
  feed = None
  if net != 'i2s':
    feed = cmp.arr(octree.get_input_feature(case['feat'], False)).astype(np.float64)
  else:
    sd = {k[len('resnet18.'):]: v.clone() for k, v in m.state_dict().items()
          if k.startswith('resnet18.')}
    from torchvision.models import resnet18
    enc = resnet18()
    enc.fc = torch.nn.Linear(512, enc_width(case))
    enc = enc.double()
    enc.load_state_dict(sd)
    enc.train(m.training)
    try:
      with torch.no_grad():
        code = enc(x[0])
    except ValueError:
      raise Skip('single row')
    image_code = code.numpy().reshape(-1, case['code'] or 5)
  try:
    if case['decode']:
      with torch.no_grad():
        out = c26.Net(case, m).free(octree) if net != 'i2s' else m(x[0], update_octree=True)
      rout, splits = c26.check_output(out, case, r.batch, w)
    elif net == 'ounet':
      g = c26.guide_case(case)
      given = c33.inputs_of(dict(g, fam='gen'), torch.float64)[0]
      rout = gen.make_ref(g)
      out = m(octree, given)
    elif net == 'ae':
      out, rout = m(octree, False), r
    else:
      out, rout = m(x[0], octree), r
  except ValueError as e:
    if 'more than 1 value per channel' in str(e):
      raise Skip('single row')
    raise
  got = [out['logits'][l] for l in sorted(out['logits'])] + [out['signal']]

  def expected(n):
    if net == 'ae':
      ch = list(AE)
      code = np.tanh(n.lin(encoder(n, case, feed, ch)[case['full']], 'proj', None, True))
      ch[case['full']] = case['code'] if case['code'] > 0 else ch[case['full']]
      cmp.require(code.shape[1] == ch[case['full']], '%s: the code has %d channels', w,
                  code.shape[1])
      n.r = rout
      return decoder(n, case, code, ch)
    if net == 'ounet':
      return ounet(n, case, feed, r, rout)
    n.r = rout
    ch = list(I2S)
    ch[case['full']] = case['code'] or 5
    return decoder(n, case, image_code, ch)
  return got, expected


def enc_width(case):
  return (case['code'] or 5) * 8 ** case['full']


# ---------------------------------------------------------------------------
# dropout
# ---------------------------------------------------------------------------

@st.composite
def strat_dropout(draw):
  case = draw(c24.strat().filter(lambda c: c['net'] != 'hrnet'))
  case['fam'], case['train'] = 'cls', False
  case['salt'] = draw(gen.SALT)
  case['passes'] = draw(st.integers(2, 6))
  return case


def check_dropout(case):
  """With frozen statistics and an output layer that copies its input, the outputs of training
  are zero or the values of evaluation divided by the chance to survive."""
  lenet_ = case['net'] == 'lenet'
  case = dict(case, out=128 if lenet_ else 512)
  m = model_of(case)
  sd = m.state_dict()
  last = 'header.3' if lenet_ else 'header.2'
  with torch.no_grad():
    sd[last + '.weight'].copy_(torch.eye(case['out']))
    sd[last + '.bias'].zero_()
    if lenet_:             # the layer between the two dropouts copies 128 of its inputs
      sel = np.argsort(gen.int_array((4096,), case['salt'], 7, -2 ** 30, 2 ** 30), kind='stable')
      sd['header.1.fc.weight'].zero_()
      sd['header.1.fc.weight'][torch.arange(128), torch.from_numpy(sel[:128])] = 1
      for k, v in (('weight', 1), ('bias', 0), ('running_mean', 0), ('running_var', 1)):
        sd['header.1.bn.' + k].fill_(v)
  o, = c33.inputs_of(case, torch.float64)
  r = gen.make_ref(case)
  n = Net(m, case, r)
  d = case['depth']
  data = gen.real_data((r.num(d, case['nempty']), models.channels(case['feat'])), case['salt'],
                       1, torch.float64)
  full = (lenet if lenet_ else resnet)(n, case, data.numpy(), d)[0]
  with torch.no_grad():
    models.near(m(data, o, d), full, case['net'] + '(evaluation)', 1e-6)
  m.train()
  for k in m.modules():
    if isinstance(k, torch.nn.modules.batchnorm._BatchNorm):
      k.eval()
  live = full > 1e-6 * max(1.0, np.abs(full).max())
  p = 0.25 if lenet_ else 0.5
  kept = total = 0
  with torch.no_grad():
    for i in range(case['passes']):
      y = cmp.arr(m(data, o, d), case['net'])[live] / full[live]
      one = np.abs(y - 1 / p) < 1e-6 / p * 10
      cmp.require(bool((one | (np.abs(y) < 1e-9)).all()), '%s(training): a value is neither '
                  'dropped nor divided by %s', case['net'], p)
      kept, total = kept + int(one.sum()), total + y.size
  cmp.require(abs(kept - p * total) <= 1 + 6 * np.sqrt(p * (1 - p) * total),
              '%s(training): %d of %d values survive, expected %s of them', case['net'], kept,
              total, p)
  return [case['net']] + (['nt'] if total >= 100 else [])


FACETS = [Facet('architecture', strat, check, 1200, 16000, heavy=True),
          Facet('dropout', strat_dropout, check_dropout, 120, 2000, heavy=True)]
