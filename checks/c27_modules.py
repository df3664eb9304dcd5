"""C27: network modules are the documented compositions, with or without checkpointing."""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen, ref
from vlib.core import Facet, large

warnings.filterwarnings('ignore')

PROPERTY = 'C27'
RULE = ('every module (convolution / deconvolution / 1x1 / fully connected + batch norm + relu, '
        'both residual blocks with stride 1 and 2 and any bottleneck, block sequences) on '
        'generated octrees, layers, node modes and channels, in training and evaluation, '
        'compared in float64 with the composition of reference operators, running statistics '
        'included; checkpointed against plain execution; input features of every string; '
        'non-trivial: at least two rows with different outputs')
ASSUMPTIONS = ['training mode needs at least two rows (batch statistics)',
               'parameters are addressed by their names in the state dictionary']

KINDS = ['convbn', 'convbnrelu', 'deconvbnrelu', 'conv1x1', 'conv1x1bn', 'conv1x1bnrelu',
         'fcbnrelu', 'res1', 'res1', 'res2', 'res2', 'resblocks', 'resblocks']


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 4, 1, 2, max_batch=3, allow_empty=True, bulk=60, max_shapes=2,
                              deep=12))
  case['kind'] = draw(st.sampled_from(KINDS))
  case['nempty'] = draw(st.booleans())
  case['stride'] = draw(st.sampled_from([1, 2]))
  case['kernel'] = draw(st.sampled_from(ref.KERNELS))
  lo, hi = 1, case['depth']
  if case['kind'] == 'deconvbnrelu' and case['stride'] == 2:
    lo, hi = 0, case['depth'] - 1
  if case['kind'] in ('res1', 'res2') and case['stride'] == 2:
    if case['depth'] - 1 < 1:
      case['stride'] = 1
    else:
      # the block works on layer d-1, whose nodes all have non-empty children
      lo = max(2, case['full'] + 1) if case['nempty'] else 2
      if lo > hi:
        case['stride'], lo = 1, 1
  case['d'] = draw(st.integers(lo, hi))
  case['cin'] = draw(st.integers(1, 6))
  case['bneck'] = draw(st.sampled_from([1, 2, 4]))
  case['cout'] = draw(st.sampled_from([case['cin'], 4, 8])) if draw(st.booleans()) else 4
  case['cout'] = max(case['cout'], case['bneck'])
  case['num'] = draw(st.integers(1, 3))
  case['blk'] = draw(st.integers(1, 2))
  case['train'] = draw(st.booleans())
  case['salt'] = draw(gen.SALT)
  return case


class Ref:
  """Reference layers reading the state dictionary of the module under test."""

  def __init__(self, module, case, r):
    self.sd = {k: cmp.arr(v).astype(np.float64) for k, v in module.state_dict().items()}
    self.case, self.r, self.ne = case, r, case['nempty']
    self.train = case['train']
    self.stats = {}

  def get(self, name):
    cmp.require(name in self.sd, 'the module has no parameter %s', name)
    return self.sd[name]

  def bn(self, x, p):
    w, b = self.get(p + '.weight'), self.get(p + '.bias')
    if self.train:
      mean, var = x.mean(0), x.var(0)
      n = x.shape[0]
      rm, rv = self.get(p + '.running_mean'), self.get(p + '.running_var')
      self.stats[p + '.running_mean'] = 0.9 * rm + 0.1 * mean
      self.stats[p + '.running_var'] = 0.9 * rv + 0.1 * var * n / (n - 1)
    else:
      mean, var = self.get(p + '.running_mean'), self.get(p + '.running_var')
    return (x - mean) / np.sqrt(var + 1e-5) * w + b

  def conv(self, x, p, d, kernel='333', stride=1):
    return conv.conv_forward(self.r, x, self.get(p + '.weights'), d, kernel, stride, self.ne)

  def lin(self, x, p):
    y = x @ self.get(p + '.weight').T
    return y + self.sd[p + '.bias'] if p + '.bias' in self.sd else y

  def pool(self, x, d):
    rows = self.r.rows(d, self.ne).copy()
    rows[:, 1:] >>= 1
    p = self.r.levels[d - 1].index(rows, self.ne)
    out = np.full((self.r.num(d - 1, self.ne), x.shape[1]), -np.inf)
    np.maximum.at(out, p, x)
    out[~np.isfinite(out)] = 0
    return out

  def res1(self, x, p, d, stride, cin, cout):
    if stride == 2:
      x, d = self.pool(x, d), d - 1
    y = relu(self.bn(self.lin(x, p + 'conv1x1a.conv.linear'), p + 'conv1x1a.bn'))
    y = relu(self.bn(self.conv(y, p + 'conv3x3.conv', d), p + 'conv3x3.bn'))
    y = self.bn(self.lin(y, p + 'conv1x1b.conv.linear'), p + 'conv1x1b.bn')
    if cin != cout:
      x = self.bn(self.lin(x, p + 'conv1x1c.conv.linear'), p + 'conv1x1c.bn')
    return relu(x + y)

  def res2(self, x, p, d, stride, cin, cout):
    if stride == 2:
      x, d = self.pool(x, d), d - 1
    y = relu(self.bn(self.conv(x, p + 'conv3x3a.conv', d), p + 'conv3x3a.bn'))
    y = self.bn(self.conv(y, p + 'conv3x3b.conv', d), p + 'conv3x3b.bn')
    if cin != cout:
      x = self.bn(self.lin(x, p + 'conv1x1.conv.linear'), p + 'conv1x1.bn')
    return relu(x + y)


def relu(x):
  return np.maximum(x, 0)


def build(case, use_checkpoint=False):
  k, cin, cout, ne = case['kind'], case['cin'], case['cout'], case['nempty']
  M = ocnn.modules
  ks = [int(v) for v in case['kernel']]
  if k == 'convbn':
    m = M.OctreeConvBn(cin, cout, ks, case['stride'], ne)
  elif k == 'convbnrelu':
    m = M.OctreeConvBnRelu(cin, cout, ks, case['stride'], ne)
  elif k == 'deconvbnrelu':
    m = M.OctreeDeconvBnRelu(cin, cout, ks, case['stride'], ne)
  elif k == 'conv1x1':
    m = M.Conv1x1(cin, cout, case['salt'] % 2 == 0)
  elif k == 'conv1x1bn':
    m = M.Conv1x1Bn(cin, cout)
  elif k == 'conv1x1bnrelu':
    m = M.Conv1x1BnRelu(cin, cout)
  elif k == 'fcbnrelu':
    m = M.FcBnRelu(cin * 3, cout)
  elif k == 'res1':
    m = M.OctreeResBlock(cin, cout, case['stride'], case['bneck'], ne)
  elif k == 'res2':
    m = M.OctreeResBlock2(cin, cout, case['stride'], case['bneck'], ne)
  else:
    blk = M.OctreeResBlock if case['blk'] == 1 else M.OctreeResBlock2
    m = M.OctreeResBlocks(cin, cout, case['num'], case['bneck'], ne, blk, use_checkpoint)
  m = m.double()
  with torch.no_grad():
    for i, (name, p) in enumerate(sorted(m.state_dict().items())):
      if p.is_floating_point():
        v = gen.real_data(p.shape, case['salt'], i, torch.float64) if p.numel() else p
        p.copy_(v * 0.5 + 1.0 if name.endswith('running_var') else v)
  return m.train(case['train'])


def run(m, x, octree, case):
  if case['kind'] in ('conv1x1', 'conv1x1bn', 'conv1x1bnrelu', 'fcbnrelu'):
    return m(x)
  return m(x, octree, case['d'])


def check(case):
  k, ne, d = case['kind'], case['nempty'], case['d']
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  n = r.num(d, ne)
  cin, cout, s = case['cin'], case['cout'], case['stride']
  if case['train']:
    rows = [n]
    if s == 2 and k in ('convbn', 'convbnrelu', 'res1', 'res2'):
      rows.append(r.num(d - 1, ne))
    if min(rows) < 2:
      case['train'] = False
  m = build(case)
  R = Ref(m, case, r)
  x = gen.real_data((n, cin * 3 if k == 'fcbnrelu' else cin), case['salt'], 99, torch.float64)
  xn = x.numpy()
  if k == 'convbn':
    y = R.bn(R.conv(xn, 'conv', d, case['kernel'], s), 'bn')
  elif k == 'convbnrelu':
    y = relu(R.bn(R.conv(xn, 'conv', d, case['kernel'], s), 'bn'))
  elif k == 'deconvbnrelu':
    y = conv.deconv_forward(r, xn, R.get('deconv.weights'), d, case['kernel'], s, ne)
    if case['train'] and y.shape[0] < 2:
      return []
    y = relu(R.bn(y, 'bn'))
  elif k == 'conv1x1':
    y = R.lin(xn, 'linear')
  elif k == 'conv1x1bn':
    y = R.bn(R.lin(xn, 'conv.linear'), 'bn')
  elif k == 'conv1x1bnrelu':
    y = relu(R.bn(R.lin(xn, 'conv.linear'), 'bn'))
  elif k == 'fcbnrelu':
    y = relu(R.bn(R.lin(xn, 'fc'), 'bn'))
  elif k in ('res1', 'res2'):
    y = getattr(R, k)(xn, '', d, s, cin, cout)
  else:
    y, c = xn, cin
    for i in range(case['num']):
      y = getattr(R, 'res%d' % case['blk'])(y, 'resblks.%d.' % i, d, 1, c, cout)
      c = cout
  if k == 'fcbnrelu' and case['salt'] % 3:
    x = x.reshape(n, cin, 3)
  keep, before = x.clone(), cmp.snap_octree(octree)
  out = run(m, x, octree, case)
  w = '%s(stride %d, nempty=%s, train=%s)' % (k, s, ne, case['train'])
  cmp.close(out, y, w, 1e-7, 1e-6)
  cmp.equal(x, keep, w + ': input')
  cmp.same(before, cmp.snap_octree(octree), w + ': octree')
  sd = m.state_dict()
  for name, v in R.sd.items():
    if name.endswith('num_batches_tracked'):
      continue
    cmp.close(sd[name], R.stats.get(name, v), '%s: %s afterwards' % (w, name), 1e-7, 1e-6)
  tags = [k, 'train' if case['train'] else 'eval', 'stride%d' % s]
  # checkpointing changes nothing but the memory
  if k == 'resblocks':
    res = []
    for ck in (False, True):
      mm = build(case, ck)
      xx = x.clone().requires_grad_(True)
      o = run(mm, xx, octree, case)
      o.backward(gen.real_data(o.shape, case['salt'], 5, torch.float64))
      for name, p in mm.named_parameters():
        cmp.require(p.grad is not None, '%s: no gradient of %s', w, name)
      cmp.require(xx.grad is not None, '%s: no gradient of the input', w)
      res.append([o.detach(), xx.grad] + [p.grad for _, p in sorted(mm.named_parameters())])
    for a, b in zip(*res):
      cmp.close(b, a, w + ': checkpointed', 1e-8, 1e-7)
    tags.append('checkpoint')
  if y.shape[0] > 1 and np.abs(y - y[:1]).max() > 1e-6:
    tags.append('nt')
  return tags


@st.composite
def strat_ckpt(draw):
  case = draw(gen.octree_case(1, 4, 1, 2, max_batch=2, bulk=60, max_shapes=2))
  case['nempty'] = draw(st.booleans())
  case['d'] = draw(st.integers(1, case['depth']))
  case['cin'], case['cout'] = draw(st.integers(1, 4)), draw(st.integers(1, 4))
  case['op'] = draw(st.sampled_from(['conv', 'block']))
  case['xgrad'] = draw(st.booleans())
  case['train'] = draw(st.booleans())
  case['feat'] = draw(st.sampled_from(['N', 'D', 'L', 'P', 'F', 'ND', 'nd', 'FLN', 'ndlpf',
                                       'PDN', 'Fp']))
  case['salt'] = draw(gen.SALT)
  return case


def check_ckpt(case):
  """The checkpoint wrapper for first layers, and InputFeature."""
  octree = gen.make_octree(case)
  r = gen.make_ref(case)
  d, ne = case['d'], case['nempty']
  n = r.num(d, ne)
  if n < 2:
    case['train'] = False
  x = gen.real_data((n, case['cin']), case['salt'], 3)
  res = []
  for ck in (False, True):
    torch.manual_seed(case['salt'])
    if case['op'] == 'conv':
      m = ocnn.nn.OctreeConv(case['cin'], case['cout'], [3], 1, ne, use_bias=True)
    else:
      m = ocnn.modules.OctreeConvBnRelu(case['cin'], case['cout'], [3], 1, ne)
    m.train(case['train'])
    xx = x.clone().requires_grad_(case['xgrad'])
    f = lambda a, o: m(a, o, d)
    o = ocnn.modules.modules.ckpt_conv_wrapper(f, xx, octree) if ck else f(xx, octree)
    (o * gen.real_data(o.shape, case['salt'], 4)).sum().backward()
    for name, p in m.named_parameters():
      cmp.require(p.grad is not None, 'checkpointed first layer: no gradient of %s', name)
    cmp.require((xx.grad is not None) == case['xgrad'], 'gradient of the input')
    res.append([o.detach()] + ([xx.grad] if case['xgrad'] else []) +
               [p.grad for _, p in sorted(m.named_parameters())])
  for a, b in zip(*res):
    cmp.close(b, a, 'checkpointed first layer', 1e-5, 1e-5)
  # input features
  case['channel'] = 3
  m = ocnn.modules.InputFeature(case['feat'], ne)
  got = m(octree)
  exp = octree.get_input_feature(case['feat'].upper(), ne)
  cmp.equal(got, exp, 'InputFeature(%s)' % case['feat'])
  width = {'N': 3, 'D': 1, 'L': 3, 'P': 3, 'F': 3}
  cmp.shape(got, (r.num(case['depth'], ne), sum(width[c] for c in case['feat'].upper())),
            'InputFeature')
  return ['nt', case['op']] if n > 1 else []


FACETS = [Facet('composition', strat, check, 1500, 25000),
          Facet('checkpoint', strat_ckpt, check_ckpt, 400, 6000)]
FACETS += [large(f, 48, 800) for f in FACETS if f.name == 'composition']
