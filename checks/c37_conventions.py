"""C37: the same arguments mean the same, by position, by name, or left out for the default."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, Points

from vlib import boot, cmp, gen, ref
from vlib.core import Facet

PROPERTY = 'C37'
RULE = ('a public operator, module, network, octree or cloud method and a value for each of its '
        'arguments; the call with all arguments by name compared with calls in which a prefix is '
        'given by position and arguments with the documented default are left out: results, '
        'parameters and the objects afterwards are equal; non-trivial: at least one argument '
        'is left out or given by position')
ASSUMPTIONS = ['the documented defaults and order of arguments are those of the published '
               'signatures', 'arguments that only bound the memory use are not observable']

REQ = object()
B = st.booleans()
NE = ('nempty', False, B)
ST = ('stride', 1, st.sampled_from([1, 2]))
KS = ('kernel_size', [3], st.sampled_from([[3], [2], [3, 1], [1, 3, 3], [3, 3, 1]]))
KN = ('kernel_size', '333', st.sampled_from(ref.KERNELS))
CIN, COUT = ('in_channels', REQ, '@cin'), ('out_channels', REQ, '@cout')
DATA, OCT, DEP = ('data', REQ, '@data'), ('octree', REQ, '@octree'), ('depth', REQ, '@depth')
QP = ('pts', REQ, '@pts')
BIAS = ('use_bias', False, B)
BUF = ('max_buffer', int(2e8), st.sampled_from([100, 1000]))
INTERP = ('interp', 'linear', st.sampled_from(['linear', 'nearest']))
CONV = [CIN, COUT, KS, ST, NE, ('direct_method', False, B), BIAS, BUF]
FULL = ('full_depth', 2, st.integers(1, 3))
FEAT = st.sampled_from(['ND', 'L', 'NDF'])
DEV = ('device', 'cpu', st.just('cpu'))
BS = ('batch_size', 1, st.integers(1, 3))

# name -> the arguments in the documented order: (name, default, values)
MODULES = {
    'nn.OctreeConv': CONV, 'nn.OctreeDeconv': CONV,
    'nn.OctreeDWConv': [CIN, KS, ST, NE, BIAS, BUF],
    'nn.OctreeGroupConv': [CIN, COUT, KS, ST, NE, BIAS, ('group', 1, st.sampled_from([1, 2]))],
    'nn.OctreeGroupNorm': [CIN, ('group', REQ, st.sampled_from([1, 2])), NE],
    'nn.OctreeInstanceNorm': [CIN, NE],
    'nn.Octree2Voxel': [NE], 'nn.OctreeGlobalPool': [NE],
    'nn.OctreeMaxPool': [NE, ('return_indices', False, B)],
    'nn.OctreeMaxUnpool': [NE],
    'nn.OctreeAvgPool': [('kernel_size', REQ, KS[2]), ('stride', REQ, ST[2]), NE],
    'nn.OctreeDropPath': [('drop_prob', 0.0, st.sampled_from([0.3, 0.6])), NE,
                          ('scale_by_keep', True, B)],
    'nn.OctreeInterp': [('method', 'linear', INTERP[2]), NE, ('bound_check', False, B),
                        ('rescale_pts', True, B)],
    'nn.OctreeUpsample': [('method', 'linear', INTERP[2]), NE],
    'modules.Conv1x1': [CIN, COUT, BIAS],
    'modules.Conv1x1Bn': [CIN, COUT], 'modules.Conv1x1BnRelu': [CIN, COUT],
    'modules.FcBnRelu': [CIN, COUT],
    'modules.InputFeature': [('feature', 'NDF', FEAT), NE],
    'modules.OctreeConvBn': [CIN, COUT, KS, ST, NE],
    'modules.OctreeConvBnRelu': [CIN, COUT, KS, ST, NE],
    'modules.OctreeDeconvBnRelu': [CIN, COUT, KS, ST, NE],
    'modules.OctreeResBlock': [CIN, COUT, ST, ('bottleneck', 4, st.sampled_from([1, 2])), NE],
    'modules.OctreeResBlock2': [CIN, COUT, ST, ('bottleneck', 1, st.sampled_from([2, 4])), NE],
    'modules.OctreeResBlocks': [CIN, COUT, ('resblk_num', REQ, st.integers(1, 2)),
                                ('bottleneck', 4, st.sampled_from([1, 2])), NE,
                                ('resblk', '@blk1', st.sampled_from(['@blk1', '@blk2'])),
                                ('use_checkpoint', False, B)],
}
NETS = {
    'models.LeNet': [CIN, COUT, ('stages', REQ, st.just(1)), NE],
    'models.ResNet': [CIN, COUT, ('resblock_num', REQ, st.integers(1, 2)),
                      ('stages', REQ, st.just(2)), NE],
    'models.HRNet': [CIN, COUT, ('stages', 3, st.integers(1, 2)), INTERP, NE],
    'models.SegNet': [CIN, COUT, ('stages', REQ, st.integers(1, 2)), INTERP, NE],
    'models.UNet': [CIN, COUT, INTERP, NE],
    'models.AutoEncoder': [('channel_in', REQ, '@feat'), ('channel_out', REQ, st.integers(1, 4)),
                           DEP, FULL, ('feature', 'ND', FEAT),
                           ('code_channel', 64, st.sampled_from([4, 0]))],
    'models.OUNet': [('channel_in', REQ, '@feat'), ('channel_out', REQ, st.integers(1, 4)),
                     DEP, FULL, ('feature', 'ND', FEAT)],
    'models.Image2Shape': [('channel_out', REQ, st.integers(1, 4)), DEP, FULL,
                           ('code_channel', 32, st.sampled_from([4, 8]))],
}
FUNCS = {
    'nn.octree2col': [DATA, OCT, DEP, KN, ST, NE],
    'nn.col2octree': [('data', REQ, '@col'), OCT, DEP, KN, ST, NE],
    'nn.octree2voxel': [DATA, OCT, DEP, NE],
    'nn.octree_align': [('value', REQ, '@data'), OCT, ('octree_query', REQ, '@other'), DEP, NE],
    'nn.octree_avg_pool': [DATA, OCT, DEP, ('kernel', REQ, KN[2]), ('stride', 2, ST[2]), NE],
    'nn.octree_global_pool': [DATA, OCT, DEP, NE],
    'nn.octree_linear_pts': [DATA, OCT, DEP, QP, NE, ('bound_check', False, B)],
    'nn.octree_nearest_pts': [DATA, OCT, DEP, QP, NE, ('bound_check', False, B)],
    'nn.octree_max_pool': [DATA, OCT, DEP, NE, ('return_indices', False, B)],
    'nn.octree_max_unpool': [('data', REQ, '@pooled'), ('indices', REQ, '@indices'), OCT,
                             ('depth', REQ, '@depth-1'), NE],
    'nn.octree_pad': [('data', REQ, '@nedata'), OCT, DEP, ('val', 0.0, st.sampled_from([1., -2.]))],
    'nn.octree_depad': [('data', REQ, '@alldata'), OCT, DEP],
    'nn.search_value': [('value', REQ, '@alldata'), ('key', REQ, '@keys'), ('query', REQ, '@qkeys')],
    'octree.xyz2key': [('x', REQ, '@x'), ('y', REQ, '@y'), ('z', REQ, '@z'),
                       ('b', None, st.integers(0, 3)), ('depth', 16, st.integers(4, 15))],
    'octree.key2xyz': [('key', REQ, '@keys'), ('depth', 16, st.integers(4, 15))],
    'octree.init_octree': [DEP, FULL, BS, DEV],
    'octree.Octree': [DEP, FULL, BS, DEV],
    'octree.Points': [('points', REQ, '@p'), ('normals', None, '@n'), ('features', None, '@f'),
                      ('labels', None, '@l'), ('batch_id', None, '@b'), ('batch_size', 1, st.just(1))],
    'octree.merge_points': [('points', REQ, '@clouds'), ('update_batch_info', True, B)],
    'octree.merge_octrees': [('octrees', REQ, '@octrees')],
    'utils.build_example_octree': [('depth', 5, st.integers(3, 4)), FULL, ('pt_num', 3, st.integers(1, 3))],
    'utils.cumsum': [('data', REQ, '@ints'), ('dim', REQ, st.integers(0, 1)), ('exclusive', False, B)],
    'utils.range_grid': [('min', REQ, st.integers(-2, 0)), ('max', REQ, st.integers(0, 2)), DEV],
    'utils.resize_with_last_val': [('list_in', REQ, st.sampled_from([[3], [1, 2]])),
                                   ('num', 3, st.integers(2, 5))],
    'utils.scatter_add': [('src', REQ, '@ints'), ('index', REQ, '@index'),
                          ('dim', -1, st.just(0)), ('out', None, st.none()),
                          ('dim_size', None, st.integers(3, 6))],
}

BX = ('bbmin', -1.0, st.sampled_from([-0.5, 0.0]))
METHODS = {
    'octree.key': [DEP, NE], 'octree.xyzb': [DEP, NE], 'octree.batch_id': [DEP, NE],
    'octree.nempty_mask': [DEP],
    'octree.search_xyzb': [('query', REQ, '@cells'), DEP, NE],
    'octree.search_key': [('query', REQ, '@qkeys'), DEP, NE],
    'octree.get_neigh': [DEP, ('kernel', '333', KN[2]), ST, NE],
    'octree.get_input_feature': [('feature', REQ, FEAT), NE],
    'octree.to_points': [('rescale', True, B)],
    'octree.to': [('device', REQ, st.just('cpu')), ('non_blocking', False, B)],
    'grown.octree_grow': [('depth', REQ, '@grow'), ('update_neigh', True, B)],
    'grown.octree_split': [('split', REQ, '@split'), ('depth', REQ, '@full')],
    'fresh.octree_grow_full': [('depth', REQ, '@zero'), ('update_neigh', True, B)],
    'points.orient_normal': [('axis', 'x', st.sampled_from(['y', 'z', 'xyz']))],
    'points.clip': [('min', -1.0, st.sampled_from([-0.5, 0.0])),
                    ('max', 1.0, st.sampled_from([0.25, 0.6])), ('esp', 0.01, st.just(0.1))],
    'points.inbox_mask': [BX, ('bbmax', 1.0, st.sampled_from([0.25, 0.6]))],
    'points.normalize': [('bbmin', REQ, '@bbmin'), ('bbmax', REQ, '@bbmax'),
                         ('scale', 1.0, st.sampled_from([0.5, 0.8]))],
    'points.scale': [('factor', REQ, '@vec')], 'points.rotate': [('angle', REQ, '@vec')],
    'points.translate': [('dis', REQ, '@vec')], 'points.flip': [('axis', REQ, FEAT.map(lambda a: 'xyz'[len(a) - 1]))],
}
TABLE = dict(MODULES, **FUNCS)
TABLE.update({k.replace('.', ':'): v for k, v in METHODS.items()})


@st.composite
def strat(draw, table):
  name = draw(st.sampled_from(sorted(table)))
  case = draw(gen.octree_case(3, 4, 1, 2, max_batch=2, bulk=40, max_shapes=2))
  case['fn'], case['salt'] = name, draw(gen.SALT)
  args = {}
  for a, default, values in table[name]:
    if isinstance(values, str):
      args[a] = values if default is REQ or draw(B) else default
    elif default is REQ or draw(B):
      args[a] = draw(values)
    else:
      args[a] = default
  case['args'] = args
  case['cin'], case['cout'] = draw(st.sampled_from([4, 8])), draw(st.sampled_from([4, 8]))
  case['pos'] = draw(st.integers(0, len(args)))
  case['order'] = draw(st.integers(0, 5))
  if 'kernel_size' in args and 'Pool' in name and args['kernel_size'] == [3]:
    args['kernel_size'] = [2]
  return case


def calls(case, params):
  """[(positional, by name)]: everything by name first, then as drawn."""
  a = case['args']
  names = [p[0] for p in params]
  pos = case['pos']
  rest = [p for p in params[pos:] if p[1] is REQ or a[p[0]] != p[1]]
  k = case['order'] % max(len(rest), 1)
  rest = rest[k:] + rest[:k]
  return ([], list(names)), (names[:pos], [p[0] for p in rest])


class World:
  """Fresh objects for every call."""

  def __init__(self, case):
    self.case = case
    a = case['args']
    self.ne = a.get('nempty', False)
    self.octree = gen.make_octree(case)
    self.r = gen.make_ref(case)
    self.d = case['depth']
    self.salt = case['salt']

  def data(self, d, ne, c, stream=1):
    return gen.real_data((self.r.num(d, ne), c), self.salt, stream)

  def value(self, v):
    c, r, d, ne, s = self.case, self.r, self.d, self.ne, self.salt
    if not isinstance(v, str) or v[:1] != '@':
      return v
    if v in ('@cin', '@cout'):
      return c[v[1:]]
    if v == '@feat':
      return {'ND': 4, 'L': 3, 'NDF': 7}[c['args']['feature']]
    if v == '@depth-1':
      return d - 1
    if v == '@depth':
      return d
    if v == '@octree':
      return self.octree
    if v == '@other':
      return gen.make_octree(dict(c, samples=[x[:1] + [{'k': 'rnd', 'n': 9, 'r': 3}]
                                              for x in c['samples']]))
    if v == '@data':
      return self.data(d, ne, c['cin'])
    if v in ('@nedata', '@alldata'):
      return self.data(d, v == '@nedata', c['cin'])
    if v == '@col':
      n = r.neigh(d, c['args']['kernel_size'], c['args']['stride'], ne)
      return gen.real_data(n.shape + (c['cin'],), s, 2)
    if v in ('@pooled', '@indices'):
      out = ocnn.nn.octree_max_pool(self.data(d, ne, c['cin']), self.octree, d, ne, True)
      return out[v == '@indices']
    if v == '@pts':
      q = gen.real_data((12, 4), s, 3) * 0.99
      if not c.get('rescaled'):
        q = (q + 1) * 2 ** (d - 1)
      q[:, 3] = torch.arange(12) % r.batch
      return q
    if v == '@cells':
      q = torch.from_numpy(r.rows(d, False)[::2][:, [1, 2, 3, 0]].copy())
      q[1::2, 0] += 1
      return q
    if v in ('@keys', '@qkeys'):
      k = self.octree.key(d, False) if self.case['fn'] != 'octree.key2xyz' else \
          torch.cat([self.octree.keys[d], torch.from_numpy(      # 16 bits per coordinate
              gen.hash_ints(9, s, 3) << 16 | gen.hash_ints(9, s, 4) % 65536)])
      return k if v == '@keys' else k[::2] + (torch.arange(k[::2].shape[0]) % 3)
    if v in ('@x', '@y', '@z'):
      return torch.from_numpy(gen.hash_ints(9, s, ord(v[1])) % (16 if s % 2 else 65536))
    if v in ('@p', '@n', '@f', '@l', '@b'):
      p = gen.make_points(c)[0]
      p = {'@p': p.points, '@n': p.normals, '@f': p.features, '@l': p.labels,
           '@b': torch.zeros(p.npt, 1, dtype=torch.long)}[v]
      return p
    if v == '@clouds':
      return gen.make_points(c)
    if v == '@octrees':
      return [gen.make_octree(dict(c, samples=[x], mode='merge')) for x in c['samples']]
    if v == '@ints':
      return gen.int_data((5, 3), s, 4)
    if v == '@index':
      n = 3 if c['args'].get('dim') == -1 else 5
      return torch.from_numpy(gen.hash_ints(n, s, 5) % 3)
    if v == '@vec':
      return gen.real_data((3,), s, 6) + 1.5
    if v in ('@bbmin', '@bbmax'):
      lo = gen.real_data((3,), s, 7)
      return lo if v == '@bbmin' else lo + 0.5 + gen.real_data((3,), s, 8).abs()
    if v == '@blk1':
      return ocnn.modules.OctreeResBlock
    if v == '@blk2':
      return ocnn.modules.OctreeResBlock2
    if v == '@full':
      return c['full']
    if v == '@grow':
      return c['full'] + 1
    if v == '@zero':
      return 0
    if v == '@split':
      n = 8 ** c['full'] * len(c['samples'])
      return torch.from_numpy((gen.hash_ints(n, s, 9) % 2).astype(np.int32))
    raise KeyError(v)

  def target(self, fn):
    if ':' not in fn:
      mod, name = fn.split('.')
      return getattr(getattr(ocnn, mod), name), None
    kind, name = fn.split(':')
    if kind == 'octree':
      o = self.octree
    elif kind == 'points':
      o = gen.make_points(self.case)[0]
    else:
      c = self.case
      o = Octree(c['depth'], c['full'], len(c['samples']))
      if kind == 'grown':
        for d in range(c['full'] + 1):
          o.octree_grow_full(d)
        if name == 'octree_grow':
          o.octree_split(self.value('@split'), c['full'])
    return getattr(o, name), o


def observe(x):
  if isinstance(x, Octree):
    return cmp.snap_octree(x)
  if isinstance(x, Points):
    return cmp.snap_points(x)
  if isinstance(x, torch.nn.Module):
    return cmp.snapshot(dict(x.state_dict()))
  if isinstance(x, (list, tuple)):
    return ('l', [observe(v) for v in x])
  if isinstance(x, dict):
    return ('d', {k: observe(v) for k, v in x.items()})
  return cmp.snapshot(x)


def forward(case, w, m):
  """The result of a module on generated data."""
  fn, a, d, ne, o = case['fn'].split('.')[1], case['args'], w.d, w.ne, w.octree
  if fn == 'OctreeDropPath':
    torch.manual_seed(case['salt'])
    return m(w.data(d, ne, 3), o, d)
  if fn == 'OctreeInterp':
    case['rescaled'] = a['rescale_pts']
    q = w.value('@pts')
    return m(w.data(d, ne, 3), o, d, q)
  if fn == 'OctreeUpsample':
    return [m(w.data(d - 1, ne, 3), o, d - 1), m(w.data(d - 2, ne, 3), o, d - 2, d)]
  if fn == 'OctreeMaxUnpool':
    return m(w.value('@pooled'), w.value('@indices'), o, d - 1)
  if fn == 'InputFeature':
    return m(o)
  if fn.startswith(('Conv1x1', 'Fc')):
    return m(gen.real_data((7, case['cin']), case['salt'], 1))
  if 'Deconv' in fn and a['stride'] == 2:
    return m(w.data(d - 1, ne, case['cin']), o, d - 1)
  return m(w.data(d, ne, case['cin']), o, d)


def run(case, style):
  w = World(case)
  f, obj = w.target(case['fn'])
  a = case['args']
  args = [w.value(a[k]) for k in style[0]]
  kw = {k: w.value(a[k]) for k in style[1]}
  torch.manual_seed(case['salt'])
  np.random.seed(case['salt'] % 1000)
  return w, f(*args, **kw), obj, args, kw


def describe(case, style):
  return '%s(%s)' % (case['fn'], ', '.join(['%s' % k for k in style[0]] +
                                           ['%s=' % k for k in style[1]]))


def check(case):
  params = TABLE[case['fn']]
  if case['fn'] == 'nn.OctreeDropPath' and len(case['samples']) == 1:
    case['samples'] = case['samples'] * 2
  if case['fn'] in MODULES:        # several rows in every layer, for the batch statistics
    case['samples'][0] = case['samples'][0] + [{'k': 'rnd', 'n': 20, 'r': 5}]
  if 'ResBlock' in case['fn'] and case['args'].get('nempty') and case['args'].get('stride') == 2:
    case['full'] = min(case['full'], case['depth'] - 1)
  res = []
  styles = calls(case, params)
  for s in styles:
    w, out, obj, args, kw = run(case, s)
    obs = [observe(out), observe(obj) if obj is not None else ('v', None)]
    if case['fn'] in MODULES:
      obs.append(observe(forward(case, w, out)))
      obs.append(observe(out))
    res.append(('l', obs))
  cmp.same(res[0], res[1], '%s compared with all arguments by name' % describe(case, styles[1]))
  tags = [case['fn']]
  if styles[1][0] or len(styles[1][1]) < len(params):
    tags.append('nt')
  return tags


def check_nets(case):
  """Networks: the state and the outputs on a small batch."""
  a, fn = case['args'], case['fn']
  params = NETS[fn]
  name = fn.split('.')[1]
  if name == 'HRNet':
    case['depth'], case['full'] = a['stages'] + 2, 2
  elif name == 'UNet':
    case['depth'] = 5
  elif name in ('LeNet', 'ResNet', 'SegNet'):
    case['depth'] = {'LeNet': 3, 'ResNet': 4, 'SegNet': 4}[name]
  if name not in ('AutoEncoder', 'OUNet', 'Image2Shape'):
    case['full'] = min(case['full'], 2 if name != 'SegNet' else 1)
  else:
    case['full'] = a['full_depth']
  case['full'] = min(case['full'], case['depth'])
  res = []
  styles = calls(case, params)
  for s in styles:
    w, m, _, _, _ = run(case, s)
    st_ = observe(m)
    m.eval()
    with torch.no_grad():
      o, d = w.octree, w.d
      if name in ('AutoEncoder',):
        out = m(o, False)
      elif name == 'OUNet':
        out = m(o, o, False)
      elif name == 'Image2Shape':
        out = m(gen.real_data((len(case['samples']), 3, 32, 32), case['salt'], 1), o)
      else:
        x = w.data(d, w.ne, case['cin'])
        q = [gen.real_data((9, 4), case['salt'], 2) * torch.tensor([.9, .9, .9, 0])] \
            if name in ('SegNet', 'UNet') else []
        out = m(x, o, d, *q)
    if isinstance(out, dict):
      out = {str(k): v for k, v in out.items() if k != 'octree_out'}
      out['logits'] = {str(k): v for k, v in out['logits'].items()}
    res.append(('l', [st_, observe(out)]))
  cmp.same(res[0], res[1], '%s compared with all arguments by name' % describe(case, styles[1]))
  return [fn] + (['nt'] if styles[1][0] or len(styles[1][1]) < len(params) else [])


FACETS = [Facet('calls', lambda: strat(TABLE), check, 4000, 40000),
          Facet('networks', lambda: strat(NETS), check_nets, 160, 3000, heavy=True)]
