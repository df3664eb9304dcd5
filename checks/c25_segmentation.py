"""C25: segmentation networks predict for each query point from its own sample only."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, merge_octrees, merge_points

from vlib import cmp, gen, models
from vlib.core import Facet, large

PROPERTY = 'C25'
RULE = ('SegNet and UNet of generated configurations (stages, channels, blocks, input features, '
        'interpolation, all/non-empty nodes; the default UNet at a low rate) with calibrated '
        'random weights on batches of 1..3 clouds and up to 60 query points of all samples; '
        'logits compared under permutation/repetition/selection of queries, single samples, '
        'permuted batches, permuted points and translations of the scene by whole coarse cells; '
        'non-trivial: several queries with different logits')
ASSUMPTIONS = ['evaluation mode (batch statistics couple the samples in training mode)',
               'non-empty SegNet: the coarsest layer is not above full_depth',
               'translations keep the scene in the volume and preserve sibling nodes']


class SmallUNet(ocnn.models.UNet):
  r''' The documented way to configure the network. '''

  conf = None

  def config_network(self):
    for k, v in self.conf.items():
      setattr(self, k, v)


def unet_conf(case):
  e, d = case['stages'], case['dec']
  w = [8, 8, 10, 12, 12][:e + 1]
  dec = [w[-1]] + [10, 8, 8, 6][:d]
  return {'encoder_channel': w, 'decoder_channel': dec,
          'encoder_blocks': case['blocks'][:e], 'decoder_blocks': case['blocks'][1:1 + d],
          'head_channel': 8, 'bottleneck': case['bneck'],
          'resblk': ocnn.modules.OctreeResBlock if case['blk'] == 1
          else ocnn.modules.OctreeResBlock2}


@st.composite
def config(draw, transl=False):
  net = draw(st.sampled_from(['segnet', 'segnet', 'unet', 'unet', 'unet',
                              'unet' if transl else 'unet-default']))
  case = {'net': net, 'nempty': draw(st.booleans()), 'out': draw(st.integers(1, 4)),
          'interp': draw(st.sampled_from(['linear', 'nearest'])),
          'feat': draw(st.sampled_from(['ND', 'N', 'L', 'F', 'LF', 'NDLF'] if transl else
                                       ['ND', 'N', 'L', 'NDLPF', 'F', 'P'])),
          'nsalt': draw(gen.SALT), 'fsalt': draw(gen.SALT), 'channel': 3}
  if net == 'segnet':
    case['stages'] = draw(st.integers(1, 3))
  elif net == 'unet':
    case['stages'] = draw(st.integers(1, 4 if draw(st.integers(0, 2)) == 0 else 2))
    case['dec'] = draw(st.integers(max(case['stages'] - 1, 1), case['stages']))
    case['blocks'] = draw(st.sampled_from([[1, 1, 1, 1, 1], [2, 1, 1, 1, 1], [1, 2, 1, 1, 1]]))
    case['bneck'] = draw(st.sampled_from([1, 2]))
    case['blk'] = draw(st.sampled_from([1, 2]))
  else:
    case['stages'] = case['dec'] = 4
  return case


@st.composite
def strat(draw):
  case = draw(config())
  depth = case['stages'] + draw(st.integers(1, 2 if case['stages'] < 4 else 1))
  hi = min(2, depth - case['stages'])
  if not case['nempty'] or case['net'] != 'segnet':
    hi = min(2, depth)
  case['depth'], case['full'] = depth, draw(st.integers(1, hi))
  n = draw(st.integers(1, 3))
  case['samples'] = [draw(gen.cloud(depth, bulk=50, max_shapes=2)) for _ in range(n)]
  for s in case['samples']:
    if gen.expand(s, depth).shape[0] == 0:
      s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  case['mode'] = draw(st.sampled_from(['merge', 'batch']))
  case['perm'] = draw(st.permutations(list(range(n))))
  case['nq'] = draw(st.integers(1, 60))
  case['qsalt'] = draw(gen.SALT)
  case['grad'] = draw(st.integers(0, 3)) == 0
  return case


def model_of(case):
  net, ne, feat = case['net'], case['nempty'], case['feat']
  cin = models.channels(feat)
  key = (net, case['stages'], case.get('dec'), tuple(case.get('blocks', ())),
         case.get('bneck'), case.get('blk'), ne, case['out'], feat, case['interp'])

  def build():
    if net == 'segnet':
      return ocnn.models.SegNet(cin, case['out'], case['stages'], case['interp'], ne)
    if net == 'unet-default':
      return ocnn.models.UNet(cin, case['out'], case['interp'], ne)
    cls = type('U', (SmallUNet,), {'conf': unet_conf(case)})
    return cls(cin, case['out'], case['interp'], ne)

  def run(m):
    depth = case['stages'] + 1
    c = models.calib_case(depth, 1, 2)
    o = gen.make_octree(c)
    q = torch.cat([gen.real_data((20, 3), 5), torch.zeros(20, 1)], 1)
    m(models.feature(o, feat, ne), o, o.depth, q)
  return key, models.cached(key, build, run)


def octree_of(case, ids, pts=None):
  pts = pts or gen.make_points(case)
  if case.get('mode') == 'batch' and len(ids) > 1:
    o = Octree(case['depth'], case['full'], len(ids))
    o.build_octree(merge_points([pts[i] for i in ids]))
  else:
    octs = []
    for i in ids:
      o = Octree(case['depth'], case['full'])
      o.build_octree(pts[i])
      octs.append(o)
    o = merge_octrees(octs)
  o.construct_all_neigh()
  return o


def queries(case):
  """(N, 4): points of the clouds and random points, in any sample order."""
  n = len(case['samples'])
  nq = case['nq']
  arrs = [gen.coords_of(a[0], case['depth']) for a in gen.sample_arrays(case)]
  b = gen.hash_ints(nq, case['qsalt'], 1) % n
  sel = gen.hash_ints(nq, case['qsalt'], 2)
  rnd = gen.real_data((nq, 3), case['qsalt'], 3)
  out = torch.zeros(nq, 4)
  for i in range(nq):
    a = arrs[b[i]]
    out[i, :3] = a[sel[i] % a.shape[0]] if sel[i] % 5 else rnd[i]
    out[i, 3] = float(b[i])
  return out


def logits(m, case, octree, q):
  data = models.feature(octree, case['feat'], case['nempty'])
  return m(data, octree, octree.depth, q)


def check(case):
  key, m = model_of(case)
  n = len(case['samples'])
  w = '%s(nempty=%s)' % (case['net'], case['nempty'])
  octree = octree_of(case, range(n))
  data = models.feature(octree, case['feat'], case['nempty'])
  q = queries(case)
  keep, keepq, before = data.clone(), q.clone(), cmp.snap_octree(octree)
  tags = [case['net'], 'nempty' if case['nempty'] else 'all', case['interp'],
          'stages%d' % case['stages']]
  with torch.no_grad():
    out = m(data, octree, octree.depth, q)
    cmp.shape(out, (case['nq'], case['out']), w + ' logits')
    cmp.require(bool(torch.isfinite(out).all()), '%s: logits are not finite', w)
    cmp.equal(m(data, octree, octree.depth, q), out, w + ', evaluated again')
    cmp.equal(data, keep, w + ': the input data')
    cmp.equal(q, keepq, w + ': the query points')
    cmp.same(before, cmp.snap_octree(octree), w + ': the octree')
    models.state_unchanged(m, key, w)
    # queries are answered one by one
    sel = torch.from_numpy(gen.hash_ints(case['nq'] + 3, case['qsalt'], 7) % case['nq'])
    models.near(m(data, octree, octree.depth, q[sel]), out[sel],
                w + ': reordered, repeated and omitted queries', 1e-4)
    # every sample alone
    bid = q[:, 3].long()
    for i in range(n):
      mi = bid == i
      if not bool(mi.any()):
        continue
      qi = q[mi].clone()
      qi[:, 3] = 0
      models.near(logits(m, case, octree_of(case, [i]), qi), out[mi],
                  '%s: sample %d alone' % (w, i))
    p = [int(v) for v in case['perm']]
    if n > 1:
      inv = torch.tensor(np.argsort(p))
      qp = q.clone()
      qp[:, 3] = inv[bid].float()
      models.near(logits(m, case, octree_of(case, p), qp), out, w + ': permuted batch')
    if case['fsalt'] % 3 == 0:
      ps = gen.make_points(case)
      pp = [x[torch.from_numpy(np.argsort(gen.hash_ints(x.npt, case['nsalt'], i)).copy())]
            for i, x in enumerate(ps)]
      models.near(logits(m, case, octree_of(case, range(n), pp), q), out,
                  w + ': permuted points')
  if case['grad']:
    wgt = gen.int_data((case['nq'], case['out']), case['nsalt'], 4)
    (logits(m, case, octree, q) * wgt).sum().backward()
    g1 = {k: v.grad for k, v in m.named_parameters()}
    for k, g in g1.items():
      cmp.require(g is not None, '%s: parameter %s receives no gradient', w, k)
      cmp.require(bool(torch.isfinite(g).all()), '%s: gradient of %s is not finite', w, k)
    m.zero_grad(set_to_none=True)
    for i in range(n):
      mi = bid == i
      if bool(mi.any()):
        qi = q[mi].clone()
        qi[:, 3] = 0
        (logits(m, case, octree_of(case, [i]), qi) * wgt[mi]).sum().backward()
    for k, v in m.named_parameters():
      models.near(v.grad, g1[k], '%s: gradient of %s' % (w, k), 1e-2)
    tags.append('grad')
  if case['nq'] > 1 and float((out - out[:1]).abs().max()) > 1e-2:
    tags.append('nt')
    if n > 1:
      tags.append('several-samples')
  return tags


@st.composite
def strat_transl(draw):
  case = draw(config(transl=True))
  # all nodes: siblings must stay siblings and no full layer may be touched
  extra = 0 if case['nempty'] else 1
  depth = case['stages'] + 1 + extra + draw(st.integers(0, 1))
  case['depth'], case['full'] = depth, 1
  unit = 1 << (case['stages'] + extra)
  k = 1 << (depth - case['stages'] - extra)        # number of units per axis
  case['unit'] = unit
  w = draw(st.integers(1, max(k - 1, 1)))                # extent of the scene in units
  case['samples'] = [draw(gen.cloud(depth, bulk=40, max_shapes=2))]
  case['w'] = w
  case['from'] = [draw(st.integers(0, k - w)) for _ in range(3)]
  case['to'] = [draw(st.integers(0, k - w)) for _ in range(3)]
  case['nq'] = draw(st.integers(1, 30))
  case['qsalt'] = draw(gen.SALT)
  return case


def check_transl(case):
  key, m = model_of(case)
  d, unit, w8 = case['depth'], case['unit'], case['w'] * case['unit'] * gen.SUB
  p = gen.expand(case['samples'][0], d)
  if p.shape[0] == 0:
    return []
  p = np.unique(p % w8, axis=0)      # inside of the scene window
  p = p[p.any(1)] if p.any() else p
  nrm = gen.int_data((p.shape[0], 3), case['nsalt'], 1)
  fea = gen.int_data((p.shape[0], 3), case['fsalt'], 2)
  h = gen.hash_ints(case['nq'] * 3, case['qsalt'], 3).reshape(-1, 3)
  # queries in the window: cloud points and points half a sub-cell off
  q8 = np.where((h[:, :1] % 3) > 0, p[h[:, 0] % p.shape[0]] + (h % 5 - 2), h % w8)
  q8 = np.clip(q8, 0, w8 - 1) + 0.5
  outs = []
  from ocnn.octree import Points
  for off in ('from', 'to'):
    o8 = np.array(case[off]) * unit * gen.SUB
    pts = Points(gen.coords_of(p + o8, d), nrm.clone(), fea.clone())
    octree = Octree(d, case['full'])
    octree.build_octree(pts)
    octree.construct_all_neigh()
    q = (q8 + o8) / gen.SUB / (2.0 ** (d - 1)) - 1.0
    q = torch.from_numpy(np.concatenate([q, np.zeros((q.shape[0], 1))], 1)).float()
    with torch.no_grad():
      outs.append(logits(m, case, octree, q))
  models.near(outs[1], outs[0], '%s(nempty=%s): translated scene' % (
      case['net'], case['nempty']))
  tags = [case['net'], 'nempty' if case['nempty'] else 'all']
  if case['from'] != case['to'] and p.shape[0] > 1:
    tags.append('nt')
  return tags


FACETS = [Facet('per-query', strat, check, 320, 5000, heavy=True),
          Facet('translation', strat_transl, check_transl, 300, 4000, heavy=True)]
FACETS += [large(f, 16, 200, 20000) for f in FACETS if f.name == 'per-query']
