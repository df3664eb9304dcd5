"""C26: generative networks decode valid octrees, exactly those their predictions describe."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, merge_octrees

from vlib import cmp, gen, models, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C26'
RULE = ('AutoEncoder, OUNet and Image2Shape of generated depth, full depth, input features, '
        'code and output channels with calibrated random weights and split predictions biased '
        'to none / few / half / most / all, on batches of 1..3; decoded octree compared with '
        'the reference grown from the predictions, teacher-forced decoding, encode+decode, '
        'single samples; non-trivial: some layer is split properly (neither none nor all)')
ASSUMPTIONS = ['evaluation mode', 'a sample is compared with the batch only if no prediction is '
               'within 1e-3 of a tie and no layer of it is empty']


@st.composite
def strat(draw):
  net = draw(st.sampled_from(['ae', 'ae', 'ounet', 'ounet', 'i2s']))
  depth = draw(st.sampled_from([2, 3, 3, 4, 4, 5]))
  full = draw(st.integers(1, min(depth, 2 if draw(st.integers(0, 3)) else 3)))
  case = {'net': net, 'depth': depth, 'full': full,
          'feat': draw(st.sampled_from(['ND', 'L', 'F', 'NDLPF'])),
          'cout': draw(st.sampled_from([1, 3, 4])), 'code': draw(st.sampled_from([4, 7, 0])),
          'nsalt': draw(gen.SALT), 'fsalt': draw(gen.SALT), 'channel': 3, 'mode': 'merge'}
  n = draw(st.integers(1, 3 if depth < 5 else 2))
  case['samples'] = [draw(gen.cloud(depth, bulk=40, max_shapes=2)) for _ in range(n)]
  for s in case['samples']:
    if gen.expand(s, depth).shape[0] == 0:
      s.append({'k': 'pts', 'p': [[1, 2, 3]]})
  # bias of the split prediction of every layer
  case['bias'] = [draw(st.sampled_from([0.0, 0.0, 0.0, -1.0, 1.0, -50.0, 50.0]))
                  for _ in range(depth + 1 - full)]
  if depth == 5:      # keep the number of nodes moderate
    case['bias'] = [min(b, 0.0) for b in case['bias']]
  case['grad'] = draw(st.integers(0, 3)) == 0
  # the octree guiding the decoder: of the same points, of the mirrored points (as many
  # nodes, elsewhere) or of another cloud
  case['gt'] = [draw(st.sampled_from(['same', 'same', 'mx', 'mz', 'mxyz', 'other']))
                for _ in range(n)]
  return case


def model_of(case):
  net, d, f = case['net'], case['depth'], case['full']
  cin = models.channels(case['feat'])
  key = (net, d, f, case['feat'] if net != 'i2s' else '', case['cout'],
         case['code'] if net != 'ounet' else 0)

  def build():
    if net == 'ae':
      return ocnn.models.AutoEncoder(cin, case['cout'], d, f, case['feat'], case['code'])
    if net == 'ounet':
      return ocnn.models.OUNet(cin, case['cout'], d, f, case['feat'])
    return ocnn.models.Image2Shape(case['cout'], d, f, case['code'] or 5)

  def run(m):
    o = gen.make_octree(models.calib_case(d, f, 2))
    if net == 'ae':
      m(o, False)
    elif net == 'ounet':
      m(o, o, False)
    else:      # many images: with two of them the last statistics are degenerate
      o = gen.make_octree(models.calib_case(d, f, 16))
      m(images(16, 3), o, False)
      with torch.no_grad():      # codes of the size of 1, as trained networks have them
        code = m.resnet18.eval()(images(16, 3))
        m.resnet18.fc.weight /= code.abs().max() / 3
        m.resnet18.fc.bias /= code.abs().max() / 3
        m.resnet18.train()
      m(images(16, 3), o, False)
  m = models.cached(key, build, run)
  with torch.no_grad():
    for p, b in zip(m.predict, case['bias']):
      last = list(p.parameters())[-1]       # the bias of the two split logits
      last[1] += b
  return key, m


def images(n, salt):
  return gen.real_data((n, 3, 32, 32), salt, 9)


def octree_of(case, ids):
  pts = gen.make_points(case)
  octs = []
  for i in ids:
    o = Octree(case['depth'], case['full'])
    o.build_octree(pts[i])
    octs.append(o)
  o = merge_octrees(octs)
  o.construct_all_neigh()
  return o


def guide_case(case):
  """The case whose points give the octree that guides the decoder."""
  d = case['depth']
  top = (gen.SUB << d) - 1
  out = []
  for s, g in zip(case['samples'], case['gt']):
    if g == 'same':
      out.append(s)
    elif g == 'other':
      out.append([{'k': 'rnd', 'n': 9, 'r': case['nsalt']}])
    else:
      p = np.minimum(gen.expand(s, d), top)
      for k in ('xyz'.index(c) for c in g[1:]):
        p[:, k] = top - p[:, k]
      out.append([{'k': 'pts', 'p': p.tolist()}])
  return dict(case, samples=out)


class Net:
  """One interface to the three networks."""

  def __init__(self, case, m):
    self.case, self.m, self.net = case, m, case['net']

  def inputs(self, ids):
    if self.net == 'i2s':
      return images(len(self.case['samples']), self.case['fsalt'])[list(ids)]
    return octree_of(self.case, ids)

  def free(self, x):
    if self.net == 'ae':
      return self.m(x, True)
    if self.net == 'ounet':
      return self.m(x)
    return self.m(x, update_octree=True)

  def forced(self, x, octree):
    if self.net == 'ae':
      return self.m.decoder(self.m.encoder(x), octree)
    if self.net == 'ounet':
      return self.m(x, octree)
    return self.m(x, octree)


def check_output(out, case, batch, what):
  """The output is consistent and the octree is the one the logits describe."""
  d, f = case['depth'], case['full']
  cmp.require(isinstance(out, dict) and {'logits', 'signal', 'octree_out'} <= set(out),
              '%s: output entries %s', what, sorted(out))
  cmp.require(sorted(out['logits']) == list(range(f, d + 1)), '%s: logits of layers %s', what,
              sorted(out['logits']))
  splits = {}
  for l in range(f, d + 1):
    lg = cmp.arr(out['logits'][l])
    cmp.require(lg.ndim == 2 and lg.shape[1] == 2, '%s: logits shape %s', what, lg.shape)
    cmp.require(np.isfinite(lg).all(), '%s: logits are not finite', what)
    splits[l] = lg[:, 1] > lg[:, 0]
  for l in range(f, d + 1):
    r = ref.RefOctree.from_splits({k: v for k, v in splits.items() if k < l}, l, f, batch)
    cmp.require(splits[l].shape[0] == r.levels[l].nnum,
                '%s: %d split predictions in layer %d, which has %d nodes', what,
                splits[l].shape[0], l, r.levels[l].nnum)
  r = ref.RefOctree.from_splits(splits, d, f, batch)
  return r, splits


def snap_output(out):
  s = {'logits%d' % l: cmp.snapshot(v) for l, v in out['logits'].items()}
  s['signal'] = cmp.snapshot(out['signal'])
  s['octree'] = cmp.snap_octree(out['octree_out'])
  return ('d', s)


def check_signal(out, num, case, what):
  s = out['signal']
  cmp.shape(s, (num, case['cout']), what + ' signal')
  cmp.require(bool((s.abs() <= 1).all()), '%s: signal outside of [-1, 1]', what)


def check(case):
  key, m = model_of(case)
  net = Net(case, m)
  n, d, f = len(case['samples']), case['depth'], case['full']
  w = case['net']
  state = {k: v.clone() for k, v in m.state_dict().items()}
  x = net.inputs(range(n))
  before = cmp.snap_octree(x) if w != 'i2s' else cmp.snapshot(x)

  def unchanged(what):
    cmp.same(before, cmp.snap_octree(x) if w != 'i2s' else cmp.snapshot(x),
             '%s: input after %s' % (w, what))
    for k, v in m.state_dict().items():
      cmp.equal(v, state[k], '%s: %s after %s' % (w, k, what))

  tags = [w, 'depth%d' % d, 'full%d' % f]
  with torch.no_grad():
    # 1. free decoding
    out = net.free(x)
    unchanged('decoding')
    r, splits = check_output(out, case, n, w)
    got = out['octree_out']
    cmp.require(got is not x, '%s: the input octree was returned', w)
    oct.check_structure(got, r, w + ' decoded octree')
    oct.check_neighs(got, r, w + ' decoded octree')
    check_signal(out, r.levels[d].nnum_nempty, case, w)
    cmp.equal(got.features[d], out['signal'], w + ': signal stored in the octree')
    kept = [(w + ': first result', out, snap_output(out))]
    # 2. repeatable, and a result belongs to the caller: later calls leave it alone
    again = net.free(x)
    for l in range(f, d + 1):
      cmp.equal(again['logits'][l], out['logits'][l], '%s: logits %d again' % (w, l))
    cmp.equal(again['signal'], out['signal'], w + ': signal again')
    if n > 1:     # other inputs of the same batch size
      kept.append((w + ': second result', again, snap_output(again)))
      other = net.free(net.inputs(list(range(n))[::-1]))
      kept.append((w + ': result for the reversed batch', other, snap_output(other)))
    # 3. forced to its own output it predicts the same
    snap = cmp.snap_octree(got)
    o3 = net.forced(x, got)
    cmp.same(snap, cmp.snap_octree(got), w + ': octree used for teacher forcing')
    for l in range(f, d + 1):
      models.near(o3['logits'][l], out['logits'][l], '%s: forced logits %d' % (w, l), 1e-4)
    models.near(o3['signal'], out['signal'], w + ': forced signal', 1e-4)
    # 4. encoding and decoding by hand
    if w == 'ae':
      code = m.encoder(x)
      cmp.shape(code, (n * 8 ** f, m.code_channel), 'shape code')
      cmp.require(bool((code.abs() <= 1).all()), 'shape code outside of [-1, 1]')
      keep = code.clone()
      o4 = m.decode_code(code)
      cmp.equal(code, keep, 'shape code after decoding')
      for l in range(f, d + 1):
        cmp.equal(o4['logits'][l], out['logits'][l], 'decode_code: logits %d' % l)
      cmp.equal(o4['signal'], out['signal'], 'decode_code: signal')
      oct.check_structure(o4['octree_out'], r, 'decode_code octree')
    if w != 'ounet':
      # any code decodes to a valid octree
      c = gen.real_data((2 * 8 ** f, m.code_channel), case['nsalt'], 3)
      o5 = m.decode_code(c)
      r5, _ = check_output(o5, case, 2, 'decode_code')
      oct.check_structure(o5['octree_out'], r5, 'decode_code octree')
      kept.append(('decode_code', o5, snap_output(o5)))
      o5 = m.decode_code(-c)
      r5, _ = check_output(o5, case, 2, 'decode_code (second code)')
      oct.check_structure(o5['octree_out'], r5, 'decode_code octree (second code)')
    # 5. every sample alone
    ok = all(bool(((v[:, 1] - v[:, 0]).abs() > 1e-3 * (1 + v.abs().max())).all())
             for v in out['logits'].values())
    for i in range(n):
      alone = all(splits[l][r.levels[l].nodes[:, 0] == i].any() for l in range(f, d + 1))
      if n == 1 or not ok or not alone:
        continue
      oi = net.free(net.inputs([i]))
      for l in range(f, d + 1):
        mi = torch.from_numpy(r.levels[l].nodes[:, 0] == i)
        models.near(oi['logits'][l], out['logits'][l][mi],
                    '%s: logits %d of sample %d alone' % (w, l, i))
      lv = r.levels[d]
      mi = torch.from_numpy(lv.nodes[lv.nempty, 0] == i)
      models.near(oi['signal'], out['signal'][mi], '%s: signal of sample %d alone' % (w, i))
      tags.append('alone')
  # 6. teacher forcing with the ground truth
  gcase = guide_case(case)
  gt = octree_of(gcase, range(n))
  snap = cmp.snap_octree(gt)
  with torch.set_grad_enabled(case['grad']):
    o6 = net.forced(x, gt)
  cmp.same(snap, cmp.snap_octree(gt), w + ': ground-truth octree')
  rg = gen.make_ref(gcase)
  for l in range(f, d + 1):
    cmp.shape(o6['logits'][l], (rg.levels[l].nnum, 2), '%s: forced logits' % w)
  check_signal(o6, rg.levels[d].nnum_nempty, case, w + ' forced')
  cmp.require(o6['octree_out'] is gt, '%s: forced decoding returns another octree', w)
  with torch.no_grad():
    for i in range(n if n > 1 else 0):
      o8 = net.forced(net.inputs([i]), octree_of(gcase, [i]))
      for l in range(f, d + 1):
        mi = torch.from_numpy(rg.levels[l].nodes[:, 0] == i)
        models.near(o8['logits'][l], o6['logits'][l].detach()[mi],
                    '%s: guided logits %d of sample %d alone' % (w, l, i))
      lv = rg.levels[d]
      mi = torch.from_numpy(lv.nodes[lv.nempty, 0] == i)
      models.near(o8['signal'], o6['signal'].detach()[mi],
                  '%s: guided signal of sample %d alone' % (w, i))
      tags.append('guided-' + case['gt'][i])
  if w == 'ae':
    own = octree_of(case, range(n))
    with torch.no_grad():
      o7, o6b = m(x, False), net.forced(x, own)
    for l in range(f, d + 1):
      models.near(o7['logits'][l], o6b['logits'][l], 'ae: forward without update', 1e-4)
    models.near(o7['signal'], o6b['signal'], 'ae: forward without update', 1e-4)
  if case['grad']:
    loss = sum((v * gen.real_data(v.shape, 3, l)).sum() for l, v in o6['logits'].items())
    loss = loss + (o6['signal'] * gen.real_data(o6['signal'].shape, 4)).sum()
    loss.backward()
    for k, p in m.named_parameters():
      cmp.require(p.grad is not None, '%s: parameter %s receives no gradient', w, k)
      cmp.require(bool(torch.isfinite(p.grad).all()), '%s: gradient of %s', w, k)
    tags.append('grad')
  unchanged('everything')
  for what, o, before_o in kept:
    cmp.same(before_o, snap_output(o), what + ' after later calls')
  if any(v.any() and not v.all() for v in splits.values()):
    tags.append('nt')
  if any(not v.any() for v in splits.values()):
    tags.append('empty-layer')
  return tags


FACETS = [Facet('decode', strat, check, 400, 5000, heavy=True)]
FACETS += [large(f, 16, 200, 5000) for f in FACETS if f.name == 'decode']
