"""C33: networks get the gradient of what they compute; networks, octrees and clouds survive
storage and copying."""
import copy
import io
import pickle

import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn.octree import Octree, Points, merge_points

from vlib import boot, cmp, gen, models
from vlib.core import Facet

PROPERTY = 'C33'
RULE = ('every network of C24, C25 and C26 with generated configurations on generated batches: '
        'directional derivatives by central differences in float64, over all parameters '
        'and over single parameter tensors, in training and evaluation, against '
        'back-propagation; state dictionaries stored and loaded into fresh networks, pickled '
        'and deep copies compared in output; octrees and clouds at every stage of their life '
        'pickled, stored and copied, then compared and modified; non-trivial: the derivative '
        'is not zero / the batch has several samples')
ASSUMPTIONS = ['dropout masks are fixed by the seed while differentiating',
               'finite differences across a kink of the network are excluded by comparing '
               'step sizes', 'Image2Shape is differentiated in evaluation mode only (the image '
               'encoder normalises over very few pixels)']

c24, c25, c26 = (boot.load_check(c) for c in ('C24', 'C25', 'C26'))


@st.composite
def strat(draw):
  fam = draw(st.sampled_from(['cls', 'seg', 'seg', 'gen']))
  case = draw({'cls': c24, 'seg': c25, 'gen': c26}[fam].strat())
  if case['net'] == 'unet-default':
    case['net'], case['stages'], case['dec'], case['blocks'] = 'unet', 1, 1, [1, 1, 1, 1, 1]
    case['bneck'], case['blk'] = 1, 1
  if fam == 'gen':      # moderate predictions: the others have no gradient
    case['bias'] = [max(min(b, 1.0), -1.0) for b in case['bias']]
  case['fam'] = fam
  case['train'] = draw(st.booleans()) and case['net'] != 'i2s'
  case['seed'] = draw(st.integers(0, 1000))
  case['pick'] = [draw(st.integers(0, 10 ** 6)) for _ in range(3)]
  return case


def model_of(case):
  mod = {'cls': c24, 'seg': c25, 'gen': c26}[case['fam']]
  return mod.model_of(case)


def inputs_of(case, dtype=torch.float32):
  """The inputs of the network; their features have the given type."""
  n = range(len(case['samples']))

  def conv(o):
    for name in ('features', 'normals'):
      v = getattr(o, name)
      for d in range(len(v)):
        if v[d] is not None:
          v[d] = v[d].to(dtype)
    o.points = [None if p is None else p.to(dtype) for p in o.points]
    return o
  if case['fam'] == 'cls':
    return (conv(c24.octree_of(case, n)),)
  if case['fam'] == 'seg':
    return conv(c25.octree_of(case, n)), c25.queries(case)
  o = conv(c26.octree_of(case, n))
  if case['net'] == 'i2s':
    return c26.images(len(case['samples']), case['fsalt']).to(dtype), o
  return (o,)


def outputs(m, case, x):
  """A list of output tensors."""
  if case['fam'] == 'cls':
    o = x[0]
    return [m(models.feature(o, case['feat'], case['nempty']), o, o.depth)]
  if case['fam'] == 'seg':
    o, q = x
    return [m(models.feature(o, case['feat'], case['nempty']), o, o.depth, q)]
  if case['net'] == 'ae':
    out = m(x[0], False)
  elif case['net'] == 'ounet':
    out = m(x[0], x[0], False)
  else:
    out = m(x[0], x[1], False)
  return [out['logits'][d] for d in sorted(out['logits'])] + [out['signal']]


def check_gradient(case):
  _, m = model_of(case)
  m = copy.deepcopy(m).double()
  case = dict(case, interp='nearest')
  m.train(case['train'])
  if case['fam'] == 'seg':
    for k in m.modules():
      if isinstance(k, ocnn.nn.OctreeInterp):
        k.interp = 'nearest'
        k.func = ocnn.nn.octree_nearest_pts
  w = '%s(%s)' % (case['net'], 'training' if case['train'] else 'evaluation')
  x = inputs_of(case, torch.float64)
  state = copy.deepcopy(m.state_dict())
  params = dict(m.named_parameters())
  wgt = []

  def loss():
    torch.manual_seed(case['seed'])
    out = outputs(m, case, x)
    if not wgt:
      wgt.extend(gen.real_data(tuple(o.shape), case['seed'], i, torch.float64)
                 for i, o in enumerate(out))
    for o in out:
      cmp.require(o.dtype == torch.float64, '%s: an output is %s', w, o.dtype)
    return sum((o * v).sum() for o, v in zip(out, wgt))

  if case['train']:     # batch statistics need several rows
    try:
      l0 = loss()
    except ValueError as e:
      if 'more than 1 value per channel' in str(e):
        return ['single-row']
      raise
  else:
    l0 = loss()
  m.zero_grad(set_to_none=True)
  l0.backward()
  grads = {}
  for k, p in params.items():
    cmp.require(p.grad is not None, '%s: %s receives no gradient', w, k)
    cmp.require(bool(torch.isfinite(p.grad).all()), '%s: gradient of %s', w, k)
    grads[k] = p.grad.clone()
  names = sorted(params)
  groups = [names] + [[names[i % len(names)]] for i in case['pick']]
  tags, nt = [case['net'], 'train' if case['train'] else 'eval'], False
  scale = abs(float(l0)) + 1.0
  for g in groups:
    dirs = {k: torch.from_numpy(gen.int_array(tuple(params[k].shape), case['seed'], 77, 0, 1) * 2.0
                                - 1) * (params[k].detach().std().nan_to_num(0) + 0.1) for k in g}
    exp = sum(float((grads[k] * dirs[k]).sum()) for k in g)
    size = float(sum(((grads[k] * dirs[k]) ** 2).sum() for k in g)) ** 0.5
    vals, good = [], False
    tol = 2e-3 * (size + abs(exp)) + 1e-6 * scale
    for eps in (1e-6, 1e-7, 1e-8):
      side = []
      for s in (eps, -eps):
        with torch.no_grad():
          for k, v in m.state_dict().items():
            v.copy_(state[k])
          for k in g:
            params[k] += s * dirs[k]
          side.append(float(loss()))
      vals.append((side[0] - side[1]) / (2 * eps))
      good = abs(vals[-1] - exp) <= tol
      if good:
        break
    if not good and abs(vals[-1] - vals[-2]) > tol / 4:
      tags.append('kink')
      continue
    cmp.require(good, '%s: derivative along %s is %g by back-propagation and %g by finite '
                'differences', w, 'all parameters' if len(g) > 1 else g[0], exp, vals[-1])
    nt |= size > 1e-3
  return tags + (['nt'] if nt else [])


# ---------------------------------------------------------------------------
# networks in storage
# ---------------------------------------------------------------------------

def rebuild(case):
  """A fresh network of the same configuration with other weights."""
  key, m = model_of(case)
  models._CACHE.pop(key)
  _, b = model_of(case)
  with torch.no_grad():
    for p in b.state_dict().values():
      if p.is_floating_point():
        p.mul_(0.7).add_(0.05)
  return m, b


def check_stored(case):
  key, m = model_of(case)
  x = inputs_of(case)
  with torch.no_grad():
    for p in m.parameters():         # the weights have been trained
      p.add_(gen.real_data(tuple(p.shape), case['seed'], 5) * 0.01)
  m.eval()
  with torch.no_grad():
    ref = outputs(m, case, x)
  w = case['net']
  stored = m.state_dict()
  buf = io.BytesIO()
  torch.save(stored, buf)
  # (the small UNet is a class local to the check, which cannot be pickled)
  blob = pickle.dumps(m if case['net'] != 'unet' else copy.deepcopy(m).state_dict())
  deep = copy.deepcopy(m)
  loaded = torch.load(io.BytesIO(buf.getvalue()), map_location='cpu')
  cmp.require(set(loaded) == set(stored), '%s: stored entries', w)
  m, fresh = rebuild(case)
  fresh.load_state_dict(loaded, strict=True)
  blob = pickle.loads(blob)
  for name, other in (('loaded', fresh), ('unpickled', blob), ('copied', deep)):
    if isinstance(other, dict):
      continue
    other.eval()
    with torch.no_grad():
      out = outputs(other, case, x)
    for a, b in zip(out, ref):
      cmp.equal(a, b, 'output of the %s %s' % (name, w))
  # the copy is independent, and every parameter is stored
  with torch.no_grad():
    for p in deep.parameters():
      p.add_(1.0)
    out = outputs(fresh, case, x)
  for a, b in zip(out, ref):
    cmp.equal(a, b, 'output of %s after changing its copy' % w)
  params = set(k for k, _ in m.named_parameters()) | set(k for k, _ in m.named_buffers())
  cmp.require(params == set(stored), '%s: entries which are not stored %s', w,
              sorted(params ^ set(stored))[:4])
  extra = [type(s).__name__ + '.' + k for s in m.modules() for k, v in vars(s).items()
           if isinstance(v, torch.Tensor) and v.is_floating_point() and k != 'grad']
  cmp.require(not extra, '%s: tensors outside of the state dictionary %s', w, extra[:4])
  return [w, 'nt']


# ---------------------------------------------------------------------------
# octrees and clouds
# ---------------------------------------------------------------------------

@st.composite
def strat_obj(draw):
  case = draw(gen.octree_case(1, 5, 1, 3, bulk=60, max_shapes=2, deep=16, allow_empty=True))
  case.update(nsalt=draw(gen.SALT), fsalt=draw(gen.SALT), stage=draw(st.sampled_from(
      ['points', 'points', 'merged', 'empty', 'built', 'neigh', 'grown'])),
      how=draw(st.sampled_from(['pickle', 'save', 'deepcopy'])),
      has=[draw(st.booleans()) for _ in range(3)])
  return case


def through(obj, how):
  if how == 'pickle':
    return pickle.loads(pickle.dumps(obj))
  if how == 'save':
    buf = io.BytesIO()
    torch.save(obj, buf)
    return torch.load(io.BytesIO(buf.getvalue()), weights_only=False)
  return copy.deepcopy(obj)


def scribble(x, seen):
  """Overwrites every tensor of an object."""
  if isinstance(x, torch.Tensor):
    if x.is_floating_point() or x.dtype in (torch.int64, torch.int32):
      x.fill_(3)
  elif isinstance(x, (list, tuple)):
    for v in x:
      scribble(v, seen)
  elif isinstance(x, dict):
    for v in x.values():
      scribble(v, seen)
  elif hasattr(x, '__dict__') and id(x) not in seen:
    seen.add(id(x))
    scribble(vars(x), seen)


def check_obj(case):
  h = case['has']
  pts = gen.make_points(case, *h)
  s = case['stage']
  if s == 'points':
    obj, snap = pts[0], cmp.snap_points
  elif s == 'merged':
    obj, snap = merge_points(pts), cmp.snap_points
  elif s == 'empty':
    obj, snap = Octree(case['depth'], case['full'], len(pts)), cmp.snap_octree
  elif s == 'grown':
    obj, snap = Octree(case['depth'], case['full'], len(pts)), cmp.snap_octree
    for d in range(case['full'] + 1):
      obj.octree_grow_full(d)
    for d in range(case['full'], min(case['depth'], case['full'] + 2)):
      n = int(obj.nnum[d])
      split = torch.from_numpy(gen.hash_ints(n, case['nsalt'], d) % 3 == 0).int()
      split[0] = 1
      obj.octree_split(split, d)
      obj.octree_grow(d + 1)
  else:
    obj, snap = gen.make_octree(case, h[0], h[1], s == 'neigh'), cmp.snap_octree
  before = snap(obj)
  got = through(obj, case['how'])
  cmp.require(type(got) is type(obj), 'a %s came back', type(got).__name__)
  w = '%s (%s) after %s' % (type(obj).__name__, s, case['how'])
  cmp.same(before, snap(got), w)
  cmp.require(str(got.device) == str(obj.device), '%s: device %s', w, got.device)
  if s == 'built':
    got.construct_all_neigh()
    obj.construct_all_neigh()
    cmp.same(snap(obj), snap(got), w + ' and construction of the neighbours')
    before = snap(obj)
  if s in ('neigh', 'built'):
    for d in range(1, case['depth'] + 1):
      for k, stride, ne in (('333', 1, False), ('333', 1, True), ('222', 2, False)):
        cmp.equal(got.get_neigh(d, k, stride, ne), obj.get_neigh(d, k, stride, ne),
                  w + ': neighbours')
    before = snap(obj)
  scribble(got, set())
  cmp.same(before, snap(obj), w + ': the original after changing the copy')
  return [s, case['how']] + (['nt'] if len(pts) > 1 else [])


FACETS = [
    Facet('gradient', strat, check_gradient, 300, 5000, heavy=True),
    Facet('stored', strat, check_stored, 160, 2500, heavy=True),
    Facet('containers', strat_obj, check_obj, 1200, 20000),
]
