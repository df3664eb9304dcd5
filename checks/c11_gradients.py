"""C11: gradients of the octree operators are the exact adjoints of their forward maps."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C11'
RULE = ('convolutions: histories of 1..4 applications of one module (conv, deconv, depth-wise, '
        'group; direct or buffered) to different octrees and layers, with drawn subsets of '
        'tensors requiring gradients and the backward passes run in drawn order, compared with '
        'exact integer gradients; linear operators: gradient compared with the transpose of '
        'the matrix obtained by applying the operator to unit vectors; max pooling: gradient '
        'lands on the maximal child; gradients differentiated again; convolutions of data in '
        'another type than the weights or under bfloat16 autocast; non-trivial: the output depends on at least two rows')
ASSUMPTIONS = ['values are small integers, for which float32 arithmetic is exact',
               'mixed types: -1, 0, 1 with sums below 256, exact in bfloat16 as well; the backward '
               'pass runs outside of autocast']


@st.composite
def strat_hist(draw):
  case = {'kind': draw(st.sampled_from(['conv', 'deconv', 'dwconv', 'gconv'])),
          'kernel': draw(st.sampled_from(ref.KERNELS)), 'stride': draw(st.sampled_from([1, 2])),
          'nempty': draw(st.booleans()), 'bias': draw(st.booleans()),
          'direct': draw(st.integers(0, 3)) == 0, 'buf': draw(st.sampled_from([0, 7, 8]) if gen.LARGE else st.integers(0, 6)),
          'cin': draw(st.integers(1, 4)), 'cout': draw(st.integers(1, 4)),
          'group': draw(st.integers(1, 3)), 'salt': draw(gen.SALT),
          'wgrad': draw(st.booleans()), 'double': draw(st.booleans())}
  trees = draw(st.lists(gen.octree_case(1, 4, 1, 2, max_batch=2, bulk=30, max_shapes=2),
                        min_size=1, max_size=2))
  case['trees'] = trees
  n = draw(st.integers(1, 4))
  uses = []
  for _ in range(n):
    t = draw(st.integers(0, len(trees) - 1))
    dep = trees[t]['depth']
    if case['kind'] == 'deconv' and case['stride'] == 2:
      d = draw(st.integers(0, dep - 1))
    else:
      d = draw(st.integers(1, dep))
    uses.append({'t': t, 'd': d, 'xgrad': draw(st.integers(0, 3)) != 0,
                 'layout': draw(st.integers(0, 2))})
  case['uses'] = uses
  case['order'] = draw(st.permutations(list(range(n))))
  case['joint'] = draw(st.booleans())
  return case


def build(case, dt):
  k, s, ne = [int(c) for c in case['kernel']], case['stride'], case['nempty']
  kw = dict(kernel_size=k, stride=s, nempty=ne, use_bias=case['bias'])
  kind = case['kind']
  kdim = conv.kdim(case['kernel'])
  buf = [int(2e8), kdim * case['cin'], kdim * 7, 1, kdim * case['cin'] * 3 + 1,
         kdim * case['cin'] * 5, kdim * case['cin'] * 11,
         kdim * case['cin'] * 5003, kdim * case['cin'] * 33001][case['buf']]
  if kind == 'conv' or kind == 'deconv':
    cls = ocnn.nn.OctreeConv if kind == 'conv' else ocnn.nn.OctreeDeconv
    if case['direct']:
      kw['direct_method'] = True
    m = cls(case['cin'], case['cout'], max_buffer=buf, **kw)
    cin, cout = case['cin'], case['cout']
  elif kind == 'dwconv':
    m = ocnn.nn.OctreeDWConv(case['cin'], max_buffer=buf, **kw)
    cin = cout = case['cin']
  else:
    g = case['group']
    cin, cout = case['cin'] * g, case['cout'] * g
    m = ocnn.nn.OctreeGroupConv(cin, cout, group=g, **kw)
  par = conv.set_params(m, case, dt)
  for p in m.parameters():
    p.requires_grad_(case['wgrad'])
  return m, par, cin, cout


def dense_weights(case, par, cin, cout):
  """Weights of the equivalent plain convolution (kdim, cin, cout)."""
  if case['kind'] == 'dwconv':
    w = par['weights']
    return w[:, 0, :, None] * np.eye(cin), par.get('bias')
  if case['kind'] == 'gconv':
    g = case['group']
    kdim = conv.kdim(case['kernel'])
    w = np.zeros((kdim, cin, cout))
    ci, co = cin // g, cout // g
    for i in range(g):
      w[:, i * ci:(i + 1) * ci, i * co:(i + 1) * co] = par['convs.%d.weights' % i]
    b = np.concatenate([par['convs.%d.bias' % i] for i in range(g)]) if case['bias'] else None
    return w, b
  return par['weights'], par.get('bias')


def check_hist(case):
  dt = torch.float64 if case['double'] else torch.float32
  s, ne, k = case['stride'], case['nempty'], case['kernel']
  m, par, cin, cout = build(case, dt)
  w, b = dense_weights(case, par, cin, cout)
  octs = [gen.make_octree(t, False, False) for t in case['trees']]
  refs = [gen.make_ref(t) for t in case['trees']]
  deconv = case['kind'] == 'deconv'
  outs, gd, gw_all, gb_all = [], [], np.zeros_like(w), np.zeros(cout)
  used = []
  nt = False
  for i, u in enumerate(case['uses']):
    r, d = refs[u['t']], u['d']
    x = gen.int_array((r.num(d, ne), cin), case['salt'], 100 + i, -3, 3).astype(np.float64)
    leaf = torch.from_numpy(x).to(dt).requires_grad_(u['xgrad'])
    data = leaf if u['layout'] != 1 else torch.cat([leaf, leaf], 1)[:, :cin]
    out = m(data, octs[u['t']], d)
    fw = conv.deconv_forward if deconv else conv.conv_forward
    exp = fw(r, x, w, d, k, s, ne, b)
    cmp.equal(out, exp, 'output of use %d' % i)
    g = gen.int_array(exp.shape, case['salt'], 200 + i, -2, 2).astype(np.float64)
    bw = conv.deconv_backward if deconv else conv.conv_backward
    e = bw(r, x, w, g, d, k, s, ne)
    gd.append(e[0])
    outs.append((out, torch.from_numpy(g).to(dt), leaf, u))
    if u['xgrad'] or case['wgrad']:
      used.append(i)
      gw_all += e[1]
      gb_all += e[2]
    dn = d + 1 if deconv and s == 2 else d
    nt = nt or conv.touching(r, dn, k, s, ne)
  order = [i for i in case['order'] if i in used]
  if case['joint'] and order:
    sum((outs[i][0] * outs[i][1]).sum() for i in order).backward()
  else:
    for i in order:
      (outs[i][0] * outs[i][1]).sum().backward()
  for i, (out, g, leaf, u) in enumerate(outs):
    if u['xgrad']:
      cmp.require(leaf.grad is not None, 'use %d: the input received no gradient', i)
      cmp.equal(leaf.grad, gd[i], 'gradient of the input of use %d' % i)
      cmp.dtype(leaf.grad, dt, 'gradient of the input')
    else:
      cmp.require(leaf.grad is None, 'use %d: unexpected gradient', i)
  if case['wgrad'] and used:
    grads = {n: p.grad for n, p in m.named_parameters()}
    for n, p in grads.items():
      cmp.require(p is not None, 'parameter %s received no gradient', n)
    if case['kind'] == 'dwconv':
      cmp.equal(grads['weights'], np.einsum('kcc->kc', gw_all)[:, None], 'weight gradient')
    elif case['kind'] == 'gconv':
      ci, co = cin // case['group'], cout // case['group']
      for i in range(case['group']):
        cmp.equal(grads['convs.%d.weights' % i],
                  gw_all[:, i * ci:(i + 1) * ci, i * co:(i + 1) * co], 'weight gradient')
        if case['bias']:
          cmp.equal(grads['convs.%d.bias' % i], gb_all[i * co:(i + 1) * co], 'bias gradient')
    else:
      cmp.equal(grads['weights'], gw_all, 'weight gradient')
    if case['bias'] and case['kind'] != 'gconv':
      cmp.equal(grads['bias'], gb_all, 'bias gradient')
  tags = [case['kind'], 'uses%d' % len(case['uses'])]
  if nt and used:
    tags.append('nt')
  return tags


# ---------------------------------------------------------------------------
# linear operators
# ---------------------------------------------------------------------------

LINEAR = ['octree2col', 'col2octree', 'pad', 'depad', 'octree2voxel', 'avg_pool',
          'upsample', 'interp_nearest', 'interp_linear', 'align', 'global_pool',
          'max_unpool']


@st.composite
def strat_linear(draw):
  case = draw(gen.octree_case(1, 5 if gen.LARGE else 3, 1, 2, max_batch=2, bulk=8,
                              max_shapes=2))
  case['op'] = draw(st.sampled_from(LINEAR))
  case['d'] = draw(st.integers(1, case['depth']))
  case['nempty'] = draw(st.booleans())
  case['kernel'] = draw(st.sampled_from(ref.KERNELS))
  case['stride'] = draw(st.sampled_from([1, 2]))
  case['salt'] = draw(gen.SALT)
  case['channel'] = draw(st.integers(1, 3))
  return case


def linear_op(case, octree, r):
  """(number of input rows, function); None when the operator is not applicable."""
  nn = ocnn.nn
  d, ne, k, s = case['d'], case['nempty'], case['kernel'], case['stride']
  op = case['op']
  if op == 'octree2col':
    return r.num(d, ne), lambda x: nn.octree2col(x, octree, d, k, s, ne)
  if op == 'col2octree':
    nb = r.neigh(d, k, s, ne)
    n, K = nb.shape
    return n * K, lambda x: nn.col2octree(x.view(n, K, -1), octree, d, k, s, ne)
  if op == 'pad':
    return r.num(d, True), lambda x: nn.octree_pad(x, octree, d)
  if op == 'depad':
    return r.num(d, False), lambda x: nn.octree_depad(x, octree, d)
  if op == 'octree2voxel':
    if d > 2:
      return None
    return r.num(d, ne), lambda x: nn.octree2voxel(x, octree, d, ne)
  if op == 'avg_pool':
    return r.num(d, ne), lambda x: nn.octree_avg_pool(x, octree, d, k, s, ne)
  if op == 'upsample':
    dd = case['d'] - 1
    t = dd + 1 + case['salt'] % (case['depth'] - dd)
    up = ocnn.nn.OctreeUpsample('nearest', ne)
    return r.num(dd, ne), lambda x: up(x, octree, dd, t)
  if op in ('interp_nearest', 'interp_linear'):
    n = 12
    q = gen.hash_ints(3 * n, case['salt'], 5).reshape(n, 3) % 33 / 16.0 - 1.0
    b = gen.hash_ints(n, case['salt'], 6) % r.batch
    pts = torch.from_numpy(np.concatenate([q, b[:, None]], 1)).float()
    f = nn.OctreeInterp(op[7:], ne)
    return r.num(d, ne), lambda x: f(x, octree, d, pts)
  if op == 'align':
    c2 = dict(case, samples=[[{'k': 'rnd', 'n': 10, 'r': case['salt'] + i}]
                             for i in range(len(case['samples']))])
    t = gen.make_octree(c2, False, False)
    return r.num(d, ne), lambda x: nn.octree_align(x, octree, t, d, ne)
  if op == 'global_pool':
    g = nn.OctreeGlobalPool(ne)
    return r.num(d, ne), lambda x: g(x, octree, d)
  if op == 'max_unpool':
    if d - 1 < case['full'] or r.num(d, True) == 0:
      return None
    x = gen.hash_ints(r.num(d, ne), case['salt'], 9)[:, None].astype(np.float32)
    out, idx = nn.octree_max_pool(torch.from_numpy(x), octree, d, ne, True)
    return out.shape[0], lambda v: nn.octree_max_unpool(
        v, idx.expand(-1, v.shape[1]), octree, d - 1, ne)


def check_adjoint(case):
  """Large inputs: <g, A v> = <A^T g, v>, where A^T g is the gradient."""
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  spec = linear_op(case, octree, r)
  if spec is None or spec[0] == 0:
    return ['skipped']
  n, f = spec
  c = case['channel']
  x = gen.int_data((n, c), case['salt'], 20).requires_grad_(True)
  out = f(x)
  g = gen.int_data(tuple(out.shape), case['salt'], 21)
  (out * g).sum().backward()
  cmp.require(x.grad is not None and x.grad.shape == x.shape, '%s: no gradient', case['op'])
  grad = x.grad.double()
  with torch.no_grad():
    for i in range(3):
      v = gen.int_data((n, c), case['salt'], 30 + i)
      lhs = float((f(v).double() * g.double()).sum())
      rhs = float((grad * v.double()).sum())
      tol = 1e-2 + 1e-6 * float((grad * v.double()).abs().sum())
      cmp.require(abs(lhs - rhs) <= tol, '%s of %d rows: <g, A v> = %r but <A^T g, v> = %r',
                  case['op'], n, lhs, rhs)
  return [case['op']] + (['nt'] if n > 1000 else [])


def check_linear(case):
  octree = gen.make_octree(case, False, False)
  r = gen.make_ref(case)
  spec = linear_op(case, octree, r)
  if spec is None or spec[0] > 260 or spec[0] == 0:
    return ['skipped']
  n, f = spec
  c = case['channel']
  with torch.no_grad():
    mat = cmp.tensor(f(torch.eye(n)))           # (..., n): column j is the image of e_j
    mat = (mat.movedim(1, -1) if case['op'] == 'octree2voxel' and False else mat)
    mat = mat.reshape(-1, n).double().numpy()
  x0 = gen.int_data((n, c), case['salt'], 20)
  x = x0.clone().requires_grad_(True)
  out = f(x)
  cmp.close(out.reshape(-1, c), mat @ x0.double().numpy(), case['op'] + ' is linear', 1e-5,
            1e-5)
  g = gen.int_data(tuple(out.shape), case['salt'], 21)
  # the same output is used twice
  (out * g).sum().backward(retain_graph=True)
  exp = mat.T @ g.reshape(-1, c).double().numpy()
  cmp.require(x.grad is not None, '%s: no gradient', case['op'])
  cmp.close(x.grad, exp, 'gradient of ' + case['op'], 1e-5, 1e-5)
  (out * g).sum().backward()
  cmp.close(x.grad, 2 * exp, 'accumulated gradient of ' + case['op'], 1e-5, 1e-5)
  cmp.equal(x, x0, 'input of ' + case['op'])
  t = [case['op']]
  if (np.abs(mat).sum(0) > 0).sum() > 1:
    t.append('nt')
  return t


# ---------------------------------------------------------------------------
# max pooling and the dropping of paths
# ---------------------------------------------------------------------------

@st.composite
def strat_max(draw):
  case = draw(gen.octree_case(2, 4, 1, 2, max_batch=2, bulk=60, max_shapes=2))
  case['d'] = draw(st.integers(case['full'] + 1, case['depth'])) \
      if case['full'] < case['depth'] else case['depth']
  case['nempty'] = draw(st.booleans())
  case['c'] = draw(st.integers(1, 3))
  case['salt'] = draw(gen.SALT)
  return case


def check_max(case):
  """The gradient of max pooling reaches exactly the maximal child of every parent."""
  d, ne, c = case['d'], case['nempty'], case['c']
  r = gen.make_ref(case)
  if d - 1 < case['full']:
    return []
  octree = gen.make_octree(case, False, False)
  n = r.num(d, ne)
  # distinct values in every column
  x0 = np.stack([np.argsort(gen.hash_ints(n, case['salt'], i)) for i in range(c)], 1)
  x = torch.from_numpy(x0).float().requires_grad_(True)
  pool = ocnn.nn.OctreeMaxPool(ne)
  out = pool(x, octree, d)
  # the parent row of every node
  rows = r.rows(d, ne).copy()
  rows[:, 1:] >>= 1
  parent = r.levels[d - 1].index(rows, ne)
  P = r.num(d - 1, ne)
  best = np.full((P, c), -1, dtype=np.int64)
  for i, p in enumerate(parent):
    for j in range(c):
      if best[p, j] < 0 or x0[i, j] > x0[best[p, j], j]:
        best[p, j] = i
  exp = np.zeros((P, c))
  has = best[:, 0] >= 0
  for j in range(c):
    exp[has, j] = x0[best[has, j], j]
  cmp.equal(out, exp, 'max pool')
  g = gen.int_array((P, c), case['salt'], 31)
  (out * torch.from_numpy(g).float()).sum().backward()
  e = np.zeros((n, c))
  for j in range(c):
    np.add.at(e[:, j], best[has, j], g[has, j])
  cmp.equal(x.grad, e, 'gradient of max pool')
  return ['nt'] if n > 8 else []


# ---------------------------------------------------------------------------
# mixed precision
# ---------------------------------------------------------------------------

@st.composite
def strat_mixed(draw):
  case = draw(gen.octree_case(1, 4, 1, 2, max_batch=2, bulk=30, max_shapes=2))
  case['kind'] = draw(st.sampled_from(['conv', 'deconv', 'dwconv', 'gconv']))
  case['kernel'] = draw(st.sampled_from(ref.KERNELS))
  case['stride'] = draw(st.sampled_from([1, 2]))
  case['nempty'], case['bias'] = draw(st.booleans()), draw(st.booleans())
  case['amp'] = draw(st.booleans())
  # the direct method multiplies what it is given: different types need autocast
  case['direct'] = case['amp'] and draw(st.booleans())
  case['buf'] = draw(st.integers(0, 6))
  case['cin'], case['cout'] = draw(st.integers(1, 4)), draw(st.integers(1, 4))
  case['group'], case['salt'] = draw(st.integers(1, 2)), draw(gen.SALT)
  case['wgrad'] = True
  types = ['float32', 'bfloat16', 'float64']     # autocast leaves float64 alone
  case['xtype'] = draw(st.sampled_from(types[:2] if case['direct'] else types))
  case['d'] = draw(st.integers(0, case['depth'] - 1)) \
      if case['kind'] == 'deconv' and case['stride'] == 2 else draw(st.integers(1, case['depth']))
  return case


def check_mixed(case):
  """Data, -1, 0, 1 only, in another type than the weights: sums below 256 are exact even in
  bfloat16, so values and gradients do not depend on the types."""
  s, ne, k, d = case['stride'], case['nempty'], case['kernel'], case['d']
  octree, r = gen.make_octree(case, False, False), gen.make_ref(case)
  m, par, cin, cout = build(case, torch.float32)
  with torch.no_grad():
    for n, p in m.named_parameters():
      p.clamp_(-1, 1)
      par[n] = np.clip(par[n], -1, 1)
  w, b = dense_weights(case, par, cin, cout)
  deconv = case['kind'] == 'deconv'
  x = gen.int_array((r.num(d, ne), cin), case['salt'], 100, -1, 1).astype(np.float64)
  leaf = torch.from_numpy(x).to(getattr(torch, case['xtype'])).requires_grad_(True)
  with torch.autocast('cpu', dtype=torch.bfloat16, enabled=case['amp']):
    out = m(leaf, octree, d)
  exp = (conv.deconv_forward if deconv else conv.conv_forward)(r, x, w, d, k, s, ne, b)
  cmp.equal(out.double(), exp, 'output')
  g = gen.int_array(exp.shape, case['salt'], 200, -1, 1).astype(np.float64)
  (out * torch.from_numpy(g).to(out.dtype)).sum().backward()
  e = (conv.deconv_backward if deconv else conv.conv_backward)(r, x, w, g, d, k, s, ne)
  cmp.require(leaf.grad is not None, 'the input received no gradient')
  cmp.equal(leaf.grad.double(), e[0], 'gradient of the input')
  # sums over the rows are accumulated in the type of the weights by the buffered method
  scale = np.abs(e[1]).max(initial=1)
  tol = 0 if not case['amp'] else scale / 100
  grads = {n: p.grad for n, p in m.named_parameters()}
  for n, p in grads.items():
    cmp.require(p is not None, 'parameter %s received no gradient', n)
    cmp.dtype(p, torch.float32, 'gradient of ' + n)
  if case['kind'] == 'dwconv':
    cmp.close(grads['weights'], np.einsum('kcc->kc', e[1])[:, None], 'weight gradient', tol, 0)
  elif case['kind'] == 'gconv':
    ci, co = cin // case['group'], cout // case['group']
    for i in range(case['group']):
      cmp.close(grads['convs.%d.weights' % i],
                e[1][:, i * ci:(i + 1) * ci, i * co:(i + 1) * co], 'weight gradient', tol, 0)
  else:
    cmp.close(grads['weights'], e[1], 'weight gradient', tol, 0)
  tags = [case['kind'], 'x-%s%s' % (case['xtype'], '-autocast' if case['amp'] else ''),
          'out-%s' % str(out.dtype)[6:]]
  if case['xtype'] != 'float32' or case['amp']:
    if conv.touching(r, d + 1 if deconv and s == 2 else d, k, s, ne):
      tags.append('nt')
  return tags


@st.composite
def strat_second(draw):
  case = draw(strat_hist())
  case['kind'] = draw(st.sampled_from(['conv', 'deconv', 'dwconv']))
  u = case['uses'][0]
  dep = case['trees'][u['t']]['depth']
  u['d'] = draw(st.integers(0, dep - 1) if case['kind'] == 'deconv' and case['stride'] == 2
                else st.integers(1, dep))
  if draw(st.integers(0, 2)):
    case['buf'] = 0
  return case


def check_second(case):
  """Gradients that are differentiated again (gradient penalties): right, or refused."""
  dt = torch.float64
  u, s, ne, k = case['uses'][0], case['stride'], case['nempty'], case['kernel']
  d = u['d']
  m, par, cin, cout = build(dict(case, wgrad=True), dt)
  w, _ = dense_weights(case, par, cin, cout)
  tree = case['trees'][u['t']]
  o, r = gen.make_octree(tree, False, False), gen.make_ref(tree)
  deconv = case['kind'] == 'deconv'
  fw = conv.deconv_forward if deconv else conv.conv_forward
  bw = conv.deconv_backward if deconv else conv.conv_backward

  def ints(shape, stream, hi=2):
    return gen.int_array(shape, case['salt'], stream, -hi, hi).astype(np.float64)
  x, a = ints((r.num(d, ne), cin), 100), ints((r.num(d, ne), cin), 101)
  b = ints(tuple(m.weights.shape), 102)
  v = ints(fw(r, x, w, d, k, s, ne).shape, 103)
  xt, vt = (torch.from_numpy(t).requires_grad_() for t in (x, v))
  try:
    gx, gw = torch.autograd.grad((m(xt, o, d) * vt).sum(), [xt, m.weights], create_graph=True)
    total = (gx * torch.from_numpy(a)).sum() + (gw * torch.from_numpy(b)).sum()
    got = torch.autograd.grad(total, [xt, m.weights, vt], allow_unused=True)
  except RuntimeError as e:
    if any(t in str(e) for t in ('inplace operation', 'does not require grad', 'once_diff',
                                 'differentiate twice')):
      return ['refused']
    raise
  bd, _ = dense_weights(case, {'weights': b}, cin, cout)
  exp = [bw(r, x, bd, v, d, k, s, ne)[0], bw(r, a, w, v, d, k, s, ne)[1],
         fw(r, a, w, d, k, s, ne) + fw(r, x, bd, d, k, s, ne)]
  if case['kind'] == 'dwconv':
    exp[1] = np.einsum('kcc->kc', exp[1])[:, None]
  for g, e, name in zip(got, exp, ('input', 'weights', 'outer gradient')):
    if g is None:
      cmp.require(not e.any(), 'second derivative: nothing flows to the %s', name)
    else:
      cmp.equal(g, e, 'second derivative with respect to the ' + name)
  dn = d + 1 if deconv and s == 2 else d
  return ['nt'] if conv.touching(r, dn, k, s, ne) else []


FACETS = [
    Facet('conv-history', strat_hist, check_hist, 2000, 40000),
    Facet('linear', strat_linear, check_linear, 2000, 40000),
    Facet('mixed-precision', strat_mixed, check_mixed, 1200, 20000),
    Facet('second-order', strat_second, check_second, 500, 8000),
    Facet('max-pool', strat_max, check_max, 700, 12000),
]
FACETS += [large(f, 32, 400) for f in FACETS if f.name in ('conv-history', 'max-pool')]
FACETS += [large(Facet('adjoint', strat_linear, check_adjoint, 0), 96, 1200)]
