"""C31: tensor helpers, weight initialisation and the example octree."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn import utils

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C31'
RULE = ('scatter_add over every axis, index shape, given output or size; inclusive and exclusive '
        'sums; grids and truncated division, all against numpy loops; freshly built layers of '
        'all kinds with fixed seeds against the stated uniform bounds; the example octree of '
        'every depth; non-trivial: repeated indices, negative numbers, several channels')
ASSUMPTIONS = ['integer-valued data, so that sums are exact']


@st.composite
def strat_scatter(draw):
  nd = draw(st.integers(1, 3))
  shape = [draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, 6)) for _ in range(nd)]
  dim = draw(st.integers(-nd, nd - 1))
  if gen.LARGE:
    shape[draw(st.sampled_from([dim % nd, dim % nd, 0]))] = draw(gen.many(1, 1))
  return {'shape': shape, 'dim': dim, 'size': draw(gen.many(1, 6, 3000)), 'salt': draw(gen.SALT),
          'kind': draw(st.sampled_from(['1d', '1d', 'full', 'lead'])),
          'mode': draw(st.sampled_from(['auto', 'size', 'out'])),
          'dt': draw(st.sampled_from(['float32', 'float64', 'int64'])),
          'pos': draw(st.booleans()), 'extra': draw(st.integers(0, 3)),
          'big': draw(st.booleans())}


def check_scatter(case):
  shape, nd = case['shape'], len(case['shape'])
  dim = case['dim'] % nd
  unit = ((1 << 50) + 1 if case['dt'] == 'int64' else 1 << 40) if case.get('big') else 1
  src = gen.int_array(shape, case['salt'], 1, -5, 5) * unit
  kind = case['kind']
  if kind == '1d':
    ish = (shape[dim],)
  elif kind == 'lead':        # the leading axes up to the summed one
    ish = tuple(shape[:dim + 1])
  else:
    ish = tuple(shape)
  idx = gen.hash_ints(int(np.prod(ish)), case['salt'], 2).reshape(ish) % case['size']
  if kind == '1d':
    full = idx.reshape([-1 if i == dim else 1 for i in range(nd)])
  else:
    full = idx.reshape(ish + (1,) * (nd - len(ish)))
  full = np.broadcast_to(full, shape)
  mode = case['mode']
  n = (int(full.max()) + 1 if full.size else 0) if mode == 'auto' else (
      case['size'] + case['extra'])
  osh = list(shape)
  osh[dim] = n
  exp = np.zeros(osh, np.int64)
  dt = getattr(torch, case['dt'])
  ts, ti = torch.from_numpy(src).to(dt), torch.from_numpy(idx.astype(np.int64))
  kw = {}
  if mode == 'size':
    kw['dim_size'] = n
  out = None
  if mode == 'out':
    exp = gen.int_array(osh, case['salt'], 3, -5, 5) * unit
    out = torch.from_numpy(exp.copy()).to(dt)
    kw['out'] = out
  for i in np.ndindex(*shape):
    j = list(i)
    j[dim] = full[i]
    exp[tuple(j)] += src[i]
  if case['pos'] and case['dim'] >= 0:
    kw['dim'] = case['dim']
    got = utils.scatter_add(ts, ti, **kw)
  else:
    got = utils.scatter_add(ts, ti, case['dim'], **kw)
  cmp.dtype(got, dt, 'result')
  cmp.equal(got, exp, 'scatter_add')
  if out is not None:
    cmp.equal(out, exp, 'the given output')
  cmp.equal(ts, src, 'source')
  cmp.equal(ti, idx, 'index')
  if dim == nd - 1 and mode == 'auto':
    cmp.equal(utils.scatter_add(ts, ti), exp, 'scatter_add along the last axis')
  return [kind, mode] + (['nt'] if np.unique(full).size < full.size else [])


@st.composite
def strat_arith(draw):
  nd = draw(st.integers(1, 3))
  return {'shape': [draw(st.integers(0, 5)) for _ in range(nd)],
          'dim': draw(st.integers(-nd, nd - 1)), 'salt': draw(gen.SALT),
          'lo': draw(st.integers(-4, 4)), 'len': draw(st.integers(0, 6)),
          'div': draw(st.sampled_from([1, 2, 3, 7, -2, -3])),
          'dt': draw(st.sampled_from(['float32', 'float64', 'int64', 'int32'])),
          'big': draw(st.booleans()), 'list': draw(st.lists(st.integers(1, 5), min_size=1,
                                                            max_size=4)),
          'num': draw(st.integers(1, 5)), 'sizes': [draw(st.integers(1, 4)) for _ in range(3)]}


def check_arith(case):
  dt = getattr(torch, case['dt'])
  a = gen.int_array(case['shape'], case['salt'], 1, -9, 9)
  t = torch.from_numpy(a).to(dt)
  dim = case['dim'] % a.ndim
  inc = np.cumsum(a, axis=dim)
  zero = np.zeros([1 if i == dim else s for i, s in enumerate(a.shape)], np.int64)
  cmp.equal(utils.cumsum(t, case['dim']), inc, 'inclusive sum')
  cmp.equal(utils.cumsum(t, dim=case['dim'], exclusive=False), inc, 'inclusive sum')
  got = utils.cumsum(t, dim=case['dim'], exclusive=True)
  cmp.equal(got, np.concatenate([zero, inc], dim), 'exclusive sum')
  cmp.equal(t, a, 'summed data')
  lo, hi = case['lo'], case['lo'] + case['len'] - 1
  e = np.array([(x, y, z) for x in range(lo, hi + 1) for y in range(lo, hi + 1)
                for z in range(lo, hi + 1)], np.int64).reshape(-1, 3)
  got = utils.range_grid(lo, hi) if case['len'] else None
  if got is not None:
    cmp.dtype(got, torch.int64, 'grid')
    cmp.equal(got, e, 'range_grid')
  # division towards zero, like C
  v = a * (10 ** 6 + 3 if case['big'] else 1)
  v = v.astype(np.float32 if case['dt'] == 'float32' else np.int64).astype(np.int64)
  tv = torch.from_numpy(v).to(dt)
  q = np.sign(v) * np.sign(case['div']) * (np.abs(v) // abs(case['div']))
  if not (case['dt'] == 'float32' and case['big']):
    for d in (case['div'], torch.tensor(case['div']).to(dt)):
      got = utils.trunc_div(tv, d)
      cmp.equal(got, q, 'trunc_div')
      cmp.dtype(got, dt, 'trunc_div')
  # lists
  num = max(case['num'], len(case['list']))
  exp = case['list'] + [case['list'][-1]] * (num - len(case['list']))
  cmp.require(list(utils.resize_with_last_val(list(case['list']), num)) == exp,
              'resize_with_last_val')
  if len(case['list']) <= 3:
    exp = (case['list'] + [case['list'][-1]] * 3)[:3]
    cmp.require(list(utils.resize_with_last_val(list(case['list']))) == exp,
                'resize_with_last_val')
  cmp.require(utils.list2str(case['list']) == ''.join('%d' % x for x in case['list']),
              'list2str')
  ax = [torch.arange(n) + 10 * i for i, n in enumerate(case['sizes'])]
  got = utils.meshgrid(*ax, indexing='ij')
  exp = np.meshgrid(*[x.numpy() for x in ax], indexing='ij')
  for g, x in zip(got, exp):
    cmp.equal(g, x, 'meshgrid')
  return ['nt'] if a.size > 1 and (a < 0).any() else []


# ---------------------------------------------------------------------------
# fresh layers
# ---------------------------------------------------------------------------

KS = [[3], [2], [3, 3, 3], [3, 1, 1], [1, 3, 1], [1, 1, 3], [2, 2, 2], [3, 3, 1], [1, 3, 3],
      [3, 1, 3], [1]]


@st.composite
def strat_init(draw):
  return {'kind': draw(st.sampled_from(['conv', 'conv', 'deconv', 'dw', 'group', 'raw', 'norm'])),
          'ks': draw(st.integers(0, len(KS) - 1)), 'cin': draw(st.integers(1, 12)),
          'cout': draw(st.integers(1, 12)), 'group': draw(st.integers(1, 4)),
          'bias': draw(st.booleans()), 'stride': draw(st.sampled_from([1, 2])),
          'nempty': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)),
          'direct': draw(st.booleans())}


def build_layer(case):
  nn, ks = ocnn.nn, list(KS[case['ks']])
  k, ci, co, g = case['kind'], case['cin'], case['cout'], case['group']
  if k == 'conv':
    return nn.OctreeConv(ci, co, ks, case['stride'], case['nempty'], case['direct'],
                         case['bias'])
  if k == 'deconv':
    return nn.OctreeDeconv(ci, co, ks, case['stride'], case['nempty'], case['direct'],
                           case['bias'])
  if k == 'dw':
    return nn.OctreeDWConv(ci, ks, case['stride'], case['nempty'], case['bias'])
  if k == 'group':
    return nn.OctreeGroupConv(ci * g, co * g, kernel_size=ks, stride=case['stride'],
                              nempty=case['nempty'], use_bias=case['bias'], group=g)
  if k == 'norm':
    return nn.OctreeGroupNorm(ci * g, g, case['nempty'])
  w = torch.nn.Module()
  w.weights = torch.nn.Parameter(torch.empty(int(np.prod((ks * 3)[:3])), ci, co))
  utils.xavier_uniform_(w.weights)
  return w


def check_init(case):
  torch.manual_seed(case['seed'])
  a = build_layer(case)
  b = build_layer(case)
  torch.manual_seed(case['seed'])
  c = build_layer(case)
  pa, pb, pc = (dict(m.named_parameters()) for m in (a, b, c))
  cmp.require(set(pa) == set(pb) == set(pc) and pa, 'parameters of a layer')
  k, ci, co, g = case['kind'], case['cin'], case['cout'], case['group']
  kdim = int(np.prod((KS[case['ks']] * 3)[:3]))
  if k == 'norm':
    cmp.equal(a.weights.reshape(-1), np.ones(ci * g), 'scale of a fresh normalisation')
    cmp.equal(a.bias.reshape(-1), np.zeros(ci * g), 'shift of a fresh normalisation')
    return ['norm']
  fan = {'dw': (kdim, kdim * ci), 'group': (kdim * ci, kdim * co)}.get(k, (kdim * ci, kdim * co))
  bound = math.sqrt(6.0 / (fan[0] + fan[1]))
  w, b2, w3 = [], [], []
  for name, p in pa.items():
    cmp.require(p.requires_grad, '%s is not trainable', name)
    if name.endswith('bias'):
      cmp.equal(p, np.zeros(tuple(p.shape)), name)
      cmp.require(p.numel() == {'dw': ci, 'group': co * g}.get(k, co) or k == 'group',
                  '%s has %d entries', name, p.numel())
    else:
      w.append(cmp.arr(p).reshape(-1))
      b2.append(cmp.arr(pb[name]).reshape(-1))
      w3.append(cmp.arr(pc[name]).reshape(-1))
  w, b2, w3 = (np.concatenate(v).astype(np.float64) for v in (w, b2, w3))
  cmp.equal(w, w3, 'weights of the same seed')
  nw = kdim * {'dw': ci, 'group': ci * co * g}.get(k, ci * co)
  cmp.require(w.size == nw, '%d weights, expected %d', w.size, nw)
  has = any(n.endswith('bias') for n in pa)
  if k in ('conv', 'deconv', 'dw', 'group'):
    cmp.require(has == case['bias'], 'bias')
  cmp.require((np.abs(w) <= bound * (1 + 1e-5)).all(), 'a weight of %g exceeds %g',
              np.abs(w).max(), bound)
  n = w.size
  if n >= 4:
    cmp.require(np.unique(w).size > n // 2 and not np.array_equal(w, b2),
                'the weights are not random')
  if n >= 60:
    # uniform: P(max|w| < 0.7 bound) = 0.7^60 ~ 5e-10; mean within 6.5 standard deviations
    cmp.require(np.abs(w).max() > 0.7 * bound if n < 100 else np.abs(w).max() > 0.8 * bound,
                'the weights do not reach the bound %g: %g', bound, np.abs(w).max())
    cmp.require(abs(w.mean()) < 6.5 * bound / math.sqrt(3 * n), 'mean of the weights')
    v = (w / bound) ** 2          # mean 1/3, variance 4/45
    cmp.require(abs(v.mean() - 1 / 3) < 6.5 * math.sqrt(4 / 45 / n), 'variance of the weights')
  return [k] + (['nt'] if n >= 60 else [])


# ---------------------------------------------------------------------------
# the example octree
# ---------------------------------------------------------------------------

@st.composite
def strat_example(draw):
  depth = draw(st.integers(1, 9))
  return {'depth': depth, 'full': draw(st.integers(1, min(depth, 4))), 'n': draw(
      st.integers(1, 3))}


def check_example(case):
  d, f, n = case['depth'], case['full'], case['n']
  o = utils.build_example_octree(d, f, n)
  p = np.array([[-1, -1, -1], [0, 0, -1], [0.0625, 0.0625, -1]], np.float64)[:n]
  nrm = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0]], np.float64)[:n]
  fea = np.array([[1, -1], [2, -2], [3, -3]], np.float64)[:n]
  s = (p + 1) * 2.0 ** (d - 1)
  cells = np.floor(s).astype(np.int64)
  r = ref.RefOctree.from_cells(np.concatenate([np.zeros((n, 1), np.int64), cells], 1), d, f, 1)
  oct.check_structure(o, r)
  idx = r.levels[d].index(np.concatenate([np.zeros((n, 1), np.int64), cells], 1), nempty=True)
  m = r.num(d, True)

  def avg(v):
    out, cnt = np.zeros((m, v.shape[1])), np.zeros((m, 1))
    np.add.at(out, idx, v)
    np.add.at(cnt, idx, 1)
    return out, out / cnt
  cmp.close(o.features[d], avg(fea)[1], 'features', 1e-5, 0)
  cmp.close(o.points[d], avg(s)[1], 'points', 1e-4, 1e-6)
  cmp.close(o.normals[d], oct.normalize(avg(nrm)[0]), 'normals', 1e-5, 0)
  a, b = utils.build_example_octree(), utils.build_example_octree(5, 2, 3)
  cmp.equal(a.keys[5], b.keys[5], 'default example')
  return ['nt'] if n > 1 else []


FACETS = [
    Facet('scatter', strat_scatter, check_scatter, 1500, 30000),
    Facet('arithmetic', strat_arith, check_arith, 1500, 30000),
    Facet('initialisation', strat_init, check_init, 1500, 30000),
    Facet('example', strat_example, check_example, 200, 1000),
]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'scatter']
