"""C28: operators only read: any history over a shared octree leaves it and the inputs alone."""
import copy
import sys
import threading

import numpy as np
import torch
from hypothesis import strategies as st
import ocnn
from ocnn import nn

from vlib import boot, cmp, conv, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C28'
RULE = ('histories of 2..10 operator applications (all operators and queries, all/non-empty '
        'nodes, every layer, with and without gradients, interleaved with moves, merges and '
        'repeated neighbour construction) on one shared octree and shared modules (layers, '
        'residual blocks and block sequences in training and evaluation mode included); every '
        'result is compared with the same call on a fresh octree and a fresh module, octree and '
        'inputs with their state before the call; histories of 2..4 uses of a whole network '
        '(training and evaluation, with and without gradients, mirrored batches with as many '
        'nodes), every use compared with a fresh network of the same state dictionary; '
        'histories run by 2..4 threads at the same time, on one octree or several, compared with '
        'the same histories alone; without gradients, under no_grad and in inference mode too; '
        'non-trivial: at least 3 different operators (2 with threads), or two different batches')

OPS = ['conv', 'conv', 'deconv', 'dwconv', 'gconv', 'octree2col', 'col2octree', 'max_pool',
       'max_unpool', 'avg_pool', 'global_pool', 'pad', 'depad', 'voxel', 'nearest', 'linear',
       'interp', 'upsample', 'align', 'gnorm', 'inorm', 'drop', 'feature', 'query', 'neigh',
       'search', 'to_points', 'move', 'merge', 'construct', 'bnorm', 'm-conv', 'm-deconv',
       'm-fc', 'm-res', 'm-res', 'm-blocks', 'm-feature']


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 4, 1, 2, max_batch=3, bulk=60, max_shapes=2))
  d = case['depth']
  steps = []
  for _ in range(draw(st.integers(2, 10))):
    steps.append({'op': draw(st.sampled_from(OPS)), 'd': draw(st.integers(1, d)),
                  'ne': draw(st.booleans()), 'k': draw(st.sampled_from(ref.KERNELS)),
                  's': draw(st.sampled_from([1, 2])), 'c': draw(st.integers(1, 3)),
                  'v': draw(st.integers(0, 3)), 'salt': draw(st.integers(0, 9)),
                  'g': draw(st.booleans())})
    if not steps[-1]['g'] and steps[-1]['op'] != 'construct':
      steps[-1]['mode'] = draw(st.sampled_from(['', 'no_grad', 'inference']))
  case['steps'] = steps
  case['nsalt'], case['fsalt'] = draw(gen.SALT), draw(gen.SALT)
  return case


SEEDED = threading.RLock()      # the generator of torch belongs to all threads


def module(cache, key, make):
  if cache is not None and key in cache:
    return cache[key]
  with SEEDED, torch.inference_mode(False):
    torch.manual_seed(7)
    m = make()
  if cache is not None:
    cache[key] = m
  return m


def ksize(k):
  return [int(v) for v in k]


def points4(s, r, d):
  n = 12
  p = gen.hash_ints(n * 3, s['salt'], 6).reshape(n, 3) % (8 << d)
  b = gen.hash_ints(n, s['salt'], 8) % r.batch
  return torch.from_numpy(np.concatenate([p / 8.0, b[:, None]], 1)).float()


def apply(s, octree, r, cache, ins):
  if s.get('mode') == 'no_grad':
    with torch.no_grad():
      return step(s, octree, r, cache, ins)
  with torch.inference_mode(s.get('mode') == 'inference'):
    return step(s, octree, r, cache, ins)


def step(s, octree, r, cache, ins):
  """Runs a step; appends the tensors handed in to `ins`; returns a list of tensors."""
  op, d, ne, k, c, salt = s['op'], s['d'], s['ne'], s['k'], s['c'], s['salt']
  stride = s['s']

  def data(d, ne, c=c, stream=1):
    x = gen.real_data((r.num(d, ne), c), salt, stream)
    if s['g']:
      x.requires_grad_(True)
    ins.append((x, x.detach().clone()))
    return x

  direct = s['v'] % 2 == 0
  if op == 'conv':
    m = module(cache, (op, k, stride, ne, c, direct, s['v'] // 2), lambda: nn.OctreeConv(
        c, 2, ksize(k), stride, ne, direct, True, max_buffer=[int(2e8), 50][s['v'] // 2]))
    return [m(data(d, ne), octree, d)]
  if op == 'deconv':
    dd = d - 1 if stride == 2 else d
    m = module(cache, (op, k, stride, ne, c, direct, s['v'] // 2), lambda: nn.OctreeDeconv(
        c, 2, ksize(k), stride, ne, direct, True, max_buffer=[int(2e8), 50][s['v'] // 2]))
    return [m(data(dd, ne), octree, dd)]
  if op == 'dwconv':
    m = module(cache, (op, k, stride, ne, c, s['v'] // 2), lambda: nn.OctreeDWConv(
        c, ksize(k), stride, ne, True, max_buffer=[int(2e8), 50][s['v'] // 2]))
    return [m(data(d, ne), octree, d)]
  if op == 'gconv':
    m = module(cache, (op, k, stride, ne, c, direct), lambda: nn.OctreeGroupConv(
        2 * c, 2 * c, ksize(k), stride, ne, direct, 2))
    return [m(data(d, ne, 2 * c), octree, d)]
  if op == 'octree2col':
    return [nn.octree2col(data(d, ne), octree, d, k, stride, ne)]
  if op == 'col2octree':
    nb = r.neigh(d, k, stride, ne)
    x = gen.real_data(nb.shape + (c,), salt, 2)
    ins.append((x, x.clone()))
    return [nn.col2octree(x, octree, d, k, stride, ne)]
  if op == 'max_pool':
    x = data(d, ne)
    if direct:
      out, idx = nn.octree_max_pool(x, octree, d, ne, True)
      return [torch.nan_to_num(out, neginf=-9.0)]
    return [torch.nan_to_num(nn.OctreeMaxPool(ne)(x, octree, d), neginf=-9.0)]
  if op == 'max_unpool':
    P = int(r.levels[d - 1].nnum_nempty)
    idx = torch.from_numpy(gen.hash_ints(P * c, salt, 4).reshape(P, c) % 8)
    ins.append((idx, idx.clone()))
    return [nn.octree_max_unpool(data(d - 1, ne), idx, octree, d - 1, ne)]
  if op == 'avg_pool':
    return [nn.octree_avg_pool(data(d, ne), octree, d, k, stride, ne)]
  if op == 'global_pool':
    return [nn.octree_global_pool(data(d, ne), octree, d, ne)]
  if op == 'pad':
    return [nn.octree_pad(data(d, True), octree, d, float(s['v']))]
  if op == 'depad':
    return [nn.octree_depad(data(d, False), octree, d)]
  if op == 'voxel':
    return [nn.octree2voxel(data(d, ne), octree, d, ne)]
  if op in ('nearest', 'linear'):
    q = points4(s, r, d)
    ins.append((q, q.clone()))
    f = nn.octree_nearest_pts if op == 'nearest' else nn.octree_linear_pts
    return [f(data(d, ne), octree, d, q, ne, direct)]
  if op == 'interp':
    q = points4(s, r, d)
    q[:, :3] = q[:, :3] * 2.0 ** (1 - d) - 1.0
    ins.append((q, q.clone()))
    m = module(cache, (op, s['v'], ne), lambda: nn.OctreeInterp(
        ['nearest', 'linear'][s['v'] % 2], ne))
    return [m(data(d, ne), octree, d, q)]
  if op == 'upsample':
    m = module(cache, (op, s['v'], ne), lambda: nn.OctreeUpsample(
        ['nearest', 'linear'][s['v'] % 2], ne))
    return [m(data(d, ne), octree, d, r.depth if s['v'] > 1 else None)
            if not (s['v'] <= 1 and d == r.depth) else data(d, ne)]
  if op == 'align':
    return [nn.octree_align(data(d, ne), octree, octree, d, ne)]
  if op in ('gnorm', 'inorm'):
    m = module(cache, (op, c, ne), lambda: nn.OctreeGroupNorm(2 * c, 2, ne)
               if op == 'gnorm' else nn.OctreeInstanceNorm(2 * c, ne))
    return [m(data(d, ne, 2 * c), octree, d)]
  if op == 'bnorm':
    def make():
      m = nn.OctreeBatchNorm(c)
      return m.eval()
    m = module(cache, (op, c), make)
    return [m(data(d, ne), octree, d) if accepts_octree(m) else m(data(d, ne))]
  if op == 'drop':
    m = module(cache, (op, ne), lambda: nn.OctreeDropPath(0.5, ne))
    torch.manual_seed(salt)
    return [m(data(d, ne), octree, d)]
  if op == 'feature':
    return [octree.get_input_feature(['N', 'ND', 'LP', 'NDLPF'][s['v']], ne)]
  if op == 'query':
    return [octree.key(d, ne).clone(), octree.batch_id(d, ne).clone()] + [
        t.clone() for t in octree.xyzb(d, ne)] + [octree.nempty_mask(d).clone()]
  if op == 'neigh':
    return [octree.get_neigh(d, k, stride, ne).clone()]
  if op == 'search':
    q = points4(s, r, d)
    ins.append((q, q.clone()))
    return [octree.search_xyzb(q, d, ne)]
  if op == 'to_points':
    p = octree.to_points(direct)
    return [p.points, p.normals, p.features, p.batch_id]
  if op == 'move':
    o = octree.to('cpu:0')      # a copy: the device differs from 'cpu'
    cmp.same(cmp.snap_octree(octree), cmp.snap_octree(o), 'octree after a move')
    o2 = octree.cpu()
    cmp.same(cmp.snap_octree(octree), cmp.snap_octree(o2), 'octree after cpu()')
    # the copy is usable
    return [o.get_neigh(d, k, stride, ne).clone(), o.batch_id(d, ne).clone(),
            nn.octree_pad(data(d, True), o, d)]
  if op == 'merge':
    o = ocnn.octree.merge_octrees([octree, octree] if direct else [octree])
    return [o.key(d).clone(), o.children[d].clone(), o.points[r.depth].clone()]
  if op == 'construct':
    octree.construct_all_neigh()
    return [octree.get_neigh(d, k, stride, ne).clone()]
  if op.startswith('m-'):
    return network_module(s, octree, r, cache, data)
  raise ValueError(op)


def network_module(s, octree, r, cache, data):
  M = ocnn.modules
  op, d, ne, k, c, stride, v = s['op'], s['d'], s['ne'], s['k'], s['c'], s['s'], s['v']
  train = s['salt'] % 2 == 1
  rows = [r.num(d, ne)]
  if op == 'm-feature':
    m = module(cache, (op, v, ne), lambda: M.InputFeature(['N', 'ND', 'LP', 'NDLPF'][v], ne))
    return [m(octree)]
  if op == 'm-conv':
    cls = [M.OctreeConvBn, M.OctreeConvBnRelu][v % 2]
    make = lambda: cls(2 * c, 2 * c, ksize(k), stride, ne)
  elif op == 'm-deconv':
    d = d - 1 if stride == 2 else d
    make = lambda: M.OctreeDeconvBnRelu(2 * c, 2 * c, ksize(k), stride, ne)
  elif op == 'm-fc':
    cls = [M.Conv1x1, M.Conv1x1Bn, M.Conv1x1BnRelu, M.FcBnRelu][v]
    make = lambda: cls(2 * c, 4)
  elif op == 'm-res':
    if stride == 2 and (d < 2 or ne and d - 1 < r.full_depth):
      stride = 1                       # as in C27: the pooled layer needs neighbours
    cls = [M.OctreeResBlock, M.OctreeResBlock2][v % 2]
    make = lambda: cls(2 * c, [2 * c, 4][v // 2], stride, 2, ne)
  else:
    blk = [M.OctreeResBlock, M.OctreeResBlock2][v % 2]
    make = lambda: M.OctreeResBlocks(2 * c, [2 * c, 4][v // 2], 2, 2, ne, blk)
  rows += [r.num(l, ne) for l in (d - 1, d, d + 1) if 0 <= l <= r.depth]
  if min(rows) < 2:
    train = False                      # batch statistics need two rows
  m = module(cache, (op, k, stride, ne, c, v, train), make)
  m.train(train)
  x = data(d, ne, 2 * c)
  if op == 'm-fc':
    return [m(x)]
  return [m(x, octree, d)]


def accepts_octree(m):
  return not isinstance(m, torch.nn.BatchNorm1d)


def grads(outs, ins, salt):
  xs = [x for x, _ in ins if isinstance(x, torch.Tensor) and x.requires_grad]
  ys = [o for o in outs if isinstance(o, torch.Tensor) and o.requires_grad]
  if not xs or not ys:
    return []
  y = sum((o * gen.real_data(o.shape, salt, 31)).sum() for o in ys)
  g = torch.autograd.grad(y, xs, allow_unused=True)
  return [v for v in g if v is not None]


def agree(a, b, what):
  """Equal up to the rounding of sums in another order."""
  a, b = cmp.arr(a, what), cmp.arr(b, what)
  cmp.require(a.dtype == b.dtype, '%s: dtype %s, expected %s', what, a.dtype, b.dtype)
  if a.dtype.kind == 'f':
    top = np.abs(np.nan_to_num(b, posinf=0, neginf=0)).max(initial=0)
    cmp.close(a, b, what, 1e-4 * max(1.0, float(top)), 0)
  else:
    cmp.equal(a, b, what)


def check(case):
  r = gen.make_ref(case)
  shared = gen.make_octree(case)
  cache = {}
  start = cmp.snap_octree(shared)
  used = set()
  kept = []
  for i, s in enumerate(case['steps']):
    if s['op'] == 'max_pool' and s['ne'] and s['d'] <= 0:
      continue
    w = 'step %d, %s(depth %d, nempty=%s)' % (i, s['op'], s['d'], s['ne'])
    ins = []
    outs = apply(s, shared, r, cache, ins)
    g = grads(outs, ins, s['salt'])
    cmp.same(start, cmp.snap_octree(shared), w + ': octree')
    for j, (x, c) in enumerate(ins):
      cmp.equal(x, c, w + ': input %d' % j)
    fresh = gen.make_octree(case)
    ins2 = []
    outs2 = apply(s, fresh, r, None, ins2)
    g2 = grads(outs2, ins2, s['salt'])
    cmp.require(len(outs) == len(outs2) and len(g) == len(g2), '%s: other outputs', w)
    for a, b in zip(outs + g, outs2 + g2):
      agree(a, b, w + ': result on the used octree')
    kept.append((w, outs, [o.detach().clone() for o in outs]))
    used.add(s['op'])
  # earlier results are not overwritten by later operations
  for w, outs, copies in kept:
    for a, b in zip(outs, copies):
      cmp.equal(a, b, w + ': result after the history')
  return sorted(used) + (['nt'] if len(used) >= 3 else [])


# ---------------------------------------------------------------------------
# several threads
# ---------------------------------------------------------------------------

THREAD_OPS = [o for o in OPS if o not in ('drop', 'construct')] + ['build', 'build']


@st.composite
def strat_threads(draw):
  trees = []
  for _ in range(draw(st.integers(1, 3))):
    c = draw(gen.octree_case(1, 4, 1, 2, max_batch=3, bulk=60, max_shapes=2))
    c['nsalt'], c['fsalt'] = draw(gen.SALT), draw(gen.SALT)
    trees.append(c)
  threads = []
  for _ in range(draw(st.integers(2, 4))):
    t = draw(st.integers(0, len(trees) - 1))
    steps = [{'op': draw(st.sampled_from(THREAD_OPS)), 'd': draw(st.integers(1, trees[t]['depth'])),
              'ne': draw(st.booleans()), 'k': draw(st.sampled_from(ref.KERNELS)),
              's': draw(st.sampled_from([1, 2])), 'c': draw(st.integers(1, 3)),
              'v': draw(st.integers(0, 3)), 'salt': draw(st.integers(0, 9)),
              'g': draw(st.booleans())} for _ in range(draw(st.integers(1, 6)))]
    threads.append({'tree': t, 'steps': steps})
  return {'trees': trees, 'threads': threads}


def check_threads(case):
  """Threads which work at the same time, each with modules of its own, some of them on the same
  octree, compute what each computes alone."""
  refs = [gen.make_ref(c) for c in case['trees']]

  def one(s, t, octree, cache):
    if s['op'] == 'build':
      o = gen.make_octree(case['trees'][t])
      return [o.key(s['d']), o.children[s['d']], o.get_neigh(s['d']), o.points[o.depth],
              o.normals[o.depth], o.features[o.depth]]
    ins = []
    outs = apply(s, octree, refs[t], cache, ins)
    outs = outs + grads(outs, ins, s['salt'])
    for j, (x, c) in enumerate(ins):
      cmp.equal(x, c, '%s: input %d' % (s['op'], j))
    return outs

  expected = [[one(s, th['tree'], gen.make_octree(case['trees'][th['tree']]), None)
               for s in th['steps']] for th in case['threads']]
  octrees = [gen.make_octree(c) for c in case['trees']]
  start = [cmp.snap_octree(o) for o in octrees]
  got, failures = {}, []
  gate = threading.Barrier(len(case['threads']))

  def work(i, th):
    try:
      cache = {}
      gate.wait(60)
      for k in range(3):                           # the same again: more interleavings
        got[i, k] = [one(s, th['tree'], octrees[th['tree']], cache) for s in th['steps']]
    except BaseException as e:
      failures.append(e)

  interval = sys.getswitchinterval()
  sys.setswitchinterval(1e-5)
  try:
    threads = [threading.Thread(target=work, args=(i, th), daemon=True)
               for i, th in enumerate(case['threads'])]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
  finally:
    sys.setswitchinterval(interval)
  if failures:
    raise failures[0]
  for (i, k), results in sorted(got.items()):
    for s, a, b in zip(case['threads'][i]['steps'], results, expected[i]):
      w = 'thread %d, %s(depth %d, nempty=%s)' % (i, s['op'], s['d'], s['ne'])
      if s['op'].startswith('m-') and k:
        continue                                   # running statistics moved on
      cmp.require(len(a) == len(b), '%s: other outputs', w)
      for x, y in zip(a, b):
        agree(x, y, w + ': result beside other threads')
  for o, s in zip(octrees, start):
    cmp.same(s, cmp.snap_octree(o), 'octree used by several threads')
  ops = sorted({s['op'] for th in case['threads'] for s in th['steps']})
  shared = len({th['tree'] for th in case['threads']}) < len(case['threads'])
  return ops + ['shared' if shared else 'own'] + (['nt'] if len(ops) >= 2 else [])


# ---------------------------------------------------------------------------
# whole networks
# ---------------------------------------------------------------------------

c33 = boot.load_check('C33')


@st.composite
def strat_net(draw):
  case = draw(c33.strat())
  n = draw(st.integers(2, 4))
  case['steps'] = [{'v': draw(st.sampled_from(['same', 'mx', 'mxyz', 'swap'])),
                    'train': case['net'] != 'i2s' and draw(st.booleans()),
                    'grad': draw(st.booleans())} for _ in range(n)]
  return case


def variant(case, v):
  """Another batch of the same size; mirrored clouds give as many nodes in every layer."""
  samples = []
  for s in case['samples']:
    p = gen.expand(s, case['depth'])
    if v in ('mx', 'mxyz'):
      p = p.copy()
      e = (gen.SUB << case['depth']) - 1
      p[:, 0 if v == 'mx' else slice(0, 3)] = np.maximum(
          e - p[:, 0 if v == 'mx' else slice(0, 3)], 0)
    samples.append([{'k': 'pts', 'p': p.tolist()}])
  if v == 'swap':
    samples = samples[::-1]
  return dict(case, samples=samples)


def run_net(m, case, step, i):
  """Outputs, and gradients if requested, of one use of a network."""
  m.train(step['train'])
  m.zero_grad(set_to_none=True)
  x = c33.inputs_of(case)
  torch.manual_seed(i)
  with torch.set_grad_enabled(step['grad']):
    out = c33.outputs(m, case, x)
    if step['grad']:
      sum((o * gen.real_data(tuple(o.shape), case['seed'], j)).sum()
          for j, o in enumerate(out)).backward()
  grads = {k: None if p.grad is None else p.grad.clone() for k, p in m.named_parameters()}
  return [o.detach().clone() for o in out], grads


def check_net(case):
  """What a network computes depends on its state dictionary, not on what it did before."""
  _, m = c33.model_of(case)
  pristine = copy.deepcopy(m)
  used = copy.deepcopy(m)
  diff = False
  for i, step in enumerate(case['steps']):
    c = variant(case, step['v'])
    fresh = copy.deepcopy(pristine)
    fresh.load_state_dict(used.state_dict())
    w = '%s, use %d (%s)' % (case['net'], i, 'training' if step['train'] else 'evaluation')
    try:
      exp = run_net(fresh, c, step, i)
    except ValueError as e:
      if 'more than 1 value per channel' in str(e):
        return ['single-row']
      raise
    got = run_net(used, c, step, i)
    for a, b in zip(got[0], exp[0]):
      agree(a, b, 'output of ' + w)
    for k, g in exp[1].items():
      cmp.require((g is None) == (got[1][k] is None), '%s: gradient of %s', w, k)
      if g is not None:
        agree(got[1][k], g, '%s: gradient of %s' % (w, k))
    for k, v in fresh.state_dict().items():
      agree(used.state_dict()[k], v, '%s: %s afterwards' % (w, k))
    diff = diff or step['v'] != case['steps'][0]['v']
  return [case['net']] + (['nt'] if diff else [])


FACETS = [Facet('history', strat, check, 2500, 40000),
          Facet('threads', strat_threads, check_threads, 300, 5000),
          Facet('networks', strat_net, check_net, 160, 3000, heavy=True)]
FACETS += [large(f, 32, 500) for f in FACETS if f.name == 'history'] + \
    [large(f, 16, 200, 20000) for f in FACETS if f.name == 'networks']
