"""Networks under test: deterministic, calibrated, cached per process."""
import copy
import random

import numpy as np
import torch

from . import cmp, gen

_CACHE = {}
_SIZE = [0]
MAX_NUMEL = 10 ** 8      # per process: 800 MB with the pristine copies


def calib_case(depth, full, batch=2):
  """A fixed, rich octree used to calibrate the normalisation layers."""
  return {'depth': depth, 'full': full, 'mode': 'merge', 'channel': 3, 'nsalt': 5, 'fsalt': 6,
          'samples': [[{'k': 'rnd', 'n': 60, 'r': 11 + i},
                       {'k': 'clu', 'c': [1 << (depth - 1)] * 3, 'n': 60, 'w': 3, 'r': 2 + i}]
                      for i in range(batch)]}


def randomize(model, seed):
  """Weights which keep every unit alive; biases and affine parameters are non-trivial."""
  g = torch.Generator().manual_seed(seed)
  with torch.no_grad():
    for m in model.modules():
      if isinstance(m, torch.nn.BatchNorm1d):
        m.weight.copy_(torch.rand(m.weight.shape, generator=g) * 0.6 + 0.7)
        m.bias.copy_(torch.rand(m.bias.shape, generator=g) * 0.6 - 0.2)


def calibrate(model, run):
  """Sets the running statistics from one forward pass."""
  bns = [m for m in model.modules() if isinstance(m, torch.nn.modules.batchnorm._BatchNorm)]
  old = [m.momentum for m in bns]
  for m in bns:
    m.momentum = 1.0
  model.train()
  with torch.no_grad():
    run(model)
  for m, o in zip(bns, old):
    m.momentum = o
  model.eval()


def cached(key, build, run=None):
  """The model of a configuration, in its pristine state (parameters, buffers, eval)."""
  if key not in _CACHE:
    st = torch.get_rng_state(), np.random.get_state(), random.getstate()
    torch.manual_seed(1234)
    m = build()
    randomize(m, 99)
    if run is not None:
      calibrate(m, run)
    m.eval()
    size = sum(v.numel() for v in m.state_dict().values())
    if len(_CACHE) >= 40 or size + _SIZE[0] > MAX_NUMEL:
      _CACHE.clear()
      _SIZE[0] = 0
    _SIZE[0] += size
    _CACHE[key] = (m, copy.deepcopy(m.state_dict()))
    torch.set_rng_state(st[0])
    np.random.set_state(st[1])
    random.setstate(st[2])
  m, state = _CACHE[key]
  with torch.no_grad():
    for k, v in m.state_dict().items():
      v.copy_(state[k])
  m.eval()
  m.zero_grad(set_to_none=True)
  for p in m.parameters():
    p.requires_grad_(True)
  return m


def state_unchanged(model, key, what):
  for k, v in model.state_dict().items():
    cmp.equal(v, _CACHE[key][1][k], '%s: %s after an evaluation' % (what, k))


def near(got, exp, what, tol=2e-3):
  """Comparison relative to the magnitude of the whole output."""
  e = cmp.arr(exp, what).astype(np.float64)
  s = 1.0 + (np.abs(e).max() if e.size else 0.0)
  g = cmp.arr(got, what).astype(np.float64)
  cmp.require(np.isfinite(g).all() or not np.isfinite(e).all(), '%s is not finite', what)
  cmp.close(g / s, e / s, what, tol, 0)


def feature(octree, feat, nempty):
  return octree.get_input_feature(feat, nempty)


WIDTH = {'N': 3, 'D': 1, 'L': 3, 'P': 3, 'F': 3}


def channels(feat):
  return sum(WIDTH[c] for c in feat)
