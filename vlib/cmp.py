"""Comparisons that never fail in any other way than by raising Mismatch."""
import numpy as np
import torch

from .core import Mismatch


def fail(fmt, *args):
  raise Mismatch(fmt % args if args else fmt)


def require(cond, fmt, *args):
  if not cond:
    fail(fmt, *args)


def arr(x, what='value'):
  """numpy view of a tensor/number; Mismatch if it is something else."""
  if isinstance(x, np.ndarray):
    return x
  if isinstance(x, torch.Tensor):
    x = x.detach().cpu()
    return (x.float() if x.dtype == torch.bfloat16 else x).numpy()  # numpy has no bfloat16
  if isinstance(x, (int, float, bool, list, tuple, np.generic)):
    try:
      return np.asarray([arr(v) if isinstance(v, torch.Tensor) else v for v in x]
                        if isinstance(x, (list, tuple)) else x)
    except Exception:
      pass
  fail('%s: expected a tensor, got %s', what, type(x).__name__)


def tensor(x, what='value'):
  require(isinstance(x, torch.Tensor), '%s: expected a tensor, got %s', what,
          type(x).__name__)
  return x


def _diff(a, b, bad, what):
  idx = np.argwhere(bad)
  i = tuple(int(v) for v in idx[0]) if idx.size else ()
  fail('%s: %d of %d entries differ, first at %s: got %r, expected %r', what,
       int(bad.sum()), bad.size, i, a[i].item() if a.size else None,
       b[i].item() if b.size else None)


def shape(x, expected, what='value'):
  got = tuple(int(v) for v in arr(x, what).shape)
  require(got == tuple(int(v) for v in expected), '%s: shape %s, expected %s', what,
          got, tuple(expected))


def equal(got, exp, what='value'):
  """Exact equality of values and shape (NaN equals NaN)."""
  a, b = arr(got, what), arr(exp, what)
  require(tuple(a.shape) == tuple(b.shape), '%s: shape %s, expected %s', what,
          tuple(a.shape), tuple(b.shape))
  if a.size == 0:
    return
  bad = ~((a == b) | ((a != a) & (b != b)))
  if bad.any():
    _diff(a, b, bad, what)


def close(got, exp, what='value', atol=1e-5, rtol=1e-5):
  a = np.asarray(arr(got, what), dtype=np.float64)
  b = np.asarray(arr(exp, what), dtype=np.float64)
  require(tuple(a.shape) == tuple(b.shape), '%s: shape %s, expected %s', what,
          tuple(a.shape), tuple(b.shape))
  if a.size == 0:
    return
  with np.errstate(all='ignore'):
    ok = np.abs(a - b) <= atol + rtol * np.abs(b)
    ok |= (a == b)
    ok |= (a != a) & (b != b)
  if not ok.all():
    _diff(a, b, ~ok, what)


def number(x, exp, what='value'):
  a = arr(x, what)
  require(a.size == 1, '%s: expected one number, got shape %s', what, a.shape)
  v = a.reshape(-1)[0].item()
  require(v == exp, '%s: got %r, expected %r', what, v, exp)


def dtype(x, exp, what='value'):
  tensor(x, what)
  require(x.dtype == exp, '%s: dtype %s, expected %s', what, x.dtype, exp)


def snapshot(obj, depth=0):
  """A deep structural copy (numpy) of an octree / points / tensor / container."""
  if isinstance(obj, torch.Tensor):
    return ('t', str(obj.dtype), tuple(obj.shape), obj.detach().cpu().numpy().copy())
  if isinstance(obj, np.ndarray):
    return ('n', str(obj.dtype), obj.shape, obj.copy())
  if obj is None or isinstance(obj, (int, float, str, bool, torch.device, torch.dtype)):
    return ('v', obj)
  if isinstance(obj, (list, tuple)):
    return ('l', [snapshot(o, depth + 1) for o in obj])
  if isinstance(obj, dict):
    return ('d', {k: snapshot(v, depth + 1) for k, v in obj.items()})
  if hasattr(obj, '__dict__'):
    return ('d', {k: snapshot(v, depth + 1) for k, v in vars(obj).items()})
  return ('v', repr(obj))


OCTREE_ATTRS = ('depth', 'full_depth', 'batch_size', 'keys', 'children', 'neighs',
                'features', 'normals', 'points', 'nnum', 'nnum_nempty', 'batch_nnum',
                'batch_nnum_nempty')
POINTS_ATTRS = ('points', 'normals', 'features', 'labels', 'batch_id', 'batch_size',
                'batch_npt')


def snap_octree(o):
  return ('d', {a: snapshot(getattr(o, a)) for a in OCTREE_ATTRS})


def snap_points(p):
  return ('d', {a: snapshot(getattr(p, a)) for a in POINTS_ATTRS})


def same(a, b, what):
  """Compares two snapshots."""
  require(a[0] == b[0], '%s changed its kind', what)
  if a[0] in 'tn':
    require(a[1] == b[1] and a[2] == b[2], '%s changed from %s %s to %s %s', what, a[1],
            a[2], b[1], b[2])
    if a[3].size:
      bad = ~((a[3] == b[3]) | ((a[3] != a[3]) & (b[3] != b[3])))
      if bad.any():
        _diff(b[3], a[3], bad, what + ' was modified')
  elif a[0] == 'l':
    require(len(a[1]) == len(b[1]), '%s changed its length', what)
    for i, (x, y) in enumerate(zip(a[1], b[1])):
      same(x, y, '%s[%d]' % (what, i))
  elif a[0] == 'd':
    require(set(a[1]) == set(b[1]), '%s changed its fields', what)
    for k in a[1]:
      same(a[1][k], b[1][k], '%s.%s' % (what, k))
  else:
    require(a[1] == b[1], '%s changed from %r to %r', what, a[1], b[1])
