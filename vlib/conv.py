"""Reference convolutions on the reference octree: explicit sums over neighbours."""
import numpy as np
import torch
from hypothesis import strategies as st

from . import cmp, gen, ref

KS = {'333': [[3], [3, 3, 3], [3, 3]], '222': [[2], [2, 2, 2]], '311': [[3, 1, 1], [3, 1]],
      '131': [[1, 3, 1]], '113': [[1, 1, 3], [1, 1, 3]], '331': [[3, 3, 1]],
      '313': [[3, 1, 3]], '133': [[1, 3, 3], [1, 3]]}


@st.composite
def conv_case(draw, deconv=False, max_depth=4, max_c=5, max_batch=3, bulk=60):
  case = draw(gen.octree_case(1, max_depth, 1, 2, max_batch=max_batch, allow_empty=True,
                              bulk=bulk, max_shapes=2, deep=16 if max_depth >= 4 else 0))
  case['kernel'] = draw(st.sampled_from(ref.KERNELS))
  case['ksize'] = draw(st.sampled_from(KS[case['kernel']]))
  case['stride'] = draw(st.sampled_from([1, 2]))
  case['nempty'] = draw(st.booleans())
  case['cin'], case['cout'] = draw(st.integers(1, max_c)), draw(st.integers(1, max_c))
  case['salt'] = draw(gen.SALT)
  case['buf'] = draw(st.integers(0, 8))
  case['bias'], case['double'] = draw(st.booleans()), draw(st.booleans())
  case['layout'] = draw(st.integers(0, 3))
  case['low'] = draw(st.sampled_from(['', '', '', '', 'float16', 'bfloat16']))
  case['mag'] = 0 if case['bias'] or case['low'] else draw(gen.MAG)
  # layers the operator can be applied to
  lo = 1
  hi = case['depth']
  if deconv:
    if case['stride'] == 2 and case['depth'] < 2 and draw(st.booleans()):
      case['stride'] = 1
    if case['stride'] == 2:
      lo, hi = 0, case['depth'] - 1
  case['d'] = draw(st.integers(lo, hi))
  return case


def dtype_of(case):
  if case.get('low'):
    return getattr(torch, case['low'])
  return torch.float64 if case['double'] else torch.float32


def lim(case, v):
  """Range of the values: sums stay below 256, exact in 16 bits, for the short types."""
  return 1 if case.get('low') else v


def values(case, shape):
  """The input data of an operator."""
  x = gen.int_array(shape, case['salt'], 1, -lim(case, 4), lim(case, 4)).astype(np.float64)
  return x * gen.mag(case)


def max_buffer(b, rows, kdim, cin):
  """max_buffer candidates around the chunk boundaries."""
  kc = kdim * cin
  if b == 0:
    return int(2e8)
  if b == 1:
    return kc
  if b == 2:
    return max(kc * max(rows - 1, 1), 1)
  if b == 3:
    return max(kc - 1, 1)
  if b == 4:
    return kc * max((rows + 1) // 2, 1) + kc // 2
  return kc * b


def conv_forward(r, data, w, d, kernel, stride, nempty, bias=None, padded=True):
  """data (N, Cin), w (K, Cin, Cout) -> output, all float64 integer-valued."""
  nb = r.neigh(d, kernel, stride, nempty)     # stride 2: a row per non-empty parent
  col = ref.gather(data, nb)                        # (M, K, Cin)
  out = np.tensordot(col, w, axes=([1, 2], [0, 1])) if nb.shape[0] else \
      np.zeros((0, w.shape[2]))
  if bias is not None:
    out = out + bias
  if stride == 2 and not nempty and padded:
    out = ref.pad(out, r.levels[d - 1])
  return out


def conv_backward(r, data, w, grad, d, kernel, stride, nempty):
  """Gradients of sum(out * grad) with respect to data, w and bias."""
  if stride == 2 and not nempty:
    grad = grad[r.levels[d - 1].nempty]
  nb = r.neigh(d, kernel, stride, nempty)
  gd = np.zeros_like(data)
  gw = np.zeros_like(w)
  for k in range(nb.shape[1]):
    m = nb[:, k] >= 0
    np.add.at(gd, nb[m, k], grad[m] @ w[k].T)
    gw[k] = data[nb[m, k]].T @ grad[m]
  return gd, gw, grad.sum(0)


def deconv_forward(r, data, w, d, kernel, stride, nempty, bias=None):
  """data (N, Cin) at depth d, w (K, Cout, Cin)."""
  dn = d + 1 if stride == 2 else d
  if stride == 2 and not nempty:
    data = data[r.levels[d].nempty]
  nb = r.neigh(dn, kernel, stride, nempty)
  out = np.zeros((r.num(dn, nempty), w.shape[1]))
  for k in range(nb.shape[1]):
    m = nb[:, k] >= 0
    np.add.at(out, nb[m, k], data[m] @ w[k].T)
  return out if bias is None else out + bias


def deconv_backward(r, data, w, grad, d, kernel, stride, nempty):
  dn = d + 1 if stride == 2 else d
  full = data
  if stride == 2 and not nempty:
    data = data[r.levels[d].nempty]
  nb = r.neigh(dn, kernel, stride, nempty)
  gcol = ref.gather(grad, nb)          # (M, K, Cout)
  gd = np.tensordot(gcol, w, axes=([1, 2], [0, 1])) if nb.shape[0] else \
      np.zeros((0, w.shape[2]))
  gw = np.zeros_like(w)
  for k in range(nb.shape[1]):
    gw[k] = gcol[:, k].T @ data
  if stride == 2 and not nempty:
    gd = ref.pad(gd, r.levels[d])
  assert gd.shape == full.shape
  return gd, gw, grad.sum(0)


def touching(r, d, kernel, stride, nempty):
  """Some row has a neighbour besides itself and some row misses one."""
  nb = r.neigh(d, kernel, stride, nempty)
  return nb.shape[0] > 0 and bool((nb >= 0).sum(1).max() > 1) and bool((nb < 0).any())


def kdim(kernel):
  return int(np.prod([int(c) for c in kernel]))


def weights(case, shape, stream):
  return gen.int_array(shape, case['salt'], stream, -3, 3)


def strided(t, layout):
  """The same values in another memory layout."""
  if layout == 1:              # a slice of the channels of a wider tensor
    w = torch.full((t.shape[0], t.shape[1] + 3), 7.0, dtype=t.dtype)
    w[:, 2:-1] = t
    return w[:, 2:-1]
  if layout == 2:              # a transposed tensor
    return t.t().contiguous().t()
  if layout == 3:              # every second row
    w = torch.full((t.shape[0] * 2, t.shape[1]), -5.0, dtype=t.dtype)
    w[::2] = t
    return w[::2]
  return t


def set_params(module, case, dtype, bias=True):
  """Integer weights for every parameter of a module; returns them as arrays."""
  out = {}
  module.to(dtype)
  with torch.no_grad():
    for i, (name, p) in enumerate(sorted(module.named_parameters())):
      a = gen.int_array(tuple(p.shape), case['salt'], 50 + i, -lim(case, 3), lim(case, 3))
      p.copy_(torch.from_numpy(a))
      out[name] = a.astype(np.float64)
  return out


def check_bias(m, use_bias, channels):
  """A module has one bias per output channel if it was made with one, and none otherwise."""
  n = sum(p.numel() for name, p in m.named_parameters() if name.split('.')[-1] == 'bias')
  cmp.require(n == (channels if use_bias else 0), '%s made with use_bias=%s for %d channels has '
              '%d bias values', type(m).__name__, use_bias, channels, n)
