"""C22: the data transform yields octree and points of one augmentation from the declared
family."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.dataset import Transform
from ocnn.octree import Octree

from vlib import cmp, gen, oct, ref
from vlib.core import Facet, large

PROPERTY = 'C22'
RULE = ('transform configurations (angles/intervals as ints or floats, scale, uniform or not, '
        'jitter, flip probabilities, orientation, depth, full_depth, distort on/off) x clouds '
        'with inliers and outliers x seeds; the affine map actually applied is recovered from '
        'the output and must belong to the declared family, the mask, the normals and the '
        'octree must be those of that same map; non-trivial: distortion is enabled with '
        'rotation or flip')
ASSUMPTIONS = ['points closer than 1e-5 to the clipping box are not judged']


@st.composite
def strat(draw):
  inter = [draw(st.sampled_from([1, 30, 45.0, 90, 60.0, 22.5])) for _ in range(3)]
  steps = [draw(st.integers(0, 2)) for _ in range(3)]
  extra = [draw(st.sampled_from([0, 0, 0.3, 0.6, 0.8])) for _ in range(3)]
  return {'interval': inter, 'steps': steps,
          'angle': [i * s + f * i for i, s, f in zip(inter, steps, extra)],
          'scale': draw(st.sampled_from([0.0, 0.1, 0.25, 0.5])),
          'uniform': draw(st.booleans()), 'jitter': draw(st.sampled_from([0.0, 0.05, 0.125])),
          'flip': [draw(st.sampled_from([0.0, 0.5, 1.0])) for _ in range(3)],
          'orient': draw(st.sampled_from(['', '', 'x', 'z', 'xyz'])),
          'distort': draw(st.integers(0, 4)) != 0,
          'depth': draw(st.integers(1, 6)), 'full': draw(st.integers(0, 2)),
          'n': draw(gen.many(8, 40)), 'salt': draw(gen.SALT),
          'seed': draw(st.integers(0, 10 ** 6)), 'far': draw(st.integers(0, 5))}


def make(case):
  n = case['n']
  p = gen.int_array((n, 3), case['salt'], 1, -32, 32) / 128.0
  p[:4] = [[0.25, 0, 0], [0, 0.25, 0], [0, 0, 0.25], [0, 0, 0]]
  far = gen.int_array((case['far'], 3), case['salt'], 2, -192, 192) / 128.0
  p = np.concatenate([p, far]).astype(np.float32)
  nrm = gen.int_array(p.shape, case['salt'], 3, -5, 5) + 0.25
  nrm = (nrm / np.linalg.norm(nrm, axis=1, keepdims=True)).astype(np.float32)
  return p, nrm


def transform(case):
  return Transform(case['depth'], min(case['full'], case['depth']), case['distort'],
                   list(case['angle']), list(case['interval']), case['scale'],
                   case['uniform'], case['jitter'], list(case['flip']), case['orient'],
                   unknown_flag=1)


def rotations(case):
  """All declared rotations composed with all possible flips."""
  from math import cos, sin, radians
  fl = [[0] if f == 0 else [1] if f == 1 else [0, 1] for f in case['flip']]
  out = []
  ang = [[k * i for k in range(-s, s + 1)] for i, s in zip(case['interval'], case['steps'])]
  for f in itertools.product(*fl):
    F = np.diag([1.0 - 2 * v for v in f])
    for a in itertools.product(*ang):
      c, s = [cos(radians(v)) for v in a], [sin(radians(v)) for v in a]
      rx = np.array([[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]])
      ry = np.array([[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]])
      rz = np.array([[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]])
      out.append(rz @ ry @ rx @ F)
  return np.array(out)


def recover(p, q):
  """The affine map of the first four points."""
  b = q[3]
  A = np.stack([(q[i] - b) / 0.25 for i in range(3)], 1)
  return A, b


def check(case):
  p, nrm = make(case)
  t = transform(case)
  torch.manual_seed(case['seed'])
  sample = {'points': p.copy(), 'normals': nrm.copy(), 'label': 3, 'name': 'x'}
  out = t(sample, 0)
  for k in ('points', 'octree', 'inbox_mask', 'label', 'name'):
    cmp.require(k in out, 'the transformed sample has no %r', k)
  cmp.require(out['label'] == 3 and out['name'] == 'x', 'other entries were changed')
  mask = cmp.arr(out['inbox_mask'])
  cmp.shape(mask, (p.shape[0],), 'inbox_mask')
  q = cmp.arr(out['points'].points).astype(np.float64)
  m = cmp.arr(out['points'].normals).astype(np.float64)
  cmp.shape(q, (int(mask.sum()), 3), 'points within the box')
  tags = ['distort' if case['distort'] else 'plain']
  cmp.require(mask[:case['n']].all(), 'an inner point was clipped')
  A, b = np.eye(3), np.zeros(3)
  if case['distort']:
    A, b = recover(p, q)
    s = np.linalg.norm(A, axis=1)
    lim = case['scale'] + 1e-4
    cmp.require((np.abs(s - 1) <= lim).all(), 'scale factors %s outside of 1 +- %g', s,
                case['scale'])
    if case['uniform']:
      cmp.require(np.ptp(s) < 1e-4, 'uniform scaling has factors %s', s)
    d = b / s
    cmp.require((np.abs(d) <= case['jitter'] + 1e-5).all(), 'displacement %s exceeds %g', d,
                case['jitter'])
    R = A / s[:, None]
    fam = rotations(case)
    dist = np.abs(fam - R).max((1, 2)).min()
    cmp.require(dist < 1e-3, 'rotation and flip %s do not belong to the declared family',
                np.round(R, 4).tolist())
    if len(fam) > 1:
      tags.append('nt')
  full = p.astype(np.float64) @ A.T + b
  e = 5e-5
  sure_in = (np.abs(full) < 0.99 - e).all(1)
  sure_out = (np.abs(full) > 0.99 + e).any(1)
  cmp.require(mask[sure_in].all() and not mask[sure_out].any(),
              'inbox_mask differs from the points inside of the box')
  cmp.close(q, full[mask], 'transformed points', e, 0)
  # normals: transformed with the inverse transpose (up to flips which map to themselves)
  en = nrm.astype(np.float64)
  if case['distort']:
    s = np.linalg.norm(A, axis=1)
    en = en @ (A / (s ** 2)[:, None]).T
    en /= np.linalg.norm(en, axis=1, keepdims=True)
  en = en[mask]
  free = np.zeros(en.shape[0], bool)
  if case['orient'] == 'xyz':
    en = np.abs(en)
  elif case['orient']:
    i = 'xyz'.index(case['orient'])
    free = np.abs(en[:, i]) < 1e-3
    en = en * np.where(en[:, i] > 0, 1.0, -1.0)[:, None]
  cmp.close(m[~free], en[~free], 'transformed normals', 1e-3, 0)
  # the octree is built from exactly these points
  o = out['octree']
  cmp.require(isinstance(o, Octree), 'octree is a %s', type(o).__name__)
  cmp.require(o.depth == case['depth'] and o.full_depth == min(case['full'], case['depth']),
              'depth of the octree')
  g = 2.0 ** (case['depth'] - 1)
  cells = np.floor((cmp.arr(out['points'].points) + np.float32(1)) * np.float32(g)).astype(int)
  rr = ref.RefOctree.from_cells(np.concatenate([np.zeros((cells.shape[0], 1), int), cells], 1),
                                case['depth'], min(case['full'], case['depth']), 1)
  oct.check_structure(o, rr)
  return tags


@st.composite
def strat_dist(draw):
  c = draw(strat())
  c.update(distort=True, orient='', far=0)
  return c


def check_dist(case):
  """Over many draws every parameter takes its whole range, with the right frequencies."""
  t = transform(case)
  torch.manual_seed(case['seed'])
  n = 240
  p, nrm = make(dict(case, far=0))
  flips, rots, scales, jits = [], [], [], []
  fam = rotations(case)
  for i in range(n):
    o = t.transform(t.preprocess({'points': p.copy(), 'normals': nrm.copy()}, 0), 0)
    A, b = recover(p, cmp.arr(o['points'].points).astype(np.float64))
    s = np.linalg.norm(A, axis=1)
    R = A / s[:, None]
    dist = np.abs(fam - R).max((1, 2))
    cmp.require(dist.min() < 1e-3, 'an augmentation outside of the declared family')
    rots.append(int(dist.argmin()))
    flips.append(np.linalg.det(R) < 0)
    scales.append(s)
    jits.append(b / s)
  scales, jits = np.array(scales), np.array(jits)
  # the parity of the flips
  pe = 0.0
  for f in case['flip']:
    pe = pe * (1 - f) + (1 - pe) * f
  k = int(np.sum(flips))
  sd = np.sqrt(n * pe * (1 - pe))
  cmp.require(abs(k - n * pe) <= 6 * sd + 1e-9, '%d of %d augmentations are reflections, '
              'expected %g', k, n, n * pe)
  if len(fam) == 2:
    cmp.require(len(set(rots)) == 2, 'an augmentation never occurs')
  elif len(fam) > 2:
    cmp.require(len(set(rots)) > 1, 'the rotation never changes')
  for v, r, c, name in ((scales, case['scale'], 1.0, 'scale factor'),
                        (jits, case['jitter'], 0.0, 'displacement')):
    if r > 0:
      u = (v - c) / r
      cmp.require((np.abs(u) <= 1 + 1e-2).all(), '%s out of range', name)
      # uniform on [-1, 1]: mean 0 (sd 0.577/sqrt(n)), and both halves reached
      cmp.require((np.abs(u.mean(0)) < 6 * 0.578 / np.sqrt(n)).all(), 'mean %s %s', name,
                  u.mean(0))
      cmp.require((u.max(0) > 0.85).all() and (u.min(0) < -0.85).all(),
                  'the %s does not reach its range', name)
  # axes are independent unless uniform
  if case['scale'] > 0 and not case['uniform']:
    cmp.require((np.abs(scales[:, 0] - scales[:, 1]) > 1e-3).any() and
                (np.abs(scales[:, 1] - scales[:, 2]) > 1e-3).any(), 'scale factors coincide')
  if case['jitter'] > 0:
    cmp.require((np.abs(jits[:, 0] - jits[:, 1]) > 1e-4).any() and
                (np.abs(jits[:, 1] - jits[:, 2]) > 1e-4).any(), 'displacements coincide')
  return ['nt']


EX = {'interval': [1, 45.0, 30], 'steps': [0, 2, 1], 'angle': [0, 90.0, 30], 'scale': 0.25,
      'uniform': False, 'jitter': 0.125, 'flip': [0.5, 0.0, 1.0], 'orient': '', 'distort': True,
      'depth': 4, 'full': 2, 'n': 12, 'salt': 7, 'seed': 11, 'far': 3}
FACETS = [
    # the example: float angles raised TypeError (repaired)
    Facet('family', strat, check, 4000, 80000, examples=[EX]),
    Facet('distribution', strat_dist, check_dist, 300, 3000),
]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'family']
