"""C21: slicing, clipping, merging, saving and moving point clouds keep all attributes of
each point together."""
import os
import shutil
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st
from ocnn.octree import Points, merge_points

from vlib import cmp, gen
from vlib.core import Facet, large

PROPERTY = 'C21'
RULE = ('histories of merge / slice (mask or index) / clip / move / split over 1..5 clouds with '
        'any subset of attributes; every point carries a unique tag in each attribute, so the '
        'model is a list of tags; saving and loading as npz and xyz; non-trivial: several '
        'clouds merged and afterwards sliced or clipped')
ASSUMPTIONS = ['clipping bounds are not approached closer than float32 resolution']


@st.composite
def strat(draw):
  k = draw(st.integers(1, 5))
  npts = [draw(st.sampled_from([0, 1, 1, 2, 3, 5, 8, 12])) for _ in range(k)]
  if gen.LARGE:
    npts = draw(st.sampled_from([npts * 60 + [2], [1, 0, 2] * 120, [n * 5000 + 7 for n in npts], npts + [70000]]))
  return {'npts': npts, 'salt': draw(gen.SALT),
          'has': [draw(st.booleans()) for _ in range(3)], 'flat': draw(st.booleans()),
          'update': draw(st.integers(0, 4)) != 0,
          'ops': draw(st.lists(st.tuples(
              st.sampled_from(['mask', 'index', 'clip', 'clip', 'to', 'inbox']),
              st.integers(0, 1000)).map(list), max_size=5))}


def cloud(case, i, start, n):
  """Points with multiples of 1/64; every attribute encodes the global index."""
  t = np.arange(start, start + n)
  p = gen.int_array((n, 3), case['salt'], 10 + i, -66, 66) / 64.0
  lab = torch.from_numpy(t * 3).float()
  a = [torch.from_numpy(p).float(),
       torch.from_numpy(np.stack([t, t + 0.5, -t], 1)).float() if case['has'][0] else None,
       torch.from_numpy(np.stack([t * 2.0, t + 7], 1)).float() if case['has'][1] else None,
       (lab if case['flat'] else lab[:, None]) if case['has'][2] else None]
  return p, Points(*a)


def expect(pts, P, T, B, case, w):
  cmp.equal(pts.points, P, w + ': points')
  cmp.number(pts.npt, P.shape[0], w + ': npt')
  if case['has'][0]:
    cmp.equal(pts.normals, np.stack([T, T + 0.5, -T], 1), w + ': normals')
  else:
    cmp.require(pts.normals is None, '%s: normals appeared', w)
  if case['has'][1]:
    cmp.equal(pts.features, np.stack([T * 2.0, T + 7.0], 1), w + ': features')
  else:
    cmp.require(pts.features is None, '%s: features appeared', w)
  if case['has'][2]:
    cmp.equal(pts.labels, T[:, None] * 3.0, w + ': labels')
  else:
    cmp.require(pts.labels is None, '%s: labels appeared', w)
  if B is None:
    cmp.require(pts.batch_id is None, '%s: batch_id appeared', w)
  else:
    cmp.equal(pts.batch_id, B[:, None], w + ': batch_id')


def check(case):
  clouds, start, P, B = [], 0, [], []
  for i, n in enumerate(case['npts']):
    p, c = cloud(case, i, start, n)
    clouds.append(c)
    P.append(p)
    B.append(np.full(n, i))
    expect(c, p, np.arange(start, start + n), None, case, 'cloud')
    start += n
  snaps = [cmp.snap_points(c) for c in clouds]
  tags = ['clouds%d' % len(clouds)]
  if case['update']:
    pts = merge_points(clouds)
  else:
    pts = merge_points(clouds, update_batch_info=False)
  P, T = np.concatenate(P), np.arange(start)
  B = np.concatenate(B) if case['update'] else None
  expect(pts, P, T, B, case, 'merge_points')
  if case['update']:
    cmp.number(pts.batch_size, len(clouds), 'batch size of merge_points')
    cmp.equal(pts.batch_npt, np.array(case['npts']), 'batch_npt of merge_points')
  bs = pts.batch_size
  for k, a in case['ops']:
    h = gen.hash_ints(P.shape[0], case['salt'] + a, 3)
    tags.append(k)
    if k == 'mask':
      m = h % 3 != 0
      src = cmp.snap_points(pts)
      new = pts[torch.from_numpy(m)]
      cmp.same(src, cmp.snap_points(pts), 'the sliced cloud')
      pts, P, T, B = new, P[m], T[m], None if B is None else B[m]
    elif k == 'index':
      i = np.argsort(h)[:1 + a % max(P.shape[0], 1)]
      pts = pts[torch.from_numpy(i.copy())]
      P, T, B = P[i], T[i], None if B is None else B[i]
    elif k in ('clip', 'inbox'):
      lo, hi, e = [(-1.0, 1.0, 0.01), (-0.5, 0.75, 0.0), (-1.0, 1.0, 1 / 64),
                   (-1.5, 1.5, 0.01), (-1.0, 1.0, -1 / 64)][a % 5]
      m = ((P > lo + e) & (P < hi - e)).all(1)
      if k == 'clip':
        if a % 5 == 0 and a % 2:
          got = pts.clip()
        else:
          got = pts.clip(lo, hi, e)
        cmp.equal(got, m, 'mask returned by clip')
        P, T, B = P[m], T[m], None if B is None else B[m]
      else:
        if a % 3 == 0:
          got = pts.inbox_mask(torch.full((3,), lo + e), torch.full((3,), hi - e))
        else:
          got = pts.inbox_mask(lo + e, hi - e)
        cmp.equal(got, m, 'inbox_mask')
    else:
      same = pts.to('cpu')
      cmp.require(same is pts, 'moving to the same device returns the same object')
      far = pts.to('meta')
      for name in ('points', 'normals', 'features', 'labels', 'batch_id'):
        u, v = getattr(pts, name), getattr(far, name)
        cmp.require((u is None) == (v is None), 'to(): %s got lost', name)
        if u is not None:
          cmp.require(v.device.type == 'meta' and v.shape == u.shape and v.dtype == u.dtype,
                      'to(): %s was not moved', name)
      cmp.require(far.batch_size == pts.batch_size, 'to(): batch size %s became %s',
                  pts.batch_size, far.batch_size)
      cmp.require(str(far.device) == 'meta', 'to(): device')
      if pts.batch_npt is not None:
        cmp.equal(far.batch_npt, pts.batch_npt, 'to(): batch_npt')
      cmp.require(str(pts.device) == 'cpu' and pts.points.device.type == 'cpu',
                  'to() changed the source')
    expect(pts, P, T, B, case, 'after ' + k)
    cmp.require(pts.batch_size == bs, 'batch size changed by %s', k)
    if P.shape[0] == 0:
      break
  for c, s in zip(clouds, snaps):
    cmp.same(s, cmp.snap_points(c), 'a cloud that was merged')
  if len(clouds) > 1 and case['ops'] and case['update']:
    tags.append('nt')
  return tags


@st.composite
def strat_save(draw):
  return {'n': draw(gen.many(1, 15)), 'salt': draw(gen.SALT),
          'has': [draw(st.booleans()) for _ in range(4)],
          'info': draw(st.sampled_from(['PNFL', 'P', 'PNFLB', 'LP', 'pnf', 'BP', 'FNP', None])),
          'batch': draw(st.booleans()), 'flat': draw(st.booleans())}


def check_save(case):
  n = case['n']
  p = gen.int_array((n, 3), case['salt'], 1, -500, 500) / 64.0
  a = {'points': p, 'normals': gen.int_array((n, 3), case['salt'], 2) / 4.0,
       'features': gen.int_array((n, 2), case['salt'], 3) * 1.0,
       'labels': gen.int_array((n, 1), case['salt'], 4) * 1.0,
       'batch_id': np.arange(n)[:, None] % 3}
  h = dict(zip(('normals', 'features', 'labels', 'batch_id'), case['has']), points=True)
  t = {k: torch.from_numpy(v).float() if h[k] else None for k, v in a.items()}
  for k in ('labels', 'batch_id'):
    if case['flat'] and h[k]:
      t[k] = t[k][:, 0]
  pts = Points(t['points'], t['normals'], t['features'], t['labels'], t['batch_id'])
  names = {'P': 'points', 'N': 'normals', 'F': 'features', 'L': 'labels', 'B': 'batch_id'}
  info = case['info'] or 'PNFL'
  sel = [names[c] for c in info.upper() if h[names[c]]]
  tmp = tempfile.mkdtemp(prefix='verif-save-')
  try:
    args = () if case['info'] is None else (info,)
    f = os.path.join(tmp, 'a.npz')
    pts.save(f, *args)
    raw = np.load(f)
    cmp.require(sorted(raw.keys()) == sorted(sel), 'saved %s, expected %s', sorted(raw.keys()),
                sorted(sel))
    for k in sel:
      cmp.equal(raw[k], a[k].astype(np.float32), 'saved ' + k)
    if sel:
      f = os.path.join(tmp, 'a.xyz')
      pts.save(f, *args)
      got = np.loadtxt(f, ndmin=2)
      cmp.close(got, np.concatenate([a[k] for k in sel], 1), 'the text file', 1e-6, 0)
    try:
      pts.save(os.path.join(tmp, 'a.foo'))
    except ValueError:
      pass
    else:
      cmp.fail('an unknown file type was accepted')
    cmp.require(not os.path.exists(os.path.join(tmp, 'a.foo')), 'an unknown file was written')
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  for k in t:
    if t[k] is not None:
      cmp.equal(getattr(pts, k), a[k].astype(np.float32), k + ' after saving')
  return ['nt'] if len(sel) > 1 else []


FACETS = [
    Facet('history', strat, check, 5000, 100000, examples=[
        {'npts': [2, 3], 'salt': 1, 'has': [True] * 3, 'flat': True, 'update': True,
         'ops': [['to', 0]]}]),
    Facet('save', strat_save, check_save, 600, 10000),
]
FACETS += [large(f, 48, 800) for f in FACETS if f.name in ('history', 'save')]
