"""C15: changing the representation of node features never moves a value to another node."""
import numpy as np
import torch
from hypothesis import strategies as st
import ocnn

from vlib import cmp, conv, gen, ref
from vlib.core import Facet, large

PROPERTY = 'C15'
RULE = ('octrees x layer x 1..4 channels x dtype (float32/64, int64, bool for padding) x padding '
        'value; pad, depad and their round trips, conversion to the dense voxel grid for all '
        'and for non-empty nodes, compared with the reference node coordinates; non-trivial: '
        'the layer has empty and non-empty nodes')


@st.composite
def strat(draw):
  case = draw(gen.octree_case(1, 5, 0, 3, max_batch=4, allow_empty=True, bulk=150))
  case['d'] = draw(st.integers(0, case['depth']))
  case['c'] = draw(st.integers(1, 4))
  case['nempty'] = draw(st.booleans())
  case['val'] = draw(st.sampled_from([None, 0.0, -1.5, 7.0, float('inf'), float('-inf')]))
  case['dtype'] = draw(st.sampled_from(['float32', 'float64', 'int64', 'float16']))
  case['salt'] = draw(gen.SALT)
  case['layout'] = draw(st.integers(0, 3))
  case['module'] = draw(st.booleans())
  return case


def check(case):
  octree = gen.make_octree(case, False, False, neigh=False)
  r = gen.make_ref(case)
  d, c = case['d'], case['c']
  lv = r.levels[d]
  dt = getattr(torch, case['dtype'])
  val = case['val']
  if case['dtype'] == 'int64' and val is not None:
    val = 5
  before = cmp.snap_octree(octree)

  x = gen.fine(gen.int_array((lv.nnum_nempty, c), case['salt'], 1, 1, 60), dt)
  data = conv.strided(torch.from_numpy(x).to(dt), case['layout'])
  args = () if val is None else (val,)
  padded = ocnn.nn.octree_pad(data, octree, d, *args)
  cmp.dtype(padded, dt, 'octree_pad')
  cmp.equal(padded, ref.pad(x, lv, 0.0 if val is None else val),
            'octree_pad')
  cmp.equal(ocnn.nn.octree_depad(padded, octree, d), x, 'octree_depad(octree_pad)')
  y = gen.fine(gen.int_array((lv.nnum, c), case['salt'], 2, 1, 60), dt)
  full = conv.strided(torch.from_numpy(y).to(dt), case['layout'])
  cut = ocnn.nn.octree_depad(full, octree, d)
  cmp.dtype(cut, dt, 'octree_depad')
  cmp.equal(cut, y[lv.nempty], 'octree_depad')
  cmp.equal(ocnn.nn.octree_pad(cut, octree, d), np.where(lv.nempty[:, None], y, 0),
            'octree_pad(octree_depad)')

  if d <= 5:
    ne = case['nempty']
    src, v = (data, x) if ne else (full, y)
    vox = ocnn.nn.Octree2Voxel(ne)(src, octree, d) if case['module'] else \
        ocnn.nn.octree2voxel(src, octree, d, ne)
    n = 1 << d
    exp = np.zeros((r.batch, n, n, n, c), dtype=v.dtype)
    q = r.rows(d, ne)
    exp[q[:, 0], q[:, 1], q[:, 2], q[:, 3]] = v
    cmp.dtype(vox, dt, 'octree2voxel')
    cmp.equal(vox, exp, 'octree2voxel(nempty=%s)' % ne)
  cmp.equal(data, x, 'input data')
  cmp.equal(full, y, 'input data')
  cmp.same(before, cmp.snap_octree(octree), 'the octree')
  t = ['d-below-full' if d < case['full'] else 'd-sparse', case['dtype']]
  if 0 < lv.nnum_nempty < lv.nnum:
    t.append('nt')
  return t


FACETS = [Facet('representations', strat, check, 4500, 80000)]
FACETS += [large(f, 64, 1000) for f in FACETS if f.name == 'representations']
