"""Independent reference models, written from the documentation of the data structure.

Nothing here imports the code under test.  Coordinates are integers; nodes are kept in
plain (batch, x, y, z) form, ordering and lookups use python/numpy integers.
"""
import numpy as np

KERNELS = ['333', '222', '311', '131', '113', '331', '313', '133']


def morton(x, y, z, depth):
  """Bit-interleaved key: bit i of x, y, z goes to bit 3i+2, 3i+1, 3i."""
  x, y, z = (np.asarray(v, dtype=np.int64) for v in (x, y, z))
  key = np.zeros(np.broadcast(x, y, z).shape, dtype=np.int64)
  for i in range(depth):
    key |= ((x >> i) & 1) << (3 * i + 2)
    key |= ((y >> i) & 1) << (3 * i + 1)
    key |= ((z >> i) & 1) << (3 * i)
  return key


def demorton(key, depth):
  key = np.asarray(key, dtype=np.int64)
  x, y, z = np.zeros_like(key), np.zeros_like(key), np.zeros_like(key)
  for i in range(depth):
    x |= ((key >> (3 * i + 2)) & 1) << i
    y |= ((key >> (3 * i + 1)) & 1) << i
    z |= ((key >> (3 * i)) & 1) << i
  return x, y, z


def full_keys(b, x, y, z, depth):
  return (np.asarray(b, dtype=np.int64) << 48) | morton(x, y, z, depth)


def kernel_offsets(kernel):
  """Offsets of a kernel in the order of its weights (x slowest, z fastest)."""
  rng = {'3': (-1, 0, 1), '2': (0, 1), '1': (0,)}
  return np.array([(i, j, k) for i in rng[kernel[0]] for j in rng[kernel[1]]
                   for k in rng[kernel[2]]], dtype=np.int64)


class Level:
  """One octree layer: nodes in order, non-empty flags, child pointers."""

  def __init__(self, depth, nodes, nempty):
    self.depth = depth
    self.nodes = nodes                  # (N, 4) int64: b, x, y, z
    self.nempty = nempty                # (N,) bool
    self.nnum = nodes.shape[0]
    self.nnum_nempty = int(nempty.sum())
    self.children = np.where(nempty, np.cumsum(nempty) - 1, -1).astype(np.int64)
    s = 1 << depth
    self._lin = self.lin(nodes)
    self._order = np.argsort(self._lin, kind='stable')
    self._sorted = self._lin[self._order]

  def lin(self, q):
    q = np.asarray(q, dtype=np.int64)
    d = self.depth
    return (((q[..., 0] << d | q[..., 1]) << d | q[..., 2]) << d) | q[..., 3]

  def index(self, q, nempty=False):
    """Row of each (b, x, y, z) in this layer, -1 if there is no such node."""
    q = np.asarray(q, dtype=np.int64)
    if self.nnum == 0:
      return np.full(q.shape[:-1], -1, dtype=np.int64)
    s = 1 << self.depth
    ok = ((q[..., 1:] >= 0) & (q[..., 1:] < s)).all(-1) & (q[..., 0] >= 0)
    lin = self.lin(np.where(ok[..., None], q, 0))
    pos = np.searchsorted(self._sorted, lin)
    pos = np.minimum(pos, self.nnum - 1)
    ok &= self._sorted[pos] == lin
    idx = np.where(ok, self._order[pos], -1)
    if nempty:
      idx = np.where(idx >= 0, self.children[np.maximum(idx, 0)], -1)
    return idx

  @property
  def keys(self):
    n = self.nodes
    return full_keys(n[:, 0], n[:, 1], n[:, 2], n[:, 3], self.depth)


def sort_nodes(nodes, depth):
  if nodes.shape[0] == 0:
    return nodes
  order = np.lexsort((morton(nodes[:, 1], nodes[:, 2], nodes[:, 3], depth), nodes[:, 0]))
  return nodes[order]


def all_nodes(depth, batch):
  s = 1 << depth
  g = np.stack(np.meshgrid(np.arange(s), np.arange(s), np.arange(s), indexing='ij'),
               -1).reshape(-1, 3)
  out = np.concatenate([np.concatenate([np.full((g.shape[0], 1), b), g], 1)
                        for b in range(batch)], 0).astype(np.int64)
  return sort_nodes(out, depth)


def children_of(nodes, depth):
  """The 8 children of each node, nodes given in order -> children in order."""
  off = np.array([(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)])
  b = np.repeat(nodes[:, 0], 8)
  xyz = (nodes[:, None, 1:] * 2 + off).reshape(-1, 3)
  return np.concatenate([b[:, None], xyz], 1).astype(np.int64)


class RefOctree:
  """The octree a set of leaf cells must produce."""

  def __init__(self, depth, full_depth, batch):
    self.depth, self.full_depth, self.batch = depth, full_depth, batch
    self.levels = [None] * (depth + 1)

  @classmethod
  def from_cells(cls, cells, depth, full_depth, batch):
    """cells: (N, 4) occupied leaf cells (b, x, y, z), duplicates allowed."""
    self = cls(depth, full_depth, batch)
    cells = np.asarray(cells, dtype=np.int64).reshape(-1, 4)
    occ = {}
    c = np.unique(cells, axis=0) if cells.shape[0] else cells
    for d in range(depth, -1, -1):
      occ[d] = c
      c = c.copy()
      c[:, 1:] >>= 1
      c = np.unique(c, axis=0) if c.shape[0] else c
    for d in range(depth + 1):
      if d <= full_depth:
        nodes = all_nodes(d, batch)
      else:
        up = self.levels[d - 1]
        nodes = children_of(up.nodes[up.nempty], d)
      if d < full_depth:
        ne = np.ones(nodes.shape[0], dtype=bool)
      else:
        lv = Level(d, nodes, np.zeros(nodes.shape[0], dtype=bool))
        idx = lv.index(occ[d])
        assert (idx >= 0).all()
        ne = np.zeros(nodes.shape[0], dtype=bool)
        ne[idx] = True
      self.levels[d] = Level(d, nodes, ne)
    return self

  @classmethod
  def from_splits(cls, splits, depth, full_depth, batch):
    """splits: {d: bool array over the nodes of layer d}, for d >= full_depth."""
    self = cls(depth, full_depth, batch)
    for d in range(depth + 1):
      if d <= full_depth:
        nodes = all_nodes(d, batch)
      else:
        up = self.levels[d - 1]
        if up is None:
          break
        nodes = children_of(up.nodes[up.nempty], d)
      ne = np.ones(nodes.shape[0], dtype=bool)
      if d in splits:
        s = splits[d]
        ne = np.asarray(s(nodes) if callable(s) else s, dtype=bool)
        if not ne.any():
          ne = ne.copy()
          ne[0] = True
      self.levels[d] = Level(d, nodes, ne)
    return self

  def num(self, d, nempty=False):
    lv = self.levels[d]
    return lv.nnum_nempty if nempty else lv.nnum

  def neigh(self, d, kernel='333', stride=1, nempty=False):
    lv = self.levels[d]
    nodes = lv.nodes
    if stride == 2:
      nodes = nodes[::8]
    elif nempty:
      nodes = nodes[lv.nempty]
    off = kernel_offsets(kernel)
    q = np.concatenate([
        np.broadcast_to(nodes[:, None, :1], (nodes.shape[0], off.shape[0], 1)),
        nodes[:, None, 1:] + off], -1)
    return lv.index(q, nempty)

  def batch_id(self, d, nempty=False):
    lv = self.levels[d]
    return lv.nodes[lv.nempty, 0] if nempty else lv.nodes[:, 0]

  def rows(self, d, nempty=False):
    lv = self.levels[d]
    return lv.nodes[lv.nempty] if nempty else lv.nodes


def gather(data, idx):
  """data[idx] with zeros where idx is -1."""
  out = np.zeros(idx.shape + data.shape[1:], dtype=data.dtype)
  m = idx >= 0
  out[m] = data[idx[m]]
  return out


def pad(data, level, val=0.0):
  out = np.full((level.nnum,) + data.shape[1:], val, dtype=data.dtype)
  out[level.nempty] = data
  return out
