From ed6c8a6bd3a8575af6023549c7dffb07e00cc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 01/23] fix: make OUNet constructible and runnable

OUNet passed an argument AutoEncoder did not accept, and its encoder called a
method which does not exist.
---
 ocnn/models/autoencoder.py | 9 +++++++--
 ocnn/models/ounet.py       | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..8de708d 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -23,10 +23,13 @@ class AutoEncoder(torch.nn.Module):
     full_depth (int): The full depth of the octree.
     feature (str): The feature type of the input signal. For details of this
         argument, please refer to :class:`ocnn.modules.InputFeature`.
+    code_channel (int): The channel of the shape code. If it is not positive,
+        the channel of the encoder output is used.
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,8 +37,10 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
+    if code_channel <= 0:
+      code_channel = self.channels[full_depth]
+    self.code_channel = code_channel  # dim-of-code = code_channel * 2**(3*full_depth)
 
     # encoder
     self.conv1 = ocnn.modules.OctreeConvBnRelu(
diff --git a/ocnn/models/ounet.py b/ocnn/models/ounet.py
index 0dd81aa..e8bcdd6 100644
--- a/ocnn/models/ounet.py
+++ b/ocnn/models/ounet.py
@@ -28,7 +28,8 @@ class OUNet(AutoEncoder):
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = self.get_input_feature(octree)
+    data = octree.get_input_feature(self.feature, nempty=False)
+    assert data.size(1) == self.channel_in
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0


From 9bbab0bf42face87b93f351d45834d142420f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 02/23] fix: OctreeResBlock2 with stride 2 raised
 AttributeError

The pooling layer takes `nempty`, not the (nonexistent) depth of the module.
---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 3c57e58ef4908a4f58c94dc0d7f2eb37b6af4aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 03/23] fix: Points rejected 1-D batch_id, so Octree.to_points
 always failed

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..ff54be8 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From 1787fd171a87a598967a48f6da7d390cb294f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 04/23] fix: Points.flip and orient_normal modified the
 caller's tensors

The tensors may share the memory of arrays cached by a dataset, which were
then flipped again and again in later epochs.
---
 ocnn/octree/points.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ff54be8..7a0f4f4 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
@@ -151,9 +151,11 @@ class Points:
     axis_map = {'x': 0, 'y': 1, 'z': 2}
     for x in axis:
       idx = axis_map[x]
-      self.points[:, idx] *= -1.0
+      sign = torch.ones(3, device=self.device)
+      sign[idx] = -1.0
+      self.points = self.points * sign.to(self.points.dtype)
       if self.normals is not None:
-        self.normals[:, idx] *= -1.0
+        self.normals = self.normals * sign.to(self.normals.dtype)
 
   def clip(self, min: float = -1.0, max: float = 1.0, esp: float = 0.01):
     r''' Clips the point cloud to :obj:`[min+esp, max-esp]` and returns the mask.
-- 
2.43.0


From 685643b7bcc9b0cdc530e51377785c8657081e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 05/23] fix: OctreeInterp rescaled the caller's query points in
 place

---
 ocnn/nn/octree_interp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..0be2804 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,6 +121,7 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
+      pts = pts.clone()   # avoid modifying the input points
       pts[:, :3] = (pts[:, :3] + 1.0) * scale
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
-- 
2.43.0


From ff8780e2ae03eeb2ba4747f5cf457531d108cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 06/23] fix: pass nempty to the bottleneck of SegNet

---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From bbda1e16de32256ce38aed705a7916cd84fbc2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 07/23] fix: points with coordinate 1.0 were assigned to the
 opposite voxel

The point cloud must be in range [-1, 1], while 1.0 was encoded as 2^depth,
which is wrapped to 0 by the shuffled key.
---
 ocnn/octree/octree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6801adb..353c91a 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -161,8 +161,10 @@ class Octree:
     scale = 2 ** (self.depth - 1)
     points = (point_cloud.points + 1.0) * scale
 
-    # get the shuffled key and sort
-    x, y, z = points[:, 0], points[:, 1], points[:, 2]
+    # get the shuffled key and sort, the points on the upper boundary, i.e. 1.0,
+    # belong to the last voxel
+    xyz = points.clamp(min=0, max=2 ** self.depth - 1)
+    x, y, z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
     b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1)
     key = xyz2key(x, y, z, b, self.depth)
     node_key, idx, counts = torch.unique(
-- 
2.43.0


From b0841f26dfa8720f76b76fbb3eeeb17014a08ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 08/23] fix: xyz2key did not accept the documented int batch
 index

---
 ocnn/octree/shuffled_key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..ee2ac57 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,7 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    b = b.long() if isinstance(b, torch.Tensor) else int(b)
     key = b << 48 | key
 
   return key
-- 
2.43.0


From 4f8346cf7d9929c32d450fdae27ad01d6fe992f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 09/23] fix: search_value only supported float32 values

---
 ocnn/nn/octree_align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..5e7ad8b 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(query.shape[0], value.shape[1], dtype=value.dtype,
+                    device=value.device)
   out[found] = value[idx[found]]
   return out
 
-- 
2.43.0


From 442eabdf46cac3f5f5ab6803a34ec4e75db42f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 10/23] fix: octree_avg_pool with stride 2 did not pad its
 output

When nempty is False, the output must cover all octree nodes of depth-1, as in
the max pooling and the convolution.
---
 ocnn/nn/octree_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c4c6f75..f5f472f 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -98,6 +98,8 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
 
   mat = torch.sparse_coo_tensor(indices, val, [N2, N1], device=data.device)
   out = torch.sparse.mm(mat, data)
+  if stride == 2 and not nempty:
+    out = octree_pad(out, octree, depth-1)
   return out
 
 
-- 
2.43.0


From 362819cb71cc4a716209e6d9d815c390c966f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 11/23] fix: Points.to dropped the batch size

---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 7a0f4f4..c649863 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -241,7 +241,8 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device),
+                    batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From 9333a26017ec5266038866eec28269081f894da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 12/23] fix: ZeroDivisionError in OctreeConv when max_buffer is
 smaller than a row

---
 ocnn/nn/octree_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index 88be7ba..877ec97 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -87,7 +87,7 @@ class OctreeConvBase:
     ideal_size = self.buffer_h * self.kdim * self.in_conv
     if ideal_size > self.max_buffer:
       kc = self.kdim * self.in_conv            # make `max_buffer` be divided
-      max_buffer = self.max_buffer // kc * kc  # by `kc` with no remainder
+      max_buffer = max(self.max_buffer // kc, 1) * kc  # by `kc` with no remainder
       self.buffer_n = (ideal_size + max_buffer - 1) // max_buffer
       self.buffer_h = (self.buffer_h + self.buffer_n - 1) // self.buffer_n
     self.buffer_shape = (self.buffer_h, self.kdim, self.in_conv)
-- 
2.43.0


From e44c4f042f268a364036ebca7e4183e10d191289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 13/23] fix: linear interpolation near the boundary used nodes
 of the opposite side

The neighbors of a point in [0, 2^depth) may be out of the bound, and their
keys are wrapped.
---
 ocnn/nn/octree_interp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 0be2804..4a1ac17 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -72,9 +72,10 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   batch = pts[:, 3].unsqueeze(1).repeat(1, 8).view(-1, 1)
   idx = octree.search_xyzb(torch.cat([xyzn, batch], dim=1), depth, nempty)
   valid = idx > -1  # valid indices
-  if bound_check:
-    bound = torch.logical_and(xyzn >= 0, xyzn < 2**depth).all(1)
-    valid = torch.logical_and(valid, bound)
+  # NOTE: even if the points are in [0, 2^depth), their neighbors may be out of
+  # the bound, and the corresponding keys are wrapped to the opposite side.
+  bound = torch.logical_and(xyzn >= 0, xyzn < 2**depth).all(1)
+  valid = torch.logical_and(valid, bound)
   idx = idx[valid]
 
   # 2. Build the sparse matrix
-- 
2.43.0


From b73471ea6c0eaac47d36a152a503fbe251e1cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:02 +0000
Subject: [PATCH 14/23] fix: Transform did not accept the documented float
 angles

---
 ocnn/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index 55c615b..ea3a247 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -109,7 +109,7 @@ class Transform:
 
     rnd_angle = [None] * 3
     for i in range(3):
-      rot_num = self.angle[i] // self.interval[i]
+      rot_num = int(self.angle[i] // self.interval[i])
       rnd = torch.randint(low=-rot_num, high=rot_num+1, size=(1,))
       rnd_angle[i] = rnd * self.interval[i] * (3.14159265 / 180.0)
     rnd_angle = torch.cat(rnd_angle)
-- 
2.43.0


From 0245121f5215afc99f2f6048ad46e72c8e6dd8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 15/23] fix: merge the predictions of chunks with ids of
 several digits

The suffix '.chunk_x' was removed by cutting 8 characters, which is wrong as
soon as a scan has more than 10 chunks: the votes of the later chunks were
written to a separate file instead of being added to their scan.
---
 projects/tools/seg_scannet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 87f6951..57f0445 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -281,7 +281,8 @@ def generate_output_seg():
       prob1 = np.zeros([mask.shape[0], prob0.shape[1]])
       prob1[mask] = prob0
       prob0 = prob1                       # update prob0
-      filename_scan = filename_scan[:-8]  # remove '.chunk_x'
+      # remove '.chunk_x', where x may have several digits
+      filename_scan = filename_scan[:filename_scan.rfind('.chunk_')]
 
     probs[filename_scan] = probs.get(filename_scan, 0) + prob0
 
-- 
2.43.0


From 89fcde2345a48a777e4d38709472cbfa2b0b094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:47 +0000
Subject: [PATCH 16/23] fix: cover the whole bounding box with chunks

The number of windows was derived from the maximum coordinate instead of the
extent, so scans which do not start at the origin were not covered.
---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 57f0445..9128cef 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -195,7 +195,7 @@ def generate_chunks(filename, point_cloud, cropsize=10.0, stride=5.0):
   chunk_id = 0
   min_size = 3000
   chunk_num = np.ceil(np.maximum(
-      bbmax - cropsize, 0) / stride).astype(np.int32) + 1
+      bbox - cropsize, 0) / stride).astype(np.int32) + 1
   for i in range(chunk_num[0]):
     for j in range(chunk_num[1]):
       for k in range(chunk_num[2]):
-- 
2.43.0


From d0b32109999e74784ea373a4c6b0135ffb9276f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:06 +0000
Subject: [PATCH 17/23] fix: save_points_to_ply failed for a bare file name

---
 projects/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/utils.py b/projects/tools/utils.py
index 6095dd0..0775975 100644
--- a/projects/tools/utils.py
+++ b/projects/tools/utils.py
@@ -35,6 +35,6 @@ def save_points_to_ply(filename: str, points: np.ndarray,
   el = PlyElement.describe(structured_array, 'vertex')
 
   folder = os.path.dirname(filename)
-  if not os.path.exists(folder):
+  if folder and not os.path.exists(folder):
     os.makedirs(folder)
   PlyData([el], text).write(filename)
-- 
2.43.0


From ee21abed4e9b14e3b9d407d989994bb5ff422978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 18/23] fix: the evaluation of ScanNet failed without a LOSS
 section

---
 projects/configs/seg_scannet_eval.yaml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/configs/seg_scannet_eval.yaml b/projects/configs/seg_scannet_eval.yaml
index 25b310b..e3b6ec8 100644
--- a/projects/configs/seg_scannet_eval.yaml
+++ b/projects/configs/seg_scannet_eval.yaml
@@ -43,3 +43,7 @@ MODEL:
   nout: 21
   nempty: True
   interp: nearest
+
+LOSS:
+  mask: -1      # keep the predictions of all points
+  num_class: 21
-- 
2.43.0


From b9e50afa0e8a54bfc757b39239a14432a31b5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 19/23] fix: the ScanNet evaluation read another folder than
 the preprocessing writes

---
 projects/configs/seg_scannet_eval.yaml |  4 ++--
 projects/scripts/run_seg_scannet.py    | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/projects/configs/seg_scannet_eval.yaml b/projects/configs/seg_scannet_eval.yaml
index e3b6ec8..417086b 100644
--- a/projects/configs/seg_scannet_eval.yaml
+++ b/projects/configs/seg_scannet_eval.yaml
@@ -28,8 +28,8 @@ DATA:
     jitter: 0.1
     uniform: True
 
-    location: data/scannet/test
-    filelist: data/scannet/scannetv2_test.txt
+    location: data/scannet.ply/test
+    filelist: data/scannet.ply/scannetv2_test.txt
     batch_size: 1
     shuffle: False
     # num_workers: 0
diff --git a/projects/scripts/run_seg_scannet.py b/projects/scripts/run_seg_scannet.py
index 239bbb1..d8f9c24 100644
--- a/projects/scripts/run_seg_scannet.py
+++ b/projects/scripts/run_seg_scannet.py
@@ -40,7 +40,7 @@ def train_all():
       'SOLVER.gpu  {},'.format(args.gpu),
       'SOLVER.alias  {}'.format(args.alias),
       'SOLVER.port {}'.format(args.port),
-      'DATA.train.filelist data/scannet/scannetv2_train_val.txt', ]
+      'DATA.train.filelist data/scannet.ply/scannetv2_train_val.txt', ]
   execute_command(cmds)
 
 
@@ -62,10 +62,10 @@ def test():
   cmds = [
       'python tools/seg_scannet.py',
       '--run generate_output_seg',
-      '--path_in data/scannet/test',
+      '--path_in data/scannet.ply/test',
       '--path_pred logs/scannet/D10_2cm_eval_test_{}'.format(args.alias),
       '--path_out logs/scannet/D10_2cm_eval_test_seg_{}'.format(args.alias),
-      '--filelist  data/scannet/scannetv2_test.txt', ]
+      '--filelist  data/scannet.ply/scannetv2_test.txt', ]
   execute_command(cmds)
 
 
@@ -81,25 +81,25 @@ def validate():
       'SOLVER.alias val_{}'.format(args.alias),
       'SOLVER.ckpt {}'.format(ckpt),
       'DATA.test.distort True',
-      'DATA.test.location  data/scannet/train',
-      'DATA.test.filelist data/scannet/scannetv2_val.txt', ]
+      'DATA.test.location  data/scannet.ply/train',
+      'DATA.test.filelist data/scannet.ply/scannetv2_val.txt', ]
   execute_command(cmds)
 
   # map the probabilities to labels
   cmds = [
       'python tools/seg_scannet.py',
       '--run generate_output_seg',
-      '--path_in data/scannet/train',
+      '--path_in data/scannet.ply/train',
       '--path_pred logs/scannet/D10_2cm_eval_val_{}'.format(args.alias),
       '--path_out logs/scannet/D10_2cm_eval_val_seg_{}'.format(args.alias),
-      '--filelist  data/scannet/scannetv2_val.txt', ]
+      '--filelist  data/scannet.ply/scannetv2_val.txt', ]
   execute_command(cmds)
 
   # calculate the mIoU
   cmds = [
       'python tools/seg_scannet.py',
       '--run calc_iou',
-      '--path_in data/scannet/train',
+      '--path_in data/scannet.ply/train',
       '--path_pred logs/scannet/D10_2cm_eval_val_seg_{}'.format(args.alias), ]
   execute_command(cmds)
 
-- 
2.43.0


From 0b0caa6d3e94571f9f9155b1d6902654b4de4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:20 +0000
Subject: [PATCH 20/23] fix: average pooling of data that is not float32

octree_avg_pool built its weights in the default type and raised a
RuntimeError for float64 data.
---
 ocnn/nn/octree_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index f5f472f..6bf4738 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -86,7 +86,7 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   K = neigh.shape[1]
 
   mask = neigh >= 0
-  val = 1.0 / (torch.sum(mask, dim=1) + 1e-8)
+  val = 1.0 / (torch.sum(mask, dim=1).to(data.dtype) + 1e-8)
   mask = mask.view(-1)
   val = val.unsqueeze(1).repeat(1, K).reshape(-1)
   val = val[mask]
-- 
2.43.0


From f28aee268b7dbeb42a26c803afd0596323992040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 21/23] fix: linear interpolation of data whose type differs
 from that of the points

octree_linear_pts raised a RuntimeError, and with it OctreeUpsample('linear')
for every tensor that is not float32.
---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 4a1ac17..8e5d101 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -87,7 +87,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
   weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
-  weight = weight[valid]
+  weight = weight[valid].to(data.dtype)
 
   h = data.shape[0]
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
-- 
2.43.0


From c78a1635acef0f382c697a1c70a8a4ff6787ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 22/23] fix: rotation of float64 point clouds

---
 ocnn/octree/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index c649863..2d6052e 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -127,9 +127,9 @@ class Points:
     rot = rotx @ roty @ rotz
 
     rot = rot.to(self.device)
-    self.points = self.points @ rot
+    self.points = self.points @ rot.to(self.points.dtype)
     if self.normals is not None:
-      self.normals = self.normals @ rot
+      self.normals = self.normals @ rot.to(self.normals.dtype)
 
   def translate(self, dis: torch.Tensor):
     r''' Translates the point cloud.
-- 
2.43.0


From a4108bc0638336221c27bf973a0c4c8a45387fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:57 +0000
Subject: [PATCH 23/23] fix: colour contrast of scenes with a constant channel

A channel with one value made the scale infinite and all its colours NaN.
---
 projects/datascts/scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/datascts/scannet.py b/projects/datascts/scannet.py
index 8427a33..c5ed27d 100644
--- a/projects/datascts/scannet.py
+++ b/projects/datascts/scannet.py
@@ -26,7 +26,7 @@ def color_distort(color, trans_range_ratio, jitter_std):
     hi = color[:, :3].max(0, keepdims=True)
     assert hi.max() > 1
 
-    scale = 255 / (hi - lo)
+    scale = 255 / np.maximum(hi - lo, 1.0e-6)  # a channel may be constant
     contrast_feats = (color[:, :3] - lo) * scale
 
     blend_factor = random.random()
-- 
2.43.0

