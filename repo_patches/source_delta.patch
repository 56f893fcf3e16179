From ebac397bb9fd33bb5a89b6d57314cd9dd2564a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 01/35] fix: accept 1-D batch_id in Points

Points.check_input indexed dimension 1 of a 1-D batch_id before unsqueezing
it, so Octree.to_points() always raised an IndexError.
---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..ff54be8 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From 8972532480494c5f5e1da0161079c6282c3c5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 02/35] fix: accept an int batch index in xyz2key

The documented `b: int` raised an AttributeError.
---
 ocnn/octree/shuffled_key.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..5685282 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,8 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    if isinstance(b, torch.Tensor):
+      b = b.long()
     key = b << 48 | key
 
   return key
-- 
2.43.0


From 88e12c045301d298b69b5bd4adc1fdec601a90b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 03/35] fix: keep batch_size in Points.to

A merged point cloud moved to another device came back with batch_size 1.
---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ff54be8..e51293c 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -239,7 +239,8 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device),
+                    batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From 979dc2f346649d20d60007db996fdef31311e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 04/35] fix: OctreeResBlock2 with stride 2

The constructor referred to the undefined attribute self.depth.
---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 9cc55c3fdbebea6e12c63d9914bd9e966868e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 05/35] fix: pass nempty to the bottleneck of SegNet

SegNet(nempty=True) failed with a shape mismatch in the bottleneck.
---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From e5ffb3f1381b7cb9e18b5c95c78245bbb932cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 06/35] fix: pad the output of the strided octree_avg_pool

With stride 2 and nempty=False the output had one row per non-empty parent,
instead of one row per parent node as octree_max_pool and OctreeConv return.
---
 ocnn/nn/octree_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c4c6f75..f5f472f 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -98,6 +98,8 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
 
   mat = torch.sparse_coo_tensor(indices, val, [N2, N1], device=data.device)
   out = torch.sparse.mm(mat, data)
+  if stride == 2 and not nempty:
+    out = octree_pad(out, octree, depth-1)
   return out
 
 
-- 
2.43.0


From 8bf78be2b4e0418761dc5024bbfe855ac6d094f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 07/35] fix: keep the dtype of the values in search_value

The output was always float32, and other dtypes raised a RuntimeError.
---
 ocnn/nn/octree_align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..5e7ad8b 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(query.shape[0], value.shape[1], dtype=value.dtype,
+                    device=value.device)
   out[found] = value[idx[found]]
   return out
 
-- 
2.43.0


From 1a0cbc01abe9ac5c00810f25e9a28f759a6d8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 08/35] fix: keep points at the upper bound in the last voxel

Points at +1.0 are scaled to 2^depth, which was masked to voxel 0 on the
opposite side of the cube.
---
 ocnn/octree/octree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6801adb..7d48633 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -160,6 +160,9 @@ class Octree:
     # normalize points from [-1, 1] to [0, 2^depth]. #[L:Scale]
     scale = 2 ** (self.depth - 1)
     points = (point_cloud.points + 1.0) * scale
+    # the upper bound of the voxel grid is exclusive, avoid wrapping around
+    eps = torch.finfo(points.dtype).eps
+    points = points.clamp(max=2 ** self.depth * (1.0 - eps))
 
     # get the shuffled key and sort
     x, y, z = points[:, 0], points[:, 1], points[:, 2]
-- 
2.43.0


From b4e0775f772da08eda9c5390df9b8d6600a9919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 09/35] fix: do not rescale the query points of OctreeInterp in
 place

The second interpolation with the same query points read the wrong positions.
---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..73811af 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,7 +121,7 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
-      pts[:, :3] = (pts[:, :3] + 1.0) * scale
+      pts = torch.cat([(pts[:, :3] + 1.0) * scale, pts[:, 3:]], dim=1)
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
 
-- 
2.43.0


From d6f16fd80abb11337e4c98daeb827b6d06c5e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 10/35] fix: do not modify the input tensors in Points.flip and
 orient_normal

The other transformations rebind the tensors; these two wrote through to the
caller's data, e.g. to the samples cached by an in-memory dataset.
---
 ocnn/octree/points.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index e51293c..036d061 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
@@ -149,11 +149,12 @@ class Points:
     '''
 
     axis_map = {'x': 0, 'y': 1, 'z': 2}
+    sign = torch.ones(3, dtype=self.points.dtype, device=self.device)
     for x in axis:
-      idx = axis_map[x]
-      self.points[:, idx] *= -1.0
-      if self.normals is not None:
-        self.normals[:, idx] *= -1.0
+      sign[axis_map[x]] *= -1.0
+    self.points = self.points * sign
+    if self.normals is not None:
+      self.normals = self.normals * sign
 
   def clip(self, min: float = -1.0, max: float = 1.0, esp: float = 0.01):
     r''' Clips the point cloud to :obj:`[min+esp, max-esp]` and returns the mask.
-- 
2.43.0


From 51306f4f961b329a3b2e35b38467c0718d7af2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 11/35] fix: no wrap-around in OctreeUpsample

The corners outside of the cube were mapped to the opposite side, and mixed
into the features of the nodes on the boundary.
---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 73811af..dd14693 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -187,7 +187,7 @@ class OctreeUpsample(torch.nn.Module):
     xyzb = octree.xyzb(target_depth, self.nempty)
     pts = torch.stack(xyzb, dim=1).float()
     pts[:, :3] = (pts[:, :3] + 0.5) * (2**(depth - target_depth))  # !!! rescale
-    return self.func(data, octree, depth, pts, self.nempty)
+    return self.func(data, octree, depth, pts, self.nempty, bound_check=True)
 
   def extra_repr(self) -> str:
     r''' Sets the extra representation of the module.
-- 
2.43.0


From 72ce24e7dfbdaf7cd0e28c6499d84b8ae3137d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 12/35] fix: no -inf in octree_max_pool for nodes without
 non-empty children

In the full layers of an octree all the 8 children of a node may be empty; the
pooled feature was -inf, which turns into NaN in the following layers.
---
 ocnn/nn/octree_pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index f5f472f..86a2f24 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -33,7 +33,10 @@ def octree_max_pool(data: torch.Tensor, octree: Octree, depth: int,
     data = octree_pad(data, octree, depth, float('-inf'))
   data = data.view(-1, 8, data.shape[1])
   out, indices = data.max(dim=1)
-  if not nempty:
+  if nempty:  # the nodes without any non-empty child
+    mask = octree.nempty_mask(depth).view(-1, 8).any(dim=1, keepdim=True)
+    out = out.masked_fill(mask.logical_not(), 0.0)
+  else:
     out = octree_pad(out, octree, depth-1)
   return (out, indices) if return_indices else out
 
-- 
2.43.0


From 6c12f223c76ad4f261bdf813b62d17a41237cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 13/35] fix: average pooling and linear interpolation of
 float64 features

The sparse matrix was always float32, and the product raised a RuntimeError.
---
 ocnn/nn/octree_interp.py | 2 +-
 ocnn/nn/octree_pool.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index dd14693..0c92c75 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -86,7 +86,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
   weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
-  weight = weight[valid]
+  weight = weight[valid].to(data.dtype)
 
   h = data.shape[0]
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index 86a2f24..a742a4e 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -92,7 +92,7 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   val = 1.0 / (torch.sum(mask, dim=1) + 1e-8)
   mask = mask.view(-1)
   val = val.unsqueeze(1).repeat(1, K).reshape(-1)
-  val = val[mask]
+  val = val[mask].to(data.dtype)
 
   row = torch.arange(N2, device=neigh.device)
   row = row.unsqueeze(1).repeat(1, K).view(-1)
-- 
2.43.0


From 43471168bfca59d2c048c09271ec09f94f1cef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 14/35] fix: rotate float64 point clouds

The rotation matrix was always float32, and the product raised a RuntimeError.
---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 036d061..e0d7338 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -126,7 +126,7 @@ class Points:
     rotz = torch.Tensor([[cos[2], sin[2], 0], [-sin[2], cos[2], 0], [0, 0, 1]])
     rot = rotx @ roty @ rotz
 
-    rot = rot.to(self.device)
+    rot = rot.to(self.points)
     self.points = self.points @ rot
     if self.normals is not None:
       self.normals = self.normals @ rot
-- 
2.43.0


From 5b473064ed920e59ed1ce2b7e456d3af6812d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 15/35] fix: do not consume the input sample in
 Transform.preprocess

The points and normals were popped from the dict of the caller, so that an
in-memory dataset failed from the second epoch on.
---
 ocnn/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index 55c615b..3ba6262 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -69,6 +69,7 @@ class Transform:
     transformations, like normalization.
     '''
 
+    sample = dict(sample)   # the input may be cached, e.g. in_memory datasets
     xyz = torch.from_numpy(sample.pop('points'))
     normals = torch.from_numpy(sample.pop('normals'))
     sample['points'] = Points(xyz, normals)
-- 
2.43.0


From 0a534f16c96025c6cf4f1a6edc2ffe6200226ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 16/35] fix: scipy.ndimage.filters is removed from recent scipy

---
 projects/datascts/scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/datascts/scannet.py b/projects/datascts/scannet.py
index 8427a33..4ba63bd 100644
--- a/projects/datascts/scannet.py
+++ b/projects/datascts/scannet.py
@@ -67,7 +67,7 @@ def elastic_distort(points, distortion_params):
     noise = np.random.randn(*noise_dim, 3).astype(np.float32)
 
     # Smoothing.
-    convolve = scipy.ndimage.filters.convolve
+    convolve = scipy.ndimage.convolve
     for _ in range(2):
       noise = convolve(noise, blurx, mode='constant', cval=0)
       noise = convolve(noise, blury, mode='constant', cval=0)
-- 
2.43.0


From e851aa962bc16a2c918f4866b88f1e2eadf19b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 17/35] fix: OUNet can be constructed and run

The constructor passed code_channel, which AutoEncoder did not accept, and the
encoder called the missing method get_input_feature.
---
 ocnn/models/autoencoder.py | 7 +++++--
 ocnn/models/ounet.py       | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..3ba58d8 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -26,7 +26,8 @@ class AutoEncoder(torch.nn.Module):
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,8 +35,10 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
+    if code_channel < 0:  # keep the channel of the encoder
+      code_channel = self.channels[full_depth]
+    self.code_channel = code_channel  # dim-of-code = code_channel * 2**(3*full_depth)
 
     # encoder
     self.conv1 = ocnn.modules.OctreeConvBnRelu(
diff --git a/ocnn/models/ounet.py b/ocnn/models/ounet.py
index 0dd81aa..621a850 100644
--- a/ocnn/models/ounet.py
+++ b/ocnn/models/ounet.py
@@ -28,7 +28,7 @@ class OUNet(AutoEncoder):
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = self.get_input_feature(octree)
+    data = octree.get_input_feature(self.feature, nempty=False)
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0


From df1ba48b39a98c071cadc1364166b33a497341ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 18/35] fix: accept float rotation angles in Transform

---
 ocnn/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index 3ba6262..4ff29df 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -110,7 +110,7 @@ class Transform:
 
     rnd_angle = [None] * 3
     for i in range(3):
-      rot_num = self.angle[i] // self.interval[i]
+      rot_num = int(self.angle[i] // self.interval[i])
       rnd = torch.randint(low=-rot_num, high=rot_num+1, size=(1,))
       rnd_angle[i] = rnd * self.interval[i] * (3.14159265 / 180.0)
     rnd_angle = torch.cat(rnd_angle)
-- 
2.43.0


From e2dcd7dc80ba0280ef36441de03d1fd71b1e4885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 19/35] fix: colour distortion of a constant colour channel
 yields NaN

The auto-contrast divides by hi - lo, which is zero for such a channel.
---
 projects/datascts/scannet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/datascts/scannet.py b/projects/datascts/scannet.py
index 4ba63bd..dda0723 100644
--- a/projects/datascts/scannet.py
+++ b/projects/datascts/scannet.py
@@ -26,8 +26,9 @@ def color_distort(color, trans_range_ratio, jitter_std):
     hi = color[:, :3].max(0, keepdims=True)
     assert hi.max() > 1
 
-    scale = 255 / (hi - lo)
-    contrast_feats = (color[:, :3] - lo) * scale
+    # channels without any contrast, i.e. `hi == lo`, are kept unchanged
+    scale = 255 / np.where(hi > lo, hi - lo, 1)
+    contrast_feats = np.where(hi > lo, (color[:, :3] - lo) * scale, color[:, :3])
 
     blend_factor = random.random()
     color[:, :3] = (1 - blend_factor) * color + blend_factor * contrast_feats
-- 
2.43.0


From 36f47f572a655aeaf4c5badd945656e93df08684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 20/35] fix: merge the predictions of chunks with ids larger
 than 9

---
 projects/tools/seg_scannet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 87f6951..7c8c848 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -281,7 +281,8 @@ def generate_output_seg():
       prob1 = np.zeros([mask.shape[0], prob0.shape[1]])
       prob1[mask] = prob0
       prob0 = prob1                       # update prob0
-      filename_scan = filename_scan[:-8]  # remove '.chunk_x'
+      # remove '.chunk_x', and x may have more than one digit
+      filename_scan = filename_scan[:filename_scan.rfind('.chunk_')]
 
     probs[filename_scan] = probs.get(filename_scan, 0) + prob0
 
-- 
2.43.0


From 969938c4f8fba71f7287cbbed08479e68563996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 21/35] fix: let the chunks of a scan cover its whole bounding
 box

The number of chunks was computed from the largest coordinate, so that a part
of the scan is lost when the smallest coordinate is negative.
---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 7c8c848..d7f922c 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -195,7 +195,7 @@ def generate_chunks(filename, point_cloud, cropsize=10.0, stride=5.0):
   chunk_id = 0
   min_size = 3000
   chunk_num = np.ceil(np.maximum(
-      bbmax - cropsize, 0) / stride).astype(np.int32) + 1
+      bbox - cropsize, 0) / stride).astype(np.int32) + 1
   for i in range(chunk_num[0]):
     for j in range(chunk_num[1]):
       for k in range(chunk_num[2]):
-- 
2.43.0


From 628dbaa0ab47d4343af7644bdd72e9d549ee9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 22/35] fix: seg_scannet_eval.yaml lacks the label mask read by
 eval_step

SegSolver.model_forward reads LOSS.mask, which has no default in thsolver, so
that the evaluation stopped with an AttributeError.
---
 projects/configs/seg_scannet_eval.yaml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/configs/seg_scannet_eval.yaml b/projects/configs/seg_scannet_eval.yaml
index 25b310b..c7adf5d 100644
--- a/projects/configs/seg_scannet_eval.yaml
+++ b/projects/configs/seg_scannet_eval.yaml
@@ -43,3 +43,7 @@ MODEL:
   nout: 21
   nempty: True
   interp: nearest
+
+LOSS:
+  mask: -255      # predict all points, including the unlabeled points
+  num_class: 21
-- 
2.43.0


From 84744a9410457e2b3bdd8af579f70563b2adf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 23/35] fix: exact child indices for half-precision split masks

---
 ocnn/octree/octree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 7d48633..2901101 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -267,7 +267,7 @@ class Octree:
 
     # split -> children
     empty = split == 0
-    sum = cumsum(split, dim=0, exclusive=True)
+    sum = cumsum(split.int(), dim=0, exclusive=True)  # `.int()`: half is not exact
     children, nnum_nempty = torch.split(sum, [split.shape[0], 1])
     children[empty] = -1
 
-- 
2.43.0


From e9103c5190edf11bab53267e45cd37f9dddf50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 24/35] fix: global pooling of half-precision features

---
 ocnn/nn/octree_pool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index a742a4e..ec5965a 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -120,12 +120,13 @@ def octree_global_pool(data: torch.Tensor, octree: Octree, depth: int,
 
   batch_size = octree.batch_size
   batch_id = octree.batch_id(depth, nempty)
-  ones = data.new_ones(data.shape[0], 1)
+  x = data.to(torch.promote_types(data.dtype, torch.float32))  # half saturates
+  ones = x.new_ones(x.shape[0], 1)
   count = scatter_add(ones, batch_id, dim=0, dim_size=batch_size)
   count[count < 1] = 1  # there might be 0 element in some shapes
 
-  out = scatter_add(data, batch_id, dim=0, dim_size=batch_size)
-  out = out / count
+  out = scatter_add(x, batch_id, dim=0, dim_size=batch_size)
+  out = (out / count).to(data.dtype)
   return out
 
 
-- 
2.43.0


From af5a4d36f4844d543b35f86933e4365e27d38089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 25/35] fix: group normalisation of half-precision features

---
 ocnn/nn/octree_norm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_norm.py b/ocnn/nn/octree_norm.py
index b7d69d6..39491ba 100644
--- a/ocnn/nn/octree_norm.py
+++ b/ocnn/nn/octree_norm.py
@@ -40,6 +40,10 @@ class OctreeGroupNorm(torch.nn.Module):
   def forward(self, data: torch.Tensor, octree: Octree, depth: int):
     r''''''
 
+    # the counts and sums over an octree saturate in half precision
+    dtype = data.dtype
+    data = data.to(torch.promote_types(dtype, torch.float32))
+
     batch_size = octree.batch_size
     batch_id = octree.batch_id(depth, self.nempty)
     ones = data.new_ones([data.shape[0], 1])
@@ -56,7 +60,7 @@ class OctreeGroupNorm(torch.nn.Module):
     inv_std = 1.0 / (var + self.eps).sqrt()
     out = out * inv_std.index_select(0, batch_id)
 
-    out = out * self.weights + self.bias
+    out = out.to(dtype) * self.weights + self.bias
     return out
 
   def _adjust_for_group(self, tensor: torch.Tensor):
-- 
2.43.0


From be50a5828c76ec7a25659e0f0faf183c60cb946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 26/35] fix: linear interpolation of half-precision features

---
 ocnn/nn/octree_interp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 0c92c75..5f415ee 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -86,17 +86,18 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
   weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
-  weight = weight[valid].to(data.dtype)
+  dtype = torch.promote_types(data.dtype, torch.float32)  # 1e-12 is 0 in half
+  weight = weight[valid].to(dtype)
 
   h = data.shape[0]
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
 
   # 3. Interpolatation
-  output = torch.sparse.mm(mat, data)
-  ones = torch.ones(h, 1, dtype=data.dtype, device=device)
+  output = torch.sparse.mm(mat, data.to(dtype))
+  ones = torch.ones(h, 1, dtype=dtype, device=device)
   norm = torch.sparse.mm(mat, ones)
   output = torch.div(output, norm + 1e-12)
-  return output
+  return output.to(data.dtype)
 
 
 class OctreeInterp(torch.nn.Module):
-- 
2.43.0


From 451b2e07c716a453ca72722c14e8774a566ab6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:27 +0000
Subject: [PATCH 27/35] fix: convolution with a max_buffer smaller than one row
 of the buffer

---
 ocnn/nn/octree_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index 88be7ba..877ec97 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -87,7 +87,7 @@ class OctreeConvBase:
     ideal_size = self.buffer_h * self.kdim * self.in_conv
     if ideal_size > self.max_buffer:
       kc = self.kdim * self.in_conv            # make `max_buffer` be divided
-      max_buffer = self.max_buffer // kc * kc  # by `kc` with no remainder
+      max_buffer = max(self.max_buffer // kc, 1) * kc  # by `kc` with no remainder
       self.buffer_n = (ideal_size + max_buffer - 1) // max_buffer
       self.buffer_h = (self.buffer_h + self.buffer_n - 1) // self.buffer_n
     self.buffer_shape = (self.buffer_h, self.kdim, self.in_conv)
-- 
2.43.0


From 97dd39774c5daeb4be59fdf7d65d396de5d228aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 28/35] fix: octree_linear_pts accepts points in any memory
 layout

---
 ocnn/nn/octree_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 5f415ee..0900417 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -68,7 +68,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   xyzi = xyzf.floor()       # the integer part  (N, 3)
   frac = xyzf - xyzi        # the fraction part (N, 3)
 
-  xyzn = (xyzi.unsqueeze(1) + grid).view(-1, 3)
+  xyzn = (xyzi.unsqueeze(1) + grid).reshape(-1, 3)
   batch = pts[:, 3].unsqueeze(1).repeat(1, 8).view(-1, 1)
   idx = octree.search_xyzb(torch.cat([xyzn, batch], dim=1), depth, nempty)
   valid = idx > -1  # valid indices
@@ -85,7 +85,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   indices = torch.stack([ids, idx], dim=0).long()
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
-  weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
+  weight = frac.prod(dim=2).abs().reshape(-1)     # (8*N,)
   dtype = torch.promote_types(data.dtype, torch.float32)  # 1e-12 is 0 in half
   weight = weight[valid].to(dtype)
 
-- 
2.43.0


From cb9fbfa38378375a6c326d3b220585a4abc09112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 29/35] fix: averages and interpolation work in mixed precision

Under torch.autocast the sparse product was formed in the low precision, its backward failed with a mismatch of types
---
 ocnn/nn/octree_interp.py | 5 +++--
 ocnn/nn/octree_pool.py   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 0900417..fac417e 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -93,9 +93,10 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
 
   # 3. Interpolatation
-  output = torch.sparse.mm(mat, data.to(dtype))
   ones = torch.ones(h, 1, dtype=dtype, device=device)
-  norm = torch.sparse.mm(mat, ones)
+  with torch.autocast(device.type, enabled=False):  # for pytorch.amp
+    output = torch.sparse.mm(mat, data.to(dtype))
+    norm = torch.sparse.mm(mat, ones)
   output = torch.div(output, norm + 1e-12)
   return output.to(data.dtype)
 
diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index ec5965a..0260954 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -100,7 +100,8 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   indices = torch.stack([row[mask], col[mask]], dim=0).long()
 
   mat = torch.sparse_coo_tensor(indices, val, [N2, N1], device=data.device)
-  out = torch.sparse.mm(mat, data)
+  with torch.autocast(data.device.type, enabled=False):  # for pytorch.amp
+    out = torch.sparse.mm(mat, data)
   if stride == 2 and not nempty:
     out = octree_pad(out, octree, depth-1)
   return out
-- 
2.43.0


From b80f01185b7069b5ff660d7e5f45f522cee828c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 30/35] fix: octree_avg_pool averages in the precision of the
 data

The factors were rounded to single precision for double data, and to half precision
(as were the sums) for half data.
---
 ocnn/nn/octree_pool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index 0260954..b4ae6da 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -89,10 +89,11 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   K = neigh.shape[1]
 
   mask = neigh >= 0
-  val = 1.0 / (torch.sum(mask, dim=1) + 1e-8)
+  dtype = torch.promote_types(data.dtype, torch.float32)
+  val = 1.0 / torch.sum(mask, dim=1).clamp(min=1).to(dtype)
   mask = mask.view(-1)
   val = val.unsqueeze(1).repeat(1, K).reshape(-1)
-  val = val[mask].to(data.dtype)
+  val = val[mask]
 
   row = torch.arange(N2, device=neigh.device)
   row = row.unsqueeze(1).repeat(1, K).view(-1)
@@ -101,7 +102,7 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
 
   mat = torch.sparse_coo_tensor(indices, val, [N2, N1], device=data.device)
   with torch.autocast(data.device.type, enabled=False):  # for pytorch.amp
-    out = torch.sparse.mm(mat, data)
+    out = torch.sparse.mm(mat, data.to(dtype)).to(data.dtype)
   if stride == 2 and not nempty:
     out = octree_pad(out, octree, depth-1)
   return out
-- 
2.43.0


From fa09ef0175b7cfa4b8fe29a7818f97c4d5066748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:55 +0000
Subject: [PATCH 31/35] fix: drop path in half precision keeps the probability
 and the factor

---
 ocnn/nn/octree_drop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_drop.py b/ocnn/nn/octree_drop.py
index 88a2485..c2f6e4b 100644
--- a/ocnn/nn/octree_drop.py
+++ b/ocnn/nn/octree_drop.py
@@ -39,10 +39,13 @@ class OctreeDropPath(torch.nn.Module):
 
     batch_size = octree.batch_size
     keep_prob = 1 - self.drop_prob
-    rnd_tensor = torch.rand(batch_size, 1, dtype=data.dtype, device=data.device)
+    # the sum of the next line rounds to 0 or 2 in half precision
+    dtype = torch.promote_types(data.dtype, torch.float32)
+    rnd_tensor = torch.rand(batch_size, 1, dtype=dtype, device=data.device)
     rnd_tensor = torch.floor(rnd_tensor + keep_prob)
     if keep_prob > 0.0 and self.scale_by_keep:
       rnd_tensor.div_(keep_prob)
+    rnd_tensor = rnd_tensor.to(data.dtype)
 
     if batch_id is None:
       batch_id = octree.batch_id(depth, self.nempty)
-- 
2.43.0


From 47577e29c4c06f604f9bdc9293c5ebac70503db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:43 +0000
Subject: [PATCH 32/35] fix: second derivatives of convolutions in several
 chunks

---
 ocnn/nn/octree_conv.py   | 4 ++++
 ocnn/nn/octree_dwconv.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index 877ec97..b956b01 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -132,6 +132,8 @@ class OctreeConvBase:
       # Perform octree2col
       neigh_i = self.neigh[start:end]
       valid = neigh_i >= 0
+      if torch.is_grad_enabled():  # keep the old buffer for double backward
+        buffer = torch.empty_like(buffer)
       buffer.fill_(0)
       buffer[valid] = data[neigh_i[valid]]
 
@@ -204,6 +206,8 @@ class OctreeConvBase:
       # Perform octree2col
       neigh_i = self.neigh[start:end]
       valid = neigh_i >= 0
+      if torch.is_grad_enabled():  # keep the old buffer for double backward
+        buffer = torch.empty_like(buffer)
       buffer.fill_(0)
       buffer[valid] = data[neigh_i[valid]]
 
diff --git a/ocnn/nn/octree_dwconv.py b/ocnn/nn/octree_dwconv.py
index 9fa4b5b..a7ac805 100644
--- a/ocnn/nn/octree_dwconv.py
+++ b/ocnn/nn/octree_dwconv.py
@@ -55,6 +55,8 @@ class OctreeDWConvBase(OctreeConvBase):
       # Perform octree2col
       neigh_i = self.neigh[start:end]
       valid = neigh_i >= 0
+      if torch.is_grad_enabled():  # keep the old buffer for double backward
+        buffer = torch.empty_like(buffer)
       buffer.fill_(0)
       buffer[valid] = data[neigh_i[valid]]
 
@@ -127,6 +129,8 @@ class OctreeDWConvBase(OctreeConvBase):
       # Perform octree2col
       neigh_i = self.neigh[start:end]
       valid = neigh_i >= 0
+      if torch.is_grad_enabled():  # keep the old buffer for double backward
+        buffer = torch.empty_like(buffer)
       buffer.fill_(0)
       buffer[valid] = data[neigh_i[valid]]
 
-- 
2.43.0


From 58c98c13041c4f44039eb0608f89e23c84812260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 33/35] fix: recomputed blocks whose input needs no gradient
 get their gradients

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index 49075a1..a2a70b8 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -118,7 +118,7 @@ class OctreeResBlocks(torch.nn.Module):
     for i in range(self.resblk_num):
       if self.use_checkpoint:
         data = torch.utils.checkpoint.checkpoint(
-            self.resblks[i], data, octree, depth)
+            self.resblks[i], data, octree, depth, use_reentrant=False)
       else:
         data = self.resblks[i](data, octree, depth)
     return data
-- 
2.43.0


From 04de7f7b2001f3713d3e0c7a0d3e1f6b56e53de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:17 +0000
Subject: [PATCH 34/35] fix: a refused cloud does not change the device of the
 octree

---
 ocnn/octree/octree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 2901101..790a4d0 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -154,8 +154,8 @@ class Octree:
       Currently, the batch size of the point cloud must be 1.
     '''
 
-    self.device = point_cloud.device
     assert point_cloud.batch_size == self.batch_size, 'Inconsistent batch_size'
+    self.device = point_cloud.device
 
     # normalize points from [-1, 1] to [0, 2^depth]. #[L:Scale]
     scale = 2 ** (self.depth - 1)
-- 
2.43.0


From 7c31e7dc15fef20b1b8eba691cf71aa17fe4aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:17 +0000
Subject: [PATCH 35/35] fix: kernel lists of the caller are not edited in place

---
 ocnn/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ocnn/utils.py b/ocnn/utils.py
index b1436f7..a52d141 100644
--- a/ocnn/utils.py
+++ b/ocnn/utils.py
@@ -173,9 +173,8 @@ def resize_with_last_val(list_in: list, num: int = 3):
   '''
 
   assert (type(list_in) is list and len(list_in) < num + 1)
-  for _ in range(len(list_in), num):
-    list_in.append(list_in[-1])
-  return list_in
+  # !! not in place: the input may be a default argument or in use elsewhere
+  return list_in + [list_in[-1]] * (num - len(list_in))
 
 
 def list2str(list_in: list):
-- 
2.43.0

