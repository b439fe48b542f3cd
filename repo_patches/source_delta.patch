From 6b8977b440d9ccd590f76d664fbb26d892619d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 001/147] fix: Meshes built from padded tensors without any
 face can return their lists

---
 pytorch3d/structures/meshes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..9b5cff8 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -547,7 +547,9 @@ class Meshes:
                 "verts_padded is required to compute verts_list."
             )
             self._verts_list = struct_utils.padded_to_list(
-                self._verts_padded, self.num_verts_per_mesh().tolist()
+                self._verts_padded,
+                # num_verts_per_mesh has no entries when no mesh has faces.
+                None if self.isempty() else self.num_verts_per_mesh().tolist(),
             )
         return self._verts_list
 
@@ -563,7 +565,9 @@ class Meshes:
                 "faces_padded is required to compute faces_list."
             )
             self._faces_list = struct_utils.padded_to_list(
-                self._faces_padded, self.num_faces_per_mesh().tolist()
+                self._faces_padded,
+                # num_faces_per_mesh has no entries when no mesh has faces.
+                [0] * self._N if self.isempty() else self.num_faces_per_mesh().tolist(),
             )
         return self._faces_list
 
-- 
2.43.0


From 52c20cd1b8dd007513378af4501ff88d74729647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 002/147] fix: in-place offset and scale of Meshes do not write
 into memory shared with other objects

---
 pytorch3d/structures/meshes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 9b5cff8..cad77cc 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1328,6 +1328,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # The memory may be shared with another Meshes or with the user.
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1382,6 +1384,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # The memory may be shared with another Meshes or with the user.
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
-- 
2.43.0


From ec1f86843a96d48dcb603f315a6103535ebf2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 003/147] fix: Pointclouds keep normals and features given in
 another form than the points

---
 pytorch3d/structures/pointclouds.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..795f765 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -620,20 +620,26 @@ class Pointclouds:
         Args:
             refresh: whether to force the recalculation.
         """
-        if not (refresh or self._points_padded is None):
+        # The points and their auxiliary inputs may have been given in
+        # different forms.
+        aux_missing = (self._normals_padded is None and self._normals_list is not None) or (
+            self._features_padded is None and self._features_list is not None
+        )
+        if not (refresh or self._points_padded is None or aux_missing):
             return
 
+        normals_list, features_list = self.normals_list(), self.features_list()
         self._normals_padded, self._features_padded = None, None
         if self.isempty():
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
         else:
-            self._points_padded = struct_utils.list_to_padded(
-                self.points_list(),
-                (self._P, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-            normals_list = self.normals_list()
+            if refresh or self._points_padded is None:
+                self._points_padded = struct_utils.list_to_padded(
+                    self.points_list(),
+                    (self._P, 3),
+                    pad_value=0.0,
+                    equisized=self.equisized,
+                )
             if normals_list is not None:
                 self._normals_padded = struct_utils.list_to_padded(
                     normals_list,
@@ -641,7 +647,6 @@ class Pointclouds:
                     pad_value=0.0,
                     equisized=self.equisized,
                 )
-            features_list = self.features_list()
             if features_list is not None:
                 self._features_padded = struct_utils.list_to_padded(
                     features_list,
@@ -1171,6 +1176,7 @@ class Pointclouds:
             new._features_list = self._features_list
             new._features_padded = self._features_padded
             new._features_packed = self._features_packed
+            new._C = self._C
 
         # copy auxiliary tensors
         copy_tensors = [
-- 
2.43.0


From 354f83802be500206f22d72e1cb31a9e63ebedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 004/147] fix: in-place offset and scale of Pointclouds do not
 write into memory shared with other objects

---
 pytorch3d/structures/pointclouds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 795f765..44e197d 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -908,6 +908,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # The memory may be shared with another Pointclouds or with the user.
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -997,6 +999,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # The memory may be shared with another Pointclouds or with the user.
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From 586b23b54277fd1419474f9da98aa97b681e17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 005/147] fix: multiple texture maps per mesh are sampled from
 the map of each face

---
 pytorch3d/renderer/mesh/textures.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..47814fb 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1145,11 +1145,21 @@ class TexturesUV(TexturesBase):
             # pyrefly: ignore [bad-return]
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
-            # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return padded_to_list(
+                self._maps_ids_padded, split_size=self._num_faces_per_mesh
+            )
         else:
             return None
 
+    def _maps_ids_to_grid(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        Convert indices of maps to the depth coordinate, between -1 and 1, at which
+        F.grid_sample (with self.align_corners) samples exactly that one of M maps.
+        """
+        if self.align_corners:
+            return 2.0 * maps_ids.float() / float(max(M - 1, 1)) - 1.0
+        return (2.0 * maps_ids.float() + 1.0) / float(M) - 1.0
+
     # Currently only the padded maps are used.
     def maps_padded(self) -> torch.Tensor:
         return self._maps_padded
@@ -1281,15 +1291,18 @@ class TexturesUV(TexturesBase):
             pix_to_face = fragments.pix_to_face.clone()
             pix_to_face[mask] = 0
 
+            # pix_to_face are indices into the packed faces
+            maps_ids_packed = torch.cat(
+                [ids[:n] for ids, n in zip(maps_ids_padded, self._num_faces_per_mesh)]
+            )
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
-                .gather(0, pix_to_face.flatten())
+                maps_ids_packed.gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
             )  # N x H_out x W_out x K x 1
 
             # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._maps_ids_to_grid(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1351,7 +1364,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._maps_ids_to_grid(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From 4e637ddb681e251142e26e50aa397e4d7c401a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 006/147] fix: farthest point sampling selects nothing from an
 empty cloud or when no samples are requested

---
 .../sample_farthest_points_cpu.cpp            |  6 ++++++
 pytorch3d/ops/sample_farthest_points.py       | 20 ++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..0401cc5 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -43,6 +43,12 @@ at::Tensor FarthestPointSamplingCpu(
   std::vector<float> dists(P, std::numeric_limits<float>::max());
 
   for (int64_t n = 0; n < N; ++n) {
+    // There is nothing to select from an empty cloud or if no samples are
+    // requested, so leave the padding value.
+    if (lengths_a[n] < 1 || k_a[n] < 1) {
+      continue;
+    }
+
     // Resize and reset points mask and distances for each batch
     selected_points_mask.resize(lengths_a[n]);
     dists.resize(lengths_a[n]);
diff --git a/pytorch3d/ops/sample_farthest_points.py b/pytorch3d/ops/sample_farthest_points.py
index ddcb75a..9ad321c 100644
--- a/pytorch3d/ops/sample_farthest_points.py
+++ b/pytorch3d/ops/sample_farthest_points.py
@@ -151,6 +151,19 @@ def sample_farthest_points_naive(
             device=device,
         )
 
+        # If the pointcloud has fewer than K points then only iterate over the min
+        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
+        #  `Tensor`.
+        k_n = min(lengths[n], K[n])
+
+        # There is nothing to select from an empty pointcloud or if no samples are
+        # requested, so leave the padding value.
+        if k_n < 1:
+            all_sampled_indices.append(sample_idx_batch)
+            continue
+
         # Initialize closest distances to inf, shape: (P,)
         # This will be updated at each iteration to track the closest distance of the
         # remaining points to any of the selected points
@@ -167,13 +180,6 @@ def sample_farthest_points_naive(
         selected_idx = randint(0, lengths[n] - 1) if random_start_point else 0
         sample_idx_batch[0] = selected_idx
 
-        # If the pointcloud has fewer than K points then only iterate over the min
-        # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
-        #  `Tensor`.
-        k_n = min(lengths[n], K[n])
-
         # Iteratively select points for a maximum of k_n
         for i in range(1, k_n):
             # Find the distance between the last selected point
-- 
2.43.0


From 56a081f7c53bbfe935dd63a611e42f706bc2b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 007/147] fix: indexing Translate, Scale and Rotate keeps the
 dtype and RotateAxisAngle can be indexed

---
 pytorch3d/transforms/transform3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..1a92553 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
@@ -703,7 +703,8 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        # Subclasses like RotateAxisAngle are not constructed from a rotation matrix.
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From 466859da71755d729a50370d649d1a28bfff87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 008/147] fix: fast matrix_to_axis_angle of half turns about
 any axis and in any batch

The axis of near-half turns was the first row of (R + I) / 2, which is zero for
turns about Y or Z, was normalised over the whole batch, and did not follow the
sign of the antisymmetric part.
---
 pytorch3d/transforms/rotation_conversions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index eb1a42c..6735ef6 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -547,11 +547,15 @@ def matrix_to_axis_angle(matrix: torch.Tensor, fast: bool = False) -> torch.Tens
     )
 
     # this derives from: nnT = (R + 1) / 2
-    n = 0.5 * (
-        matrix[near_pi][..., 0, :]
-        + torch.eye(1, 3, dtype=matrix.dtype, device=matrix.device)
+    nnT = 0.5 * (
+        matrix[near_pi] + torch.eye(3, dtype=matrix.dtype, device=matrix.device)
     )
-    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n)
+    # the row of each rotation's largest diagonal entry is parallel to n and not 0
+    row = torch.diagonal(nnT, dim1=-2, dim2=-1).argmax(dim=-1)
+    n = F.normalize(nnT[torch.arange(len(nnT), device=matrix.device), row], dim=-1)
+    # of n and -n take the one which omegas points along
+    flip = ((n * omegas[near_pi]).sum(dim=-1, keepdim=True) < 0).to(n)
+    axis_angles[near_pi] = angles[near_pi] * n * (1 - 2 * flip)
 
     return axis_angles
 
-- 
2.43.0


From 877c8d9c900c3c87f5edddbb8d22210e97dc61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 009/147] fix: quaternion_to_axis_angle is accurate for
 quaternions close to -1

sinc next to pi loses all precision in float32, so the converted rotation was
off by up to the angle itself. The equivalent quaternion with a non-negative
real part does not have this problem.
---
 pytorch3d/transforms/rotation_conversions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index 6735ef6..451c079 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -594,6 +594,8 @@ def quaternion_to_axis_angle(quaternions: torch.Tensor) -> torch.Tensor:
             turned anticlockwise in radians around the vector's
             direction.
     """
+    # q and -q are the same rotation
+    quaternions = standardize_quaternion(quaternions)
     norms = torch.norm(quaternions[..., 1:], p=2, dim=-1, keepdim=True)
     half_angles = torch.atan2(norms, quaternions[..., :1])
     sin_half_angles_over_angles = 0.5 * torch.sinc(half_angles / torch.pi)
-- 
2.43.0


From aedba5ff9577646f4cd33c3ffc718570fe319b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 010/147] fix: unproject_points honours the camera parameters
 given in the call

FoVPerspectiveCameras ignored them except for the depth, and the from_ndc
conversion of the (Perspective|Orthographic)Cameras ignored image_size and
principal_point.
---
 pytorch3d/renderer/cameras.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..615e0f7 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -724,9 +724,9 @@ class FoVPerspectiveCameras(CamerasBase):
 
         # obtain the relevant transformation to ndc
         if world_coordinates:
-            to_ndc_transform = self.get_full_projection_transform()
+            to_ndc_transform = self.get_full_projection_transform(**kwargs.copy())
         else:
-            to_ndc_transform = self.get_projection_transform()
+            to_ndc_transform = self.get_projection_transform(**kwargs.copy())
 
         if scaled_depth_input:
             # the input is scaled depth, so we don't have to do anything
@@ -1174,7 +1174,7 @@ class PerspectiveCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1414,7 +1414,7 @@ class OrthographicCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
-- 
2.43.0


From 0b0e970051fdadf8abe191cce7d04344a563a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 011/147] fix: look_at_rotation returns a rotation for vertical
 and nearly vertical views

When up and the viewing direction were parallel, or closer than about 1e-5,
the x and y axes came out as zero or with a length below one.
---
 pytorch3d/renderer/cameras.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 615e0f7..fe17f94 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1682,14 +1682,16 @@ def look_at_rotation(
             msg = "Expected arg %s to have shape (N, 3); got %r"
             raise ValueError(msg % (n, t.shape))
     z_axis = F.normalize(at - camera_position, eps=1e-5)
-    x_axis = F.normalize(torch.cross(up, z_axis, dim=1), eps=1e-5)
-    y_axis = F.normalize(torch.cross(z_axis, x_axis, dim=1), eps=1e-5)
-    is_close = torch.isclose(x_axis, torch.tensor(0.0), atol=5e-3).all(
-        dim=1, keepdim=True
+    x_axis = torch.cross(up, z_axis, dim=1)
+    # If up and z_axis are parallel, any direction perpendicular to z_axis will do.
+    other_axis = F.one_hot(z_axis.abs().argmin(dim=1), num_classes=3).to(z_axis)
+    x_axis = torch.where(
+        torch.norm(x_axis, dim=1, keepdim=True) < 1e-10,
+        torch.cross(other_axis, z_axis, dim=1),
+        x_axis,
     )
-    if is_close.any():
-        replacement = F.normalize(torch.cross(y_axis, z_axis, dim=1), eps=1e-5)
-        x_axis = torch.where(is_close, replacement, x_axis)
+    y_axis = F.normalize(torch.cross(z_axis, x_axis, dim=1))
+    x_axis = F.normalize(torch.cross(y_axis, z_axis, dim=1))
     R = torch.cat((x_axis[:, None, :], y_axis[:, None, :], z_axis[:, None, :]), dim=1)
     return R.transpose(1, 2)
 
-- 
2.43.0


From 1c790472ee513d08ce2ac879d52094d72d4e2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 012/147] fix: FishEyeCameras.unproject_points is finite in the
 distortion center

---
 pytorch3d/renderer/fisheyecameras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 551e94d..b3df485 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -348,7 +348,9 @@ class FishEyeCameras(CamerasBase):
         theta = self._get_theta_from_norm_xr_yr(radial_params, xr_yrNorm)
         # get the point coordinates:
         point3d_est = theta.new_ones(*sh, 3)
-        point3d_est[..., :2] = theta.tan()[..., None] / xr_yrNorm[..., None] * xr_yr
+        # the direction does not matter in the distortion center
+        norm = torch.where(xr_yrNorm > 0, xr_yrNorm, torch.ones_like(xr_yrNorm))
+        point3d_est[..., :2] = (theta.tan() / norm)[..., None] * xr_yr
         return point3d_est
 
     def unproject_points(
-- 
2.43.0


From ad9e8f0ce96e5bec591945af946722820b9ddb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 013/147] fix: CPU point-mesh distances with empty clouds or
 meshes in the batch

After an empty batch element the kernel compared every later point (or face)
with the wrong element's faces (points).
---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 35c0b8c..2b79a7f 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -184,7 +184,7 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
   int64_t b_batch_start = 0, b_batch_end = 0;
   int64_t batch_idx = 0;
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
-    if (a_n == a_batch_end) {
+    while (a_n == a_batch_end) { // more than once if batch elements are empty
       ++batch_idx;
       b_batch_start = b_batch_end;
       if (batch_idx == BATCHES) {
-- 
2.43.0


From ce24cad20baad2266d6a9ebffda97346784d8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 014/147] fix: gradient of alpha compositing is right for fully
 opaque points

---
 .../csrc/compositing/alpha_composite_cpu.cpp  | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
index 41bc0ec..c28a514 100644
--- a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
+++ b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
@@ -11,9 +11,6 @@
 #include <cmath>
 #include <vector>
 
-// Epsilon float
-const float kEps = 1e-9;
-
 torch::Tensor alphaCompositeCpuForward(
     const torch::Tensor& features,
     const torch::Tensor& alphas,
@@ -79,6 +76,9 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
   auto grad_features_a = grad_features.accessor<float, 2>();
   auto grad_alphas_a = grad_alphas.accessor<float, 4>();
 
+  // Transmittance in front of each of the K points of a pixel
+  std::vector<float> cum_alphas(K);
+
   // Iterate over the batch
   for (int b = 0; b < B; ++b) {
     // Iterate over the features
@@ -96,25 +96,25 @@ std::tuple<torch::Tensor, torch::Tensor> alphaCompositeCpuBackward(
               continue;
             }
             float alpha = alphas_a[b][k][j][i];
-            grad_alphas_a[b][k][j][i] +=
-                grad_outputs_a[b][c][j][i] * features_a[c][n_idx] * cum_alpha;
+            cum_alphas[k] = cum_alpha;
             grad_features_a[c][n_idx] +=
                 grad_outputs_a[b][c][j][i] * cum_alpha * alpha;
+            cum_alpha = cum_alpha * (1 - alpha);
+          }
 
-            // Iterate over all (K-1) nearer points to update gradient
-            for (int t = 0; t < k; t++) {
-              int64_t t_idx = points_idx_a[b][t][j][i];
-              // Sentinal value is -1, indicating no point overlaps this pixel
-              if (t_idx < 0) {
-                continue;
-              }
-              float alpha_tvalue = alphas_a[b][t][j][i];
-              grad_alphas_a[b][t][j][i] -= grad_outputs_a[b][c][j][i] *
-                  features_a[c][n_idx] * cum_alpha * alpha /
-                  (1 - alpha_tvalue + kEps);
+          // The composite of all the points behind the current one, as seen
+          // without the current one and the ones in front of it.
+          float behind = 0.;
+          for (int k = K - 1; k >= 0; --k) {
+            int64_t n_idx = points_idx_a[b][k][j][i];
+            if (n_idx < 0) {
+              continue;
             }
-
-            cum_alpha = cum_alpha * (1 - alpha);
+            float alpha = alphas_a[b][k][j][i];
+            float feature = features_a[c][n_idx];
+            grad_alphas_a[b][k][j][i] +=
+                grad_outputs_a[b][c][j][i] * cum_alphas[k] * (feature - behind);
+            behind = alpha * feature + (1 - alpha) * behind;
           }
         }
       }
-- 
2.43.0


From eac0f83fd01b005d24d75b7c6649ee321fddf187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 015/147] fix: gradient of normalized weighted sum does not
 vary the clamped sum of weights

---
 pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
index 840ef3d..3f70d5c 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
@@ -115,6 +115,7 @@ std::tuple<torch::Tensor, torch::Tensor> weightedSumNormCpuBackward(
 
           if (t_alpha < kEps) {
             t_alpha = kEps;
+            t_alphafs = 0.; // the clamped sum does not depend on alphas
           }
 
           // Iterate through the closest K points for this pixel ordered by z
-- 
2.43.0


From 867cf8c8866f6001285e2dedacd6bc7b0e6dd068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 016/147] fix: marching cubes keeps the triangles of a cell
 that follow a degenerate one

---
 .../marching_cubes/marching_cubes_cpu.cpp     | 19 +++++++++---------
 pytorch3d/ops/marching_cubes.py               | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
index fa128e7..184c319 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
@@ -68,16 +68,17 @@ std::tuple<at::Tensor, at::Tensor, at::Tensor> MarchingCubesCpu(
 
           // Check if the triangle face is degenerate. A triangle face
           // is degenerate if any of the two verices share the same 3D position
-          if ((j + 1) % 3 == 0 && ps[0] != ps[1] && ps[1] != ps[2] &&
-              ps[2] != ps[0]) {
-            for (int k = 0; k < 3; k++) {
-              int64_t v = tri.at(k);
-              edge_id_to_v[v] = ps.at(k);
-              if (!uniq_edge_id.count(v)) {
-                uniq_edge_id[v] = verts.size();
-                verts.push_back(edge_id_to_v[v]);
+          if ((j + 1) % 3 == 0) {
+            if (ps[0] != ps[1] && ps[1] != ps[2] && ps[2] != ps[0]) {
+              for (int k = 0; k < 3; k++) {
+                int64_t v = tri.at(k);
+                edge_id_to_v[v] = ps.at(k);
+                if (!uniq_edge_id.count(v)) {
+                  uniq_edge_id[v] = verts.size();
+                  verts.push_back(edge_id_to_v[v]);
+                }
+                faces.push_back(uniq_edge_id[v]);
               }
-              faces.push_back(uniq_edge_id[v]);
             }
             tri.clear();
             ps.clear();
diff --git a/pytorch3d/ops/marching_cubes.py b/pytorch3d/ops/marching_cubes.py
index b6f90d8..d546fd0 100644
--- a/pytorch3d/ops/marching_cubes.py
+++ b/pytorch3d/ops/marching_cubes.py
@@ -198,18 +198,14 @@ def marching_cubes_naive(
                         ps.append(interp_points[edge])
                         # when the isolevel are the same as the edge endpoints, the interploated
                         # vertices can share the same values, and lead to degenerate triangles.
-                        if (
-                            (i + 1) % 3 == 0
-                            and ps[0] != ps[1]
-                            and ps[1] != ps[2]
-                            and ps[2] != ps[0]
-                        ):
-                            for j, edge_id in enumerate(tri):
-                                edge_id_to_v[edge_id] = ps[j]
-                                if edge_id not in uniq_edge_id:
-                                    uniq_edge_id[edge_id] = len(verts)
-                                    verts.append(edge_id_to_v[edge_id])
-                            faces.append([uniq_edge_id[tri[j]] for j in range(3)])
+                        if (i + 1) % 3 == 0:
+                            if ps[0] != ps[1] and ps[1] != ps[2] and ps[2] != ps[0]:
+                                for j, edge_id in enumerate(tri):
+                                    edge_id_to_v[edge_id] = ps[j]
+                                    if edge_id not in uniq_edge_id:
+                                        uniq_edge_id[edge_id] = len(verts)
+                                        verts.append(edge_id_to_v[edge_id])
+                                faces.append([uniq_edge_id[tri[j]] for j in range(3)])
                             tri = []
                             ps = []
 
-- 
2.43.0


From e8596fcd3301d2c2197a4aa21cccd300ce15dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 017/147] fix: Taubin smoothing leaves vertices without edges
 in place instead of NaN

---
 pytorch3d/ops/mesh_filtering.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/ops/mesh_filtering.py b/pytorch3d/ops/mesh_filtering.py
index d8f2943..543513c 100644
--- a/pytorch3d/ops/mesh_filtering.py
+++ b/pytorch3d/ops/mesh_filtering.py
@@ -47,13 +47,14 @@ def taubin_smoothing(
     edges = meshes.edges_packed()  # E x 3
 
     for _ in range(num_iter):
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - lambd) * verts + lambd * torch.mm(L, verts) / total_weight
-
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - mu) * verts + mu * torch.mm(L, verts) / total_weight
+        for weight in (lambd, mu):
+            L = norm_laplacian(verts, edges)
+            total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
+            # vertices without any edge stay where they are
+            isolated = total_weight == 0
+            total_weight = total_weight.masked_fill(isolated, 1.0)
+            smoothed = (1 - weight) * verts + weight * torch.mm(L, verts) / total_weight
+            verts = torch.where(isolated, verts, smoothed)
 
     verts_list = struct_utils.packed_to_list(
         verts, meshes.num_verts_per_mesh().tolist()
-- 
2.43.0


From 15c198a57708230775b70e0c93d703c3d24f258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 018/147] fix: packed_to_padded and padded_to_packed of empty
 data with trailing dimensions

---
 pytorch3d/ops/packed_to_padded.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/packed_to_padded.py b/pytorch3d/ops/packed_to_padded.py
index 8bc18c2..51ff4a1 100644
--- a/pytorch3d/ops/packed_to_padded.py
+++ b/pytorch3d/ops/packed_to_padded.py
@@ -93,7 +93,7 @@ def packed_to_padded(
     if n_dims == 1:
         inputs = inputs.unsqueeze(1)
     else:
-        inputs = inputs.reshape(input_shape[0], -1)
+        inputs = inputs.flatten(start_dim=1)
     inputs_padded = _PackedToPadded.apply(inputs, first_idxs, max_size)
     # if flat is True, reshape output to (N, max_size) from (N, max_size, 1)
     # else reshape output to (N, max_size, ...)
@@ -190,11 +190,11 @@ def padded_to_packed(
     if n_dims == 2:
         inputs = inputs.unsqueeze(2)
     else:
-        inputs = inputs.reshape(*input_shape[:2], -1)
+        inputs = inputs.flatten(start_dim=2)
     inputs_packed = _PaddedToPacked.apply(inputs, first_idxs, num_inputs)
     # if input is flat, reshape output to (F,) from (F, 1)
     # else reshape output to (F, ...)
     if n_dims == 2:
         return inputs_packed.squeeze(1)
 
-    return inputs_packed.view(-1, *input_shape[2:])
+    return inputs_packed.view(num_inputs, *input_shape[2:])
-- 
2.43.0


From fbb5008688a77c4460ceedb37e3231371cd93b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 019/147] fix: list_to_padded of tensors which are all empty

---
 pytorch3d/structures/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/structures/utils.py b/pytorch3d/structures/utils.py
index 6c0c4f7..c161f85 100644
--- a/pytorch3d/structures/utils.py
+++ b/pytorch3d/structures/utils.py
@@ -62,9 +62,8 @@ def list_to_padded(
         raise ValueError("All items have to have the same number of dimensions!")
 
     if pad_size is None:
-        pad_dims = [
-            max(y.shape[dim] for y in x if len(y) > 0) for dim in range(x[0].ndim)
-        ]
+        nonempty = [y for y in x if len(y) > 0] or x
+        pad_dims = [max(y.shape[dim] for y in nonempty) for dim in range(x[0].ndim)]
     else:
         if any(len(pad_size) != y.ndim for y in x):
             raise ValueError("Pad size must contain target size for all dimensions.")
-- 
2.43.0


From 4c8ffa9386a348e736b36df6cf8dd41036fa4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 020/147] fix: indexing Volumes keeps align_corners and accepts
 tuples

---
 pytorch3d/structures/volumes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..8df3981 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -285,7 +285,10 @@ class Volumes:
         """
         if isinstance(index, int):
             index = torch.LongTensor([index])
-        elif isinstance(index, (slice, list, tuple)):
+        elif isinstance(index, tuple):
+            # a tuple would address several dimensions of the tensors
+            index = list(index)
+        elif isinstance(index, (slice, list)):
             pass
         elif torch.is_tensor(index):
             if index.dim() != 1 or index.dtype.is_floating_point:
@@ -297,6 +300,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From 6d9b27225c095ed418290a477593c4477b04fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 021/147] fix: coordinate grid of Volumes with one voxel per
 side or of different sizes with align_corners=False

---
 pytorch3d/structures/volumes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 8df3981..70e99ce 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -854,10 +854,14 @@ class VolumeLocator:
         vol_coords_local = torch.stack((X, Y, Z), dim=3)[None].repeat(ba, 1, 1, 1, 1)
 
         # get grid sizes relative to the maximal volume size
-        grid_sizes_relative = (
-            torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32)
-            - 1
-        ) / (grid_sizes - 1).float()
+        num_intervals = (
+            torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32),
+            grid_sizes.float(),
+        )
+        if self._align_corners:
+            # a single voxel has no interval to its neighbor
+            num_intervals = tuple((n - 1).clamp(min=1) for n in num_intervals)
+        grid_sizes_relative = num_intervals[0] / num_intervals[1]
 
         if (grid_sizes_relative != 1.0).any():
             # if any of the relative sizes != 1.0, adjust the grid
-- 
2.43.0


From 006b4a7e65e6b469730456ddc01b6841c1559cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 022/147] fix: Volumes.update_padded accepts padded tensors of
 grids with different sizes

---
 pytorch3d/structures/volumes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 70e99ce..2d0092a 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -390,13 +390,26 @@ class Volumes:
             Volumes with updated features and densities
         """
         new = copy.copy(self)
-        new._set_densities(new_densities)
+        new._set_padded("densities", new_densities)
         if new_features is None:
             new._features = None
         else:
-            new._set_features(new_features)
+            new._set_padded("features", new_features)
         return new
 
+    def _set_padded(self, var_name: str, x: _TensorBatch) -> None:
+        size = self._densities.shape
+        if (
+            torch.is_tensor(x)
+            and x.ndim == 5
+            and x.device == self.device
+            and (x.shape[0], x.shape[2:]) == (size[0], size[2:])
+        ):
+            # padded tensor, possibly of grids with different sizes
+            setattr(self, "_" + var_name, x)
+        else:
+            self._set_densities_features(var_name, x)
+
     def _set_features(self, features: _TensorBatch) -> None:
         self._set_densities_features("features", features)
 
-- 
2.43.0


From fb998bd94ff5cbc230ca7c70cbc55ba68a7ce40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 023/147] fix: Volumes can be cloned when their tensors are the
 result of differentiable operations

---
 pytorch3d/structures/volumes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2d0092a..45ab420 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -446,7 +446,12 @@ class Volumes:
         Returns:
             new Volumes object.
         """
-        return copy.deepcopy(self)
+        other = copy.copy(self)
+        other._densities = self._densities.clone()
+        if self._features is not None:
+            other._features = self._features.clone()
+        other.locator = self.locator.clone()
+        return other
 
     def to(self, device: Device, copy: bool = False) -> "Volumes":
         """
@@ -1151,7 +1156,10 @@ class VolumeLocator:
         Returns:
             new VolumeLocator object.
         """
-        return copy.deepcopy(self)
+        other = copy.copy(self)
+        other._grid_sizes = self._grid_sizes.clone()
+        other._local_to_world_transform = self._local_to_world_transform.clone()
+        return other
 
     def cpu(self) -> "VolumeLocator":
         return self.to("cpu")
-- 
2.43.0


From 5fd53e3535950ea784501405bd5fe6aef38b5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 024/147] fix: splatting points just outside the first voxel
 centers of a volume

---
 .../points_to_volumes/points_to_volumes.cu    | 38 ++++++++++++-------
 .../points_to_volumes_cpu.cpp                 | 38 ++++++++++++-------
 2 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
index 43d4ed5..a3357b3 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
@@ -98,13 +98,18 @@ __global__ void PointsToVolumesForwardKernel(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset);
       increment_location(x, y, z, 1);
     } else {
-      float x = 0, y = 0, z = 0;
-      float rx = std::modf(
-          (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
-          (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
-          (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
+      float rx =
+          (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset;
+      const float x = std::floor(rx);
+      rx -= x;
+      float ry =
+          (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset;
+      const float y = std::floor(ry);
+      ry -= y;
+      float rz =
+          (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset;
+      const float z = std::floor(rz);
+      rz -= z;
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight =
             (up_x ? rx : 1 - rx) * (up_y ? ry : 1 - ry) * (up_z ? rz : 1 - rz);
@@ -245,13 +250,18 @@ __global__ void PointsToVolumesBackwardKernel(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset);
       increment_location(x, y, z, 1);
     } else {
-      float x = 0, y = 0, z = 0;
-      float rx = std::modf(
-          (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
-          (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
-          (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
+      float rx =
+          (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset;
+      const float x = std::floor(rx);
+      rx -= x;
+      float ry =
+          (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset;
+      const float y = std::floor(ry);
+      ry -= y;
+      float rz =
+          (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset;
+      const float z = std::floor(rz);
+      rz -= z;
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight_x = (up_x ? rx : 1 - rx);
         float weight_y = (up_y ? ry : 1 - ry);
diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..39407f6 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -128,13 +128,18 @@ void PointsToVolumesForwardCpu(
         // rx is a number between 0 and 1 for the proportion in the x direction:
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
-        float x = 0, y = 0, z = 0;
-        float rx = std::modf(
-            (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
-            (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
-            (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
+        float rx =
+            (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset;
+        const float x = std::floor(rx);
+        rx -= x;
+        float ry =
+            (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset;
+        const float y = std::floor(ry);
+        ry -= y;
+        float rz =
+            (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset;
+        const float z = std::floor(rz);
+        rz -= z;
         // Define how to fractionally increment one of the 8 locations around
         // the point.
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
@@ -261,13 +266,18 @@ void PointsToVolumesBackwardCpu(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset);
         increment_location(x, y, z, 1);
       } else {
-        float x = 0, y = 0, z = 0;
-        float rx = std::modf(
-            (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
-            (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
-            (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
+        float rx =
+            (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset;
+        const float x = std::floor(rx);
+        rx -= x;
+        float ry =
+            (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset;
+        const float y = std::floor(ry);
+        ry -= y;
+        float rz =
+            (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset;
+        const float z = std::floor(rz);
+        rz -= z;
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
           float weight_y = (up_y ? ry : 1 - ry);
-- 
2.43.0


From b2563777540ffeba30414c05ce7933ecfee81120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 025/147] fix: adding points to volumes does not change the
 initial volumes in place

---
 pytorch3d/ops/points_to_volumes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index d099cea..7acf561 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -384,6 +384,15 @@ def add_points_features_to_volume_densities_features(
             .expand(volume_densities.shape[0], 3)
         )
 
+    # the operation works in place: keep the given volumes as they are
+    volume_densities = volume_densities.clone()
+    if volume_features is None:
+        volume_features = points_features.new_zeros(
+            ba, feature_dim, *volume_densities.shape[2:]
+        )
+    else:
+        volume_features = volume_features.clone()
+
     if _python:
         return _add_points_features_to_volume_densities_features_python(
             points_3d=points_3d,
-- 
2.43.0


From 8ac9cf2b84c0c8a03f131417cf3b2019ff26774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 026/147] fix: saving a glTF file leaves the mesh's texture
 coordinates alone and detaches

---
 pytorch3d/io/experimental_gltf_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2073d12..2e4e9d8 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -617,7 +617,7 @@ class _GLTFWriter:
         name = "Node-Mesh_%s" % key
         byte_offset = 0
         if key == "positions":
-            data = self.mesh.verts_packed().cpu().numpy()
+            data = self.mesh.verts_packed().detach().cpu().numpy()
             component_type = _ComponentType.FLOAT
             element_type = "VEC3"
             buffer_view = 0
@@ -627,7 +627,7 @@ class _GLTFWriter:
         elif key == "texcoords":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_uvs_list()[0].detach().cpu().numpy().copy()
             data[:, 1] = 1 - data[:, -1]  # flip y tex-coordinate
             element_type = "VEC2"
             buffer_view = 2
@@ -637,7 +637,7 @@ class _GLTFWriter:
         elif key == "texvertices":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_features_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_features_list()[0].detach().cpu().numpy()
             element_type = "VEC3"
             buffer_view = 2
             element_min = list(map(float, np.min(data, axis=0)))
@@ -715,7 +715,7 @@ class _GLTFWriter:
 
     def _write_image_buffer(self, **kwargs) -> Tuple[int, bytes]:
         # pyrefly: ignore [missing-attribute]
-        image_np = self.mesh.textures.maps_list()[0].cpu().numpy()
+        image_np = self.mesh.textures.maps_list()[0].detach().cpu().numpy()
         image_array = (image_np * 255.0).astype(np.uint8)
         im = Image.fromarray(image_array)
         with BytesIO() as f:
-- 
2.43.0


From 6203dc28da9494765df446fcb83a1a56cfe18d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 027/147] fix: glTF buffers and chunks are padded to 4 bytes

---
 pytorch3d/io/experimental_gltf_io.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2e4e9d8..9454438 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -127,6 +127,13 @@ class OurEncoder(json.JSONEncoder):
         return super(OurEncoder, self).default(obj)
 
 
+def _padded_length(length: int) -> int:
+    """
+    The length rounded up to the 4 byte alignment which accessors and chunks need.
+    """
+    return (length + 3) // 4 * 4
+
+
 def _read_header(stream: BinaryIO) -> Optional[Tuple[int, int]]:
     header = stream.read(12)
     magic, version, length = struct.unpack("<III", header)
@@ -757,10 +764,10 @@ class _GLTFWriter:
         # bufferViews for positions, texture coords and indices
         byte_offset = 0
         self._write_bufferview("positions", byte_length=pos_byte, offset=byte_offset)
-        byte_offset += pos_byte
+        byte_offset += _padded_length(pos_byte)
 
         self._write_bufferview("indices", byte_length=idx_byte, offset=byte_offset)
-        byte_offset += idx_byte
+        byte_offset += _padded_length(idx_byte)
 
         if include_textures:
             if texcoords:
@@ -771,20 +778,21 @@ class _GLTFWriter:
                 self._write_bufferview(
                     "texvertices", byte_length=tex_byte, offset=byte_offset
                 )
-            byte_offset += tex_byte
+            byte_offset += _padded_length(tex_byte)
 
         # image bufferView
         include_image = False
         if self.mesh.textures is not None and hasattr(self.mesh.textures, "maps_list"):
             include_image = True
             image_byte, image_data = self._write_image_buffer(offset=byte_offset)
-            byte_offset += image_byte
+            byte_offset += _padded_length(image_byte)
 
         # buffers
         self._json_data["buffers"].append({"byteLength": int(byte_offset)})
 
         # organize into a glb
         json_bytes = bytes(json.dumps(self._json_data, cls=OurEncoder), "utf-8")
+        json_bytes = json_bytes.ljust(_padded_length(len(json_bytes)))
         json_length = len(json_bytes)
 
         # write header
@@ -800,12 +808,13 @@ class _GLTFWriter:
 
         # write binary data
         self.buffer_stream.write(struct.pack("<II", byte_offset, _BINARY_CHUNK_TYPE))
-        self.buffer_stream.write(pos_data)
-        self.buffer_stream.write(idx_data)
+        all_data = [pos_data.tobytes(), idx_data.tobytes()]
         if include_textures:
-            self.buffer_stream.write(tex_data)
+            all_data.append(tex_data.tobytes())
         if include_image:
-            self.buffer_stream.write(image_data)
+            all_data.append(image_data)
+        for data in all_data:
+            self.buffer_stream.write(data.ljust(_padded_length(len(data)), b"\0"))
 
 
 class MeshGlbFormat(MeshFormatInterpreter):
-- 
2.43.0


From a2a118df05f26cad907ae9175b7e282bffa79a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 028/147] fix: glTF files of more than 65535 vertices use 32
 bit indices

---
 pytorch3d/io/experimental_gltf_io.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 9454438..0142309 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -620,6 +620,12 @@ class _GLTFWriter:
         texture = {"sampler": 0, "source": 0}
         self._json_data["textures"].append(texture)
 
+    def _indices_component_type(self) -> _ComponentType:
+        # The largest unsigned short, 65535, is not allowed as an index.
+        if self.mesh.verts_packed().shape[0] > 65535:
+            return _ComponentType.UNSIGNED_INT
+        return _ComponentType.UNSIGNED_SHORT
+
     def _write_accessor_json(self, key: str) -> Tuple[int, np.ndarray]:
         name = "Node-Mesh_%s" % key
         byte_offset = 0
@@ -651,7 +657,7 @@ class _GLTFWriter:
             element_max = list(map(float, np.max(data, axis=0)))
             byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
         elif key == "indices":
-            component_type = _ComponentType.UNSIGNED_SHORT
+            component_type = self._indices_component_type()
             data = (
                 self.mesh.faces_packed()
                 .cpu()
@@ -662,9 +668,7 @@ class _GLTFWriter:
             buffer_view = 1
             element_min = list(map(int, np.min(data, keepdims=True)))
             element_max = list(map(int, np.max(data, keepdims=True)))
-            byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
-            )
+            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[component_type]]
         else:
             raise NotImplementedError(
                 "invalid key accessor, should be one of positions, indices or texcoords"
@@ -708,9 +712,6 @@ class _GLTFWriter:
             target = _TargetType.ELEMENT_ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
-            byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
-            )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
 
         bufferview["target"] = target
-- 
2.43.0


From 01b83ce595a634a378ff1b26f9c60262ca40b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 029/147] fix: glTF vertex colours with 4 channels are written
 as VEC4

---
 pytorch3d/io/experimental_gltf_io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 0142309..0d86089 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -651,11 +651,13 @@ class _GLTFWriter:
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
             data = self.mesh.textures.verts_features_list()[0].detach().cpu().numpy()
-            element_type = "VEC3"
+            if data.shape[1] not in (3, 4):
+                raise ValueError("Vertex colors must have 3 or 4 channels.")
+            element_type = "VEC%d" % data.shape[1]
             buffer_view = 2
             element_min = list(map(float, np.min(data, axis=0)))
             element_max = list(map(float, np.max(data, axis=0)))
-            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            byte_per_element = data.shape[1] * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
         elif key == "indices":
             component_type = self._indices_component_type()
             data = (
@@ -708,7 +710,11 @@ class _GLTFWriter:
             target = _TargetType.ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "texvertices":
-            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            # pyrefly: ignore [missing-attribute]
+            n_channels = self.mesh.textures.verts_features_list()[0].shape[1]
+            byte_per_element = (
+                n_channels * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
-- 
2.43.0


From c90da1bedb6b31b5a951e431e8cd3665a711bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 030/147] fix: glTF texture images are rounded to the nearest 8
 bit value

---
 pytorch3d/io/experimental_gltf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 0d86089..a093f30 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -730,7 +730,7 @@ class _GLTFWriter:
     def _write_image_buffer(self, **kwargs) -> Tuple[int, bytes]:
         # pyrefly: ignore [missing-attribute]
         image_np = self.mesh.textures.maps_list()[0].detach().cpu().numpy()
-        image_array = (image_np * 255.0).astype(np.uint8)
+        image_array = np.rint(image_np.clip(0, 1) * 255.0).astype(np.uint8)
         im = Image.fromarray(image_array)
         with BytesIO() as f:
             im.save(f, format="PNG")
-- 
2.43.0


From 89e9a9bb6e8948b2154d772e69ff8bb7a96ce3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 031/147] fix: glTF node matrices are applied as stored, not
 transposed

---
 pytorch3d/io/experimental_gltf_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index a093f30..4771f0b 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -182,8 +182,10 @@ def _make_node_transform(node: Dict[str, Any]) -> Transform3d:
     Transform3d format.
     """
     array = node.get("matrix")
-    if array is not None:  # Stored in column-major order
-        M = np.array(array, dtype=np.float32).reshape(4, 4, order="F")
+    if array is not None:
+        # Stored in column-major order, acting on column vectors. A row-major
+        # reading is its transpose, which acts on row vectors as Transform3d does.
+        M = np.array(array, dtype=np.float32).reshape(4, 4)
         return Transform3d(matrix=torch.from_numpy(M))
 
     out = Transform3d()
-- 
2.43.0


From 548e4fa6df16f024e7f27d4bd8b2e7b55941f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 032/147] fix: glTF accessors with a stride may end with the
 last element

---
 pytorch3d/io/experimental_gltf_io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 4771f0b..68c15da 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -349,9 +349,14 @@ class _GLTFLoader:
         if byte_offset % item_size != 0:
             raise ValueError("Misaligned data")
         byte_length = element_count * element_byte_stride
-        buffer_view = binary_data[byte_offset : byte_offset + byte_length].view(dtype)[
-            "element"
-        ]
+        element_data = binary_data[byte_offset : byte_offset + byte_length]
+        # The last element need not be followed by a whole stride of data.
+        missing = byte_length - len(element_data)
+        if missing > element_byte_stride - item_size * item_count:
+            raise ValueError("Buffer did not have enough data for the accessor")
+        if missing > 0:
+            element_data = np.pad(element_data, (0, missing))
+        buffer_view = element_data.view(dtype)["element"]
 
         # Convert matrix data from column-major (OpenGL) to row-major order
         if element_type in ("MAT2", "MAT3", "MAT4"):
-- 
2.43.0


From c0744d13fdf76359f0f56d04edd3c47dfdcfe85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 033/147] fix: glTF integer vertex attributes are normalised

---
 pytorch3d/io/experimental_gltf_io.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 68c15da..a438165 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -372,15 +372,15 @@ class _GLTFLoader:
             return None
         primitive_attribute = self._access_data(accessor_index)
         if key == "JOINTS_0":
-            pass
-        elif dtype == np.uint8:
+            return primitive_attribute.astype(dtype)
+        if dtype != np.float32:
+            raise ValueError("Unexpected data type")
+        stored_dtype = primitive_attribute.dtype
+        primitive_attribute = primitive_attribute.astype(dtype)
+        if stored_dtype == np.uint8:
             primitive_attribute /= 255.0
-        elif dtype == np.uint16:
+        elif stored_dtype == np.uint16:
             primitive_attribute /= 65535.0
-        else:
-            if dtype != np.float32:
-                raise ValueError("Unexpected data type")
-        primitive_attribute = primitive_attribute.astype(dtype)
         return primitive_attribute
 
     def get_binary_data(self, buffer_index: int):
-- 
2.43.0


From 2ef47e956ced79d906b04440b8482481b3a37f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 034/147] fix: OBJ texture images are rounded to the nearest 8
 bit value

---
 pytorch3d/io/obj_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..a544b3e 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -794,8 +794,8 @@ def save_obj(
 
         # Save texture map to output folder
         # pyre-fixme[16] # undefined attribute cpu
-        texture_map = texture_map.detach().cpu() * 255.0
-        image = Image.fromarray(texture_map.numpy().astype(np.uint8))
+        texture_map = texture_map.detach().cpu().clamp(0, 1) * 255.0
+        image = Image.fromarray(texture_map.round().numpy().astype(np.uint8))
         with _open_file(image_path, path_manager, "wb") as im_f:
             image.save(im_f)
 
-- 
2.43.0


From 1ec3a52aa8f09dccf7c125724b2ae422db7916f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 035/147] fix: OBJ lines may separate the keyword with a tab

---
 pytorch3d/io/obj_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index a544b3e..2694823 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -473,26 +473,26 @@ def _parse_obj(f, data_dir: str):
                 materials_idx = len(material_names) - 1
             else:
                 materials_idx = material_names.index(material_name)
-        elif line.startswith("v "):  # Line is a vertex.
+        elif len(tokens) and tokens[0] == "v":  # Line is a vertex.
             vert = [float(x) for x in tokens[1:4]]
             if len(vert) != 3:
                 msg = "Vertex %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(vert), str(line)))
             verts.append(vert)
-        elif line.startswith("vt "):  # Line is a texture.
+        elif len(tokens) and tokens[0] == "vt":  # Line is a texture.
             tx = [float(x) for x in tokens[1:3]]
             if len(tx) != 2:
                 raise ValueError(
                     "Texture %s does not have 2 values. Line: %s" % (str(tx), str(line))
                 )
             verts_uvs.append(tx)
-        elif line.startswith("vn "):  # Line is a normal.
+        elif len(tokens) and tokens[0] == "vn":  # Line is a normal.
             norm = [float(x) for x in tokens[1:4]]
             if len(norm) != 3:
                 msg = "Normal %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(norm), str(line)))
             normals.append(norm)
-        elif line.startswith("f "):  # Line is a face.
+        elif len(tokens) and tokens[0] == "f":  # Line is a face.
             # Update face properties info.
             _parse_face(
                 line,
-- 
2.43.0


From 93dcf80d20656612b860b3e265679c3e5db663cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 036/147] fix: OBJ relative indices count back from the face's
 own line

---
 pytorch3d/io/obj_io.py | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 2694823..a75581a 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -35,6 +35,10 @@ _Aux = namedtuple(
 )
 
 
+# Stands for an index which refers to nothing. It differs from the padding, -1.
+_INVALID_INDEX = -2
+
+
 def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None):
     """
     Format indices and check for invalid values. Indices can refer to
@@ -55,23 +59,11 @@ def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None)
     Raises:
         ValueError if indices are not in a valid range.
     """
+    # The indices are already 0 based, see _resolve_index.
     faces_indices = _make_tensor(
         faces_indices, cols=3, dtype=torch.int64, device=device
     )
 
-    if pad_value is not None:
-        mask = faces_indices.eq(pad_value).all(dim=-1)
-
-    # Change to 0 based indexing.
-    faces_indices[(faces_indices > 0)] -= 1
-
-    # Negative indexing counts from the end.
-    faces_indices[(faces_indices < 0)] += max_index
-
-    if pad_value is not None:
-        # pyre-fixme[61]: `mask` is undefined, or not always defined.
-        faces_indices[mask] = pad_value
-
     return _check_faces_indices(faces_indices, max_index, pad_value)
 
 
@@ -363,10 +355,34 @@ class MeshObjFormat(MeshFormatInterpreter):
         return True
 
 
+def _resolve_index(index: str, n_values: int) -> int:
+    """
+    Convert an index from a face line to a 0 based index.
+
+    Args:
+        index: the text of the index, either 1 based or negative, in which case
+            it counts back from the last of the values defined before the face.
+        n_values: number of values defined before the face.
+
+    Returns:
+        0 based index, or _INVALID_INDEX. Positive indices may still be
+        too big, as the values they refer to may come after the face.
+    """
+    value = int(index)
+    if value > 0:
+        return value - 1
+    if -n_values <= value < 0:
+        return value + n_values
+    return _INVALID_INDEX
+
+
 def _parse_face(
     line,
     tokens,
     material_idx,
+    n_verts,
+    n_textures,
+    n_normals,
     faces_verts_idx,
     faces_normals_idx,
     faces_textures_idx,
@@ -380,14 +396,14 @@ def _parse_face(
 
     for vert_props in face_list:
         # Vertex index.
-        face_verts.append(int(vert_props[0]))
+        face_verts.append(_resolve_index(vert_props[0], n_verts))
         if len(vert_props) > 1:
             if vert_props[1] != "":
                 # Texture index is present e.g. f 4/1/1.
-                face_textures.append(int(vert_props[1]))
+                face_textures.append(_resolve_index(vert_props[1], n_textures))
             if len(vert_props) > 2:
                 # Normal index present e.g. 4/1/1 or 4//1.
-                face_normals.append(int(vert_props[2]))
+                face_normals.append(_resolve_index(vert_props[2], n_normals))
             if len(vert_props) > 3:
                 raise ValueError(
                     "Face vertices can only have 3 properties. \
@@ -498,6 +514,9 @@ def _parse_obj(f, data_dir: str):
                 line,
                 tokens,
                 materials_idx,
+                len(verts),
+                len(verts_uvs),
+                len(normals),
                 faces_verts_idx,
                 faces_normals_idx,
                 faces_textures_idx,
-- 
2.43.0


From 3bd1a2dc6172dd2b850fbf09cdc67fab15150880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 037/147] fix: saving a PLY mesh without faces does not fail on
 its empty normals

---
 pytorch3d/io/ply_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..0e6f10e 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -1450,7 +1450,8 @@ class MeshPlyFormat(MeshFormatInterpreter):
         verts = data.verts_list()[0]
         faces = data.faces_list()[0]
 
-        if data.has_verts_normals():
+        # A mesh without faces has no normals.
+        if data.has_verts_normals() and not data.isempty():
             verts_normals = data.verts_normals_list()[0]
         else:
             verts_normals = None
-- 
2.43.0


From 609ee9ba169e146f0477f9a41c1bd2d1a33c17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 038/147] fix: PLY vertices of three properties in another
 order than x, y, z

---
 pytorch3d/io/ply_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 0e6f10e..b0fc1c5 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -941,6 +941,7 @@ def _get_verts(header: _PlyHeader, elements: dict) -> _VertsData:
         and isinstance(vertex[0], np.ndarray)
         and vertex[0].ndim == 2
         and vertex[0].shape[1] == 3
+        and column_idxs.point_idxs == [0, 1, 2]
     ):
         return _VertsData(verts=_make_tensor(vertex[0], cols=3, dtype=torch.float32))
 
-- 
2.43.0


From ae3c5facf05f603ba4fdb7149fefb932925537e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 039/147] fix: PLY text elements with float32 and float64
 properties beside lists

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index b0fc1c5..9e09c12 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -414,7 +414,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
         raise ValueError("Too little data for an element.")
     if property.list_size_type is None:
         try:
-            if property.data_type in ["double", "float"]:
+            if _PLY_TYPES[property.data_type].struct_char in "fd":
                 datum.append(float(value))
             else:
                 datum.append(int(value))
-- 
2.43.0


From b15728b8459387d87bea5db1de113eba5a248525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 040/147] fix: OFF files without vertices can be loaded

---
 pytorch3d/io/off_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0ef4049..0b453db 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -180,6 +180,8 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
+    if n_verts == 0:
+        return np.zeros((0, 3), dtype=np.float32), None
     color_is_int = 3 == _count_next_line_periods(file)
     color_scale = 1 / 255.0 if color_is_int else 1
 
-- 
2.43.0


From 5f29d66b2f2a3eb4c356d30fbd1652f0bb144bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 041/147] fix: OFF integer colours are recognised from the
 colours alone

---
 pytorch3d/io/off_io.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0b453db..26a465b 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -16,7 +16,7 @@ http://www.geomview.org/docs/html/OFF.html .
 """
 
 import warnings
-from typing import cast, Optional, Tuple, Union
+from typing import cast, List, Optional, Tuple, Union
 
 import numpy as np
 import torch
@@ -36,10 +36,10 @@ def _is_line_empty(line: Union[str, bytes]) -> bool:
     return len(line) == 0 or line[:1] == b"#"
 
 
-def _count_next_line_periods(file) -> int:
+def _next_line_fields(file) -> List[bytes]:
     """
-    Returns the number of . characters before any # on the next
-    meaningful line.
+    Returns the whitespace separated values on the next contentful line,
+    without advancing.
     """
     old_offset = file.tell()
     line = file.readline()
@@ -48,10 +48,16 @@ def _count_next_line_periods(file) -> int:
         if len(line) == 0:
             raise ValueError("Premature end of file")
 
-    contents = line.split(b"#")[0]
-    count = contents.count(b".")
     file.seek(old_offset)
-    return count
+    return line.split(b"#")[0].split()
+
+
+def _are_integers(fields: List[bytes]) -> bool:
+    """
+    Whether the colors written as the given fields are integers
+    in the range 0 to 255, as opposed to floats in the range 0 to 1.
+    """
+    return not any(b"." in field or b"e" in field.lower() for field in fields)
 
 
 def _read_faces_lump(
@@ -140,7 +146,12 @@ def _read_faces(
     if n_faces == 0:
         return None, None
 
-    color_is_int = 0 == _count_next_line_periods(file)
+    fields = _next_line_fields(file)
+    try:
+        face_size = int(float(fields[0]))
+    except ValueError:
+        raise ValueError("Not enough face data.") from None
+    color_is_int = _are_integers(fields[1 + face_size :])
     color_scale = 1 / 255.0 if color_is_int else 1
 
     faces_ncolors_colors = _read_faces_lump(file, n_faces=n_faces, n_colors=None)
@@ -182,7 +193,7 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
 
     if n_verts == 0:
         return np.zeros((0, 3), dtype=np.float32), None
-    color_is_int = 3 == _count_next_line_periods(file)
+    color_is_int = _are_integers(_next_line_fields(file)[3:])
     color_scale = 1 / 255.0 if color_is_int else 1
 
     with warnings.catch_warnings():
-- 
2.43.0


From b155c7668fe5c81122b41dde0434fc2f91f7c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 042/147] fix: loading an OFF file honours
 include_textures=False

---
 pytorch3d/io/off_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 26a465b..cd74148 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -457,13 +457,13 @@ class MeshOffFormat(MeshFormatInterpreter):
             faces = torch.zeros((0, 3), dtype=torch.int64, device=device)
 
         textures = None
-        if "verts_colors" in data:
+        if include_textures and "verts_colors" in data:
             if "faces_colors" in data:
                 msg = "Faces colors ignored because vertex colors provided too."
                 warnings.warn(msg)
             verts_colors = torch.from_numpy(data["verts_colors"]).to(device)
             textures = TexturesVertex([verts_colors])
-        elif "faces_colors" in data:
+        elif include_textures and "faces_colors" in data:
             faces_colors = torch.from_numpy(data["faces_colors"]).to(device)
             textures = TexturesAtlas([faces_colors[:, None, None, :]])
 
-- 
2.43.0


From 8b1d781a06c4dd12defaf06fac4e0d2c408cfb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 043/147] fix: IO.save_mesh honours include_textures=False

---
 pytorch3d/io/pluggable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/io/pluggable.py b/pytorch3d/io/pluggable.py
index 4e9951a..6bf8abb 100644
--- a/pytorch3d/io/pluggable.py
+++ b/pytorch3d/io/pluggable.py
@@ -163,6 +163,10 @@ class IO:
         if len(data) != 1:
             raise ValueError("Can only save a single mesh.")
 
+        if not include_textures and data.textures is not None:
+            data = data.clone()
+            data.textures = None
+
         for mesh_interpreter in self.mesh_interpreters:
             success = mesh_interpreter.save(
                 data, path, path_manager=self.path_manager, binary=binary, **kwargs
-- 
2.43.0


From 83657ad33a8e8692487e4f158ce7507d3491e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 044/147] fix: OFF colours written without decimals are not
 read as integers

---
 pytorch3d/io/off_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index cd74148..02c4d54 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -316,7 +316,8 @@ def _write_off_data(
     if decimal_places is None:
         float_str = "%f"
     else:
-        float_str = "%" + ".%df" % decimal_places
+        # The # keeps the period, without which colors would be taken for integers.
+        float_str = "%" + "#.%df" % decimal_places
     np.savetxt(file, verts.cpu().detach().numpy(), float_str)
 
     if faces is not None:
-- 
2.43.0


From a24fa54903c21c82fed987c6d9c941e90934f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 045/147] fix: a PLY file ending inside its header is an error,
 not an endless loop

---
 pytorch3d/io/ply_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 9e09c12..63ca1e0 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -161,6 +161,8 @@ class _PlyHeader:
         self.obj_info: List[str] = []
         while True:
             line = f.readline()
+            if len(line) == 0:
+                raise ValueError("Premature end of file in the header.")
             if isinstance(line, bytes):
                 line = line.decode("ascii")
             line = line.strip()
-- 
2.43.0


From d7bcebe623936c91051407798172fad9048cc5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 046/147] fix: an OFF file ending before its counts is an
 error, not an endless loop

---
 pytorch3d/io/off_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 02c4d54..364d649 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -247,13 +247,13 @@ def _load_off_stream(file) -> dict:
     """
     header = file.readline()
 
-    while _is_line_empty(header):
+    while len(header) and _is_line_empty(header):
         header = file.readline()
 
     if header[:3].lower() == b"off":
-        header = header[3:]
+        header = header[3:] or file.readline()
 
-    while _is_line_empty(header):
+    while len(header) and _is_line_empty(header):
         header = file.readline()
 
     items = header.split()
-- 
2.43.0


From fc757ae1291b60befb6bfc8ec037025b82902f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 047/147] fix: interrupted checkpoint saves no longer leave an
 incomplete newest checkpoint

---
 pytorch3d/implicitron/tools/model_io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/tools/model_io.py b/pytorch3d/implicitron/tools/model_io.py
index d7942d0..523d008 100644
--- a/pytorch3d/implicitron/tools/model_io.py
+++ b/pytorch3d/implicitron/tools/model_io.py
@@ -58,17 +58,20 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
     This functions stores model files safely so that no model files exist on the
     file system in case the saving procedure gets interrupted.
 
-    This is done first by saving the model files to a temporary directory followed
-    by (atomic) moves to the target location. Note, that this can still result
-    in a corrupt set of model files in case interruption happens while performing
-    the moves. It is however quite improbable that a crash would occur right at
-    this time.
+    This is done first by saving the model files to a temporary directory, which
+    is on the same file system as the target location, followed by (atomic) moves
+    to the target location. The file with the model, whose presence marks a
+    checkpoint as existing, is moved last, so that an interruption in between
+    the moves does not leave an incomplete checkpoint to be found.
     """
     logger.info(f"saving model files safely to {fl}")
     # first store everything to a tmpdir
-    with tempfile.TemporaryDirectory() as tmpdir:
+    with tempfile.TemporaryDirectory(dir=os.path.split(fl)[0] or ".") as tmpdir:
         tmpfl = os.path.join(tmpdir, os.path.split(fl)[-1])
-        stored_tmp_fls = save_model(model, stats, tmpfl, optimizer=optimizer, cfg=cfg)
+        flstats, flmodel, flopt = save_model(
+            model, stats, tmpfl, optimizer=optimizer, cfg=cfg
+        )
+        stored_tmp_fls = (flstats, flopt, flmodel)
         tgt_fls = [
             (
                 os.path.join(os.path.split(fl)[0], os.path.split(tmpfl)[-1])
-- 
2.43.0


From 7fffd370f2fc4a614dcb84053bd81e9071af3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 048/147] fix: resuming training no longer decays the learning
 rate twice

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 2305979..8071ac2 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -160,6 +160,10 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
         if optimizer_state is not None:
             logger.info("Setting loaded optimizer state.")
             optimizer.load_state_dict(optimizer_state)
+            # The stored learning rates are already decayed. The scheduler below
+            # is stepped again from the beginning, so it needs the initial ones.
+            for group in optimizer.param_groups:
+                group["lr"] = group.get("initial_lr", group["lr"])
 
         # Initialize the learning rate scheduler
         if self.lr_policy.casefold() == "MultiStepLR".casefold():
-- 
2.43.0


From 42b1f19bbda18c0d0bd9527a508cb5b632454ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 049/147] fix: Stats.add_log_vars does not log a variable twice
 and accepts tuples

---
 pytorch3d/implicitron/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 2798b63..8dd7ba7 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -195,9 +195,9 @@ class Stats:
 
     def add_log_vars(self, added_log_vars):
         for add_log_var in added_log_vars:
-            if add_log_var not in self.stats:
+            if add_log_var not in self.log_vars:
                 logger.debug(f"Adding {add_log_var}")
-                self.log_vars.append(add_log_var)
+                self.log_vars = [*self.log_vars, add_log_var]
 
     def update(self, preds, time_start=None, freeze_iter=False, stat_set="train"):
         if self.epoch == -1:  # uninitialized
-- 
2.43.0


From 99511b948b8f971bae74b437c108e7d7dcd51fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 050/147] fix: Stats.plot_stats works with variables that are
 not logged yet

---
 pytorch3d/implicitron/tools/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 8dd7ba7..7671015 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -373,6 +373,8 @@ class Stats:
             vals = []
             stat_sets_now = []
             for stat_set in stat_sets:
+                if stat not in self.stats[stat_set]:  # not logged yet
+                    continue
                 val = self.stats[stat_set][stat].get_epoch_averages()
                 if val is None:
                     continue
-- 
2.43.0


From 8cecdbbfb77895103e5ecdb6854fcc1ef78d8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 051/147] fix: Stats.synchronize_logged_vars keeps the history
 of sets not logged in the last epoch

---
 pytorch3d/implicitron/tools/stats.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 7671015..4ebeda6 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -470,6 +470,14 @@ class Stats:
                     h = self.stats[stat_set][stat].history
                     if len(h) == 0:  # just never updated stat ... skip
                         continue
+                    elif len(h) <= self.epoch:
+                        # not logged in the latest epochs, keep the earlier ones
+                        logger.info(
+                            "incomplete stat %s:%s -> padding with default values (%1.2f)"
+                            % (stat_set, stat, default_val)
+                        )
+                        h.extend([default_val] for _ in range(len(h), self.epoch + 1))
+                        continue
                     else:
                         logger.info(
                             "incomplete stat %s:%s -> reseting with default values (%1.2f)"
-- 
2.43.0


From dfb2987efc27ab22003789e4a43ec329a50f2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 052/147] fix: sample_pdf on CPU does not write past the end of
 a batch split over threads

---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..b6bb34d 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -121,6 +121,9 @@ void SamplePdfCpu(
   const int64_t batch_elements_per_thread = 1 + (batch_size - 1) / n_threads;
   int64_t start_batch = 0;
   for (int iThread = 0; iThread < n_threads - 1; ++iThread) {
+    // Rounding up means that the last threads may have fewer elements, or none.
+    const int64_t end_batch =
+        std::min(start_batch + batch_elements_per_thread, batch_size);
     threads.emplace_back(
         SamplePdfCpu_worker,
         bins,
@@ -128,8 +131,8 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
-    start_batch += batch_elements_per_thread;
+        end_batch);
+    start_batch = end_batch;
   }
 
   // The remaining batch elements are calculated in this threads. If nThreads is
-- 
2.43.0


From afb6d6ec8ad7973ff1ac2b613680852fef3e3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 053/147] fix: sample_points_from_meshes can return textures of
 batches with empty meshes

---
 pytorch3d/ops/sample_points_from_meshes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..b0b33dc 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,8 +125,11 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # Empty meshes have no face, so their rows are left at -1.
+        pix_to_face = sample_face_idxs.new_full((num_meshes, num_samples, 1, 1), -1)
+        pix_to_face[meshes.valid] = sample_face_idxs[:, :, None, None]  # NxSx1x1
+        bary = w0.new_zeros((num_meshes, num_samples, 1, 1, 3))  # NxSx1x1x3
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)[:, :, None, None]
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
             (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
@@ -136,6 +139,7 @@ def sample_points_from_meshes(
         )
         textures = meshes.sample_textures(fragments)  # NxSx1x1xC
         textures = textures[:, :, 0, 0, :]  # NxSxC
+        textures = textures.masked_fill(~meshes.valid[:, None, None], 0)
 
     # return
     # TODO(gkioxari) consider returning a Pointclouds instance [breaking]
-- 
2.43.0


From 8c9f84b67e8d5f269a7ac4b79357c0c0d5cb1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 054/147] fix: sample more rays per image than there are pixels

---
 pytorch3d/renderer/implicit/raysampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index 222e024..ecdd3dd 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -592,7 +592,10 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
         # this is probably rare, so we don't mind sampling twice
         res = torch.multinomial(input, num_samples, replacement=True)
         no_repl = (input > 0.0).sum(dim=-1) >= num_samples
-        res[no_repl] = torch.multinomial(input[no_repl], num_samples, replacement=False)
+        if no_repl.any():
+            res[no_repl] = torch.multinomial(
+                input[no_repl], num_samples, replacement=False
+            )
         return res
 
     # in some versions of Pytorch, zero probabilty samples can be drawn without an error
-- 
2.43.0


From 103420ffbbc1f5ae199350481dd5e9826b91d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 055/147] fix: VolumeSampler looks up batches of volumes of
 different sizes in their own grids

---
 pytorch3d/renderer/implicit/renderer.py | 46 +++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 963f7d0..89654d2 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -302,6 +302,36 @@ class VolumeSampler(torch.nn.Module):
         directions_transform = Transform3d(matrix=directions_transform_matrix)
         return directions_transform
 
+    def _grid_sample(
+        self, padded: torch.Tensor, points_local: torch.Tensor
+    ) -> torch.Tensor:
+        """
+        Sample the padded `(minibatch, dim, depth, height, width)` tensor of
+        the densities or features of the volumes at local coordinates.
+        """
+
+        def sample(grid: torch.Tensor, points: torch.Tensor) -> torch.Tensor:
+            return torch.nn.functional.grid_sample(
+                grid,
+                points,
+                mode=self._sample_mode,
+                padding_mode=self._padding_mode,
+                align_corners=self._volumes.get_align_corners(),
+            )
+
+        grid_sizes = self._volumes.get_grid_sizes().tolist()
+        if all(size == list(padded.shape[2:]) for size in grid_sizes):
+            return sample(padded, points_local)
+
+        # the local coordinates of each volume span its own, unpadded, grid
+        return torch.cat(
+            [
+                sample(padded[i : i + 1, :, :d, :h, :w], points_local[i : i + 1])
+                for i, (d, h, w) in enumerate(grid_sizes)
+            ],
+            dim=0,
+        )
+
     def forward(
         self, ray_bundle: Union[RayBundle, HeterogeneousRayBundle], **kwargs
     ) -> Tuple[torch.Tensor, torch.Tensor]:
@@ -381,13 +411,7 @@ class VolumeSampler(torch.nn.Module):
         )
 
         # run the grid sampler on the volumes densities
-        rays_densities = torch.nn.functional.grid_sample(
-            volumes_densities,
-            rays_points_local_flat,
-            mode=self._sample_mode,
-            padding_mode=self._padding_mode,
-            align_corners=self._volumes.get_align_corners(),
-        )
+        rays_densities = self._grid_sample(volumes_densities, rays_points_local_flat)
 
         # permute the dimensions & reshape densities after sampling
         rays_densities = rays_densities.permute(0, 2, 3, 4, 1).view(
@@ -399,13 +423,7 @@ class VolumeSampler(torch.nn.Module):
             dim_feature = 0
             _, rays_features = rays_densities.split([dim_density, dim_feature], dim=-1)
         else:
-            rays_features = torch.nn.functional.grid_sample(
-                volumes_features,
-                rays_points_local_flat,
-                mode=self._sample_mode,
-                padding_mode=self._padding_mode,
-                align_corners=self._volumes.get_align_corners(),
-            )
+            rays_features = self._grid_sample(volumes_features, rays_points_local_flat)
 
             # permute the dimensions & reshape features after sampling
             rays_features = rays_features.permute(0, 2, 3, 4, 1).view(
-- 
2.43.0


From 39582a1b0de998b6bb500bffcc31cc5680e9f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 056/147] fix: chunks of a packed ray bundle keep all camera
 ids

---
 pytorch3d/implicitron/models/utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/implicitron/models/utils.py b/pytorch3d/implicitron/models/utils.py
index 8f2f4e7..cc9bedc 100644
--- a/pytorch3d/implicitron/models/utils.py
+++ b/pytorch3d/implicitron/models/utils.py
@@ -12,7 +12,7 @@
 
 import warnings
 from logging import Logger
-from typing import Any, Dict, Optional, Tuple
+from typing import Dict, Optional, Tuple
 
 import torch
 import tqdm
@@ -169,11 +169,6 @@ def chunk_generator(
     if len(iter) >= tqdm_trigger_threshold:
         iter = tqdm.tqdm(iter)
 
-    def _safe_slice(
-        tensor: Optional[torch.Tensor], start_idx: int, end_idx: int
-    ) -> Any:
-        return tensor[start_idx:end_idx] if tensor is not None else None
-
     for start_idx in iter:
         end_idx = min(start_idx + chunk_size_in_rays, n_rays)
         bins = (
@@ -201,8 +196,10 @@ def chunk_generator(
             xys=ray_bundle.xys.reshape(batch_size, -1, 2)[:, start_idx:end_idx],
             bins=bins,
             pixel_radii_2d=pixel_radii_2d,
-            camera_ids=_safe_slice(ray_bundle.camera_ids, start_idx, end_idx),
-            camera_counts=_safe_slice(ray_bundle.camera_counts, start_idx, end_idx),
+            # each chunk spans the whole batch dimension, which is what
+            # camera_ids and camera_counts of a packed bundle describe
+            camera_ids=ray_bundle.camera_ids,
+            camera_counts=ray_bundle.camera_counts,
         )
         extra_args = kwargs.copy()
         for k, v in chunked_inputs.items():
-- 
2.43.0


From bc4a4dff8ffd2274bfff1d18c4d52a7893a63450 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 057/147] fix: remove_unused_components keeps the args of a
 replaceable whose name extends another's

---
 pytorch3d/implicitron/tools/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 431be1a..81c7438 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -1200,7 +1200,14 @@ def remove_unused_components(dict_: DictConfig) -> None:
             expect = replaceable + "_" + selected_type + ARGS_SUFFIX
         with open_dict(dict_):
             for key in args_keys:
-                if key.startswith(replaceable + "_") and key != expect:
+                # the longest matching name owns the args, so that with replaceable
+                # members `a` and `a_b`, `a_b_X_args` belongs to the latter.
+                owner = max(
+                    (r for r in replaceables if key.startswith(r + "_")),
+                    key=len,
+                    default=None,
+                )
+                if owner == replaceable and key != expect:
                     del dict_[key]
 
     suffix_length = len(ENABLED_SUFFIX)
-- 
2.43.0


From 1cd05cf1bbe9b4f38e6c172d7f9e17453f276883 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 058/147] fix: eval batches of joined JsonIndexDatasets refer
 to the joined frames

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 2ea4b09..f298310 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -219,6 +219,8 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         if not all(isinstance(d, JsonIndexDataset) for d in other_datasets):
             raise ValueError("This function can only join a list of JsonIndexDataset")
         # pyre-ignore[16]
+        frame_counts = [len(d.frame_annots) for d in [self, *other_datasets]]
+        # pyre-ignore[16]
         self.frame_annots.extend([fa for d in other_datasets for fa in d.frame_annots])
         # pyre-ignore[16]
         self.seq_annots.update(
@@ -242,7 +244,13 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 " eval_batches defined, or all should have their eval batches undefined."
             )
         if self.eval_batches is not None:
-            self.eval_batches = sum(all_eval_batches, [])
+            # the frames of each dataset come after those of the preceding ones
+            offsets = [sum(frame_counts[:i]) for i in range(len(frame_counts))]
+            self.eval_batches = [
+                [idx + offset for idx in batch]
+                for offset, eval_batches in zip(offsets, all_eval_batches)
+                for batch in eval_batches
+            ]
         self._invalidate_indexes(filter_seq_annots=True)
 
     def is_filtered(self) -> bool:
-- 
2.43.0


From 4f6b237e698c967e01f7b9a0a29df0e72d38455f Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 059/147] fix: eval batches of a JsonIndexDataset subset refer
 to its own frames

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index f298310..88da2d4 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -391,6 +391,15 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         # This will kill all unneeded sequence annotations.
         dataset_new._invalidate_indexes(filter_seq_annots=True)
 
+        # Keep the eval batches all of whose frames are in the subset.
+        if self.eval_batches is not None:
+            new_idx = {old: new for new, old in enumerate(valid_dataset_indices)}
+            dataset_new.eval_batches = [
+                [new_idx[idx] for idx in batch]
+                for batch in self.eval_batches
+                if all(idx in new_idx for idx in batch)
+            ]
+
         # Finally annotate the frame annotations with the name of the subset
         # stored in meta.
         for frame_annot in dataset_new.frame_annots:
-- 
2.43.0


From 7a8c4e73c12167133af0ecac8270793a0cf6cc55 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 060/147] fix: JsonIndexDataset replaces missing timestamps by
 0 as documented

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 88da2d4..3483bf2 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -669,7 +669,7 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
 
             frame_annotation = self.frame_annots[idx]["frame_annotation"]
             out.append(
-                (frame_annotation.frame_number, frame_annotation.frame_timestamp)
+                (frame_annotation.frame_number, frame_annotation.frame_timestamp or 0)
             )
         return out
 
-- 
2.43.0


From 2ebb148898d2a3aa406beaa71c37b945d5f8a6da Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 061/147] fix: sequence_frames_in_order pairs each frame with
 its own index under a subset filter

---
 pytorch3d/implicitron/dataset/dataset_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_base.py b/pytorch3d/implicitron/dataset/dataset_base.py
index 78e6f20..d7ea81b 100644
--- a/pytorch3d/implicitron/dataset/dataset_base.py
+++ b/pytorch3d/implicitron/dataset/dataset_base.py
@@ -122,14 +122,15 @@ class DatasetBase(GenericWorkaround, torch.utils.data.Dataset[FrameData]):
         """
         # pyre-ignore[16]
         seq_frame_indices = self._seq_to_idx[seq_name]
-        nos_timestamps = self.get_frame_numbers_and_timestamps(
-            seq_frame_indices, subset_filter
-        )
-
+        # frames are looked up one by one, since those outside `subset_filter` are
+        # left out of the output
         yield from sorted(
             [
                 (timestamp, frame_no, idx)
-                for idx, (frame_no, timestamp) in zip(seq_frame_indices, nos_timestamps)
+                for idx in seq_frame_indices
+                for frame_no, timestamp in self.get_frame_numbers_and_timestamps(
+                    [idx], subset_filter
+                )
             ]
         )
 
-- 
2.43.0


From 7aa4c11694d958f1770ea8eb1c0a04d959928ba5 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 062/147] fix: crop depth maps whose resolution differs from
 the image's in the right place

---
 pytorch3d/implicitron/dataset/frame_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5ec6214..384691e 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -299,9 +299,9 @@ class FrameData(Mapping[str, Any]):
             clamp_bbox_xyxy_depth = rescale_bbox(
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
+                tuple(effective_image_size_hw.tolist()),
                 # pyrefly: ignore [bad-argument-type]
                 tuple(depth_map.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_map = crop_around_box(
                 depth_map,
@@ -314,9 +314,9 @@ class FrameData(Mapping[str, Any]):
             clamp_bbox_xyxy_depth = rescale_bbox(
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
+                tuple(effective_image_size_hw.tolist()),
                 # pyrefly: ignore [bad-argument-type]
                 tuple(depth_mask.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_mask = crop_around_box(
                 depth_mask,
-- 
2.43.0


From 200b07ae1888c3254858ee25c475e1f908fb6277 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 063/147] fix: SqlIndexDataset.sequence_frames_in_order sorts
 by time and keeps each frame's index

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 84a488b..d35f434 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -393,6 +393,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             rows_seq, seq_name, subset_filter
         )
         index_slice["idx"] = idx
+        index_slice = index_slice.sort_values(["frame_timestamp", "frame_number"])
 
         yield from index_slice.itertuples(index=False)
 
@@ -848,7 +849,9 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 "do they belong to more than one sequence?"
             )
 
-        return frame_no_ts, idxs
+        # the database returns the rows in an arbitrary order, align them with idxs
+        frame_no_ts = frame_no_ts.set_index("frame_number").loc[frames].reset_index()
+        return frame_no_ts[["frame_timestamp", "frame_number"]], idxs
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
-- 
2.43.0


From decf768418850c9b2791b31048cf8db666ca6488 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 064/147] fix: SqlIndexDataset.get_frame_numbers_and_timestamps
 returns (number, timestamp) pairs

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index d35f434..ea6a51b 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -358,7 +358,11 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         index_slice, _ = self._get_frame_no_coalesced_ts_by_row_indices(idxs)
         # alternatively, we can use `.values.tolist()`, which may be faster
         # but returns a list of lists
-        return list(index_slice.itertuples())
+        return list(
+            index_slice[["frame_number", "frame_timestamp"]].itertuples(
+                index=False, name=None
+            )
+        )
 
     # override
     def sequence_frames_in_order(
-- 
2.43.0


From c65ecf17de7c595c8d85105d17b93214d4731dc2 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 065/147] fix: precompute_seq_to_idx of SqlIndexDataset lists
 the frames in temporal order

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index ea6a51b..099ca11 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -213,10 +213,10 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             logger.warning(
                 "Using precompute_seq_to_idx is deprecated and will be removed in the future."
             )
-            self._index["rowid"] = np.arange(len(self._index))
-            groupby = self._index.groupby("sequence_name", sort=False)["rowid"]
-            self._seq_to_indices = dict(groupby.apply(list))  # pyre-ignore
-            del self._index["rowid"]
+            self._seq_to_indices = {  # pyre-ignore
+                seq: [idx for _, _, idx in self.sequence_frames_in_order(seq)]
+                for seq in self.sequence_names()
+            }
 
     def __len__(self) -> int:
         return len(self._index)
-- 
2.43.0


From 3f6904ab11a693f9e7de92c1e5203be7bc44adfe Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 066/147] fix: SqlIndexDataset supports limit_sequences_to
 together with limit_sequences_per_category_to

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 099ca11..f6a0137 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -503,6 +503,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         else:
             subquery = sa.select(
                 self.sequence_annotations_type.sequence_name,
+                sa.literal_column("ROWID").label("ROWID"),
                 sa.func.row_number()
                 .over(
                     order_by=sa.text("ROWID"),  # NOTE: ROWID is SQLite-specific
-- 
2.43.0


From bc1747eb93266a3a98ecd826e2d7efb460271cf1 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 067/147] fix: SqlIndexDataset only samples frames when
 n_frames_per_sequence is positive

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index f6a0137..d26219f 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -190,7 +190,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             # still use the concatenated lists, assuming they cover the whole dataset
             index = self._build_index_from_db(sequences)
 
-        if self.n_frames_per_sequence >= 0:
+        if self.n_frames_per_sequence > 0:
             index = self._stratified_sample_index(index)
 
         if len(index) == 0:
-- 
2.43.0


From 2470fc30a593fb7ad721f56d69f1b59bd6ffa7c3 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 068/147] fix: SqlIndexDataset drops the eval batches of
 sequences its filters exclude

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index d26219f..5ffc9f7 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -761,11 +761,17 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         pick_sequences = set(self.pick_sequences)
         if self.pick_categories:
             cat_to_seq = self.category_to_sequence_names()
-            pick_sequences.update(
-                seq for cat in self.pick_categories for seq in cat_to_seq[cat]
+            category_sequences = {
+                seq for cat in self.pick_categories for seq in cat_to_seq.get(cat, [])
+            }
+            # as for the frames, both filters need to hold if both are given
+            pick_sequences = (
+                pick_sequences & category_sequences
+                if pick_sequences
+                else category_sequences
             )
 
-        if pick_sequences:
+        if self.pick_sequences or self.pick_categories:
             old_len = len(eval_batches)
             eval_batches = [b for b in eval_batches if b[0][0] in pick_sequences]
             logger.warning(
-- 
2.43.0


From cd917abe17c678b17229c63c7059801aeae61319 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 069/147] fix: setting one element of a broadcast
 TensorProperties attribute leaves the others alone

---
 pytorch3d/renderer/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index ea3d655..3bffa84 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -72,6 +72,11 @@ class TensorAccessor(nn.Module):
             msg = "Expected value to have len %r; got %r"
             # pyrefly: ignore [bad-argument-type]
             raise ValueError(msg % (len(self.index), len(value)))
+        if v.dim() > 0 and v.shape[0] > 1 and v.stride(0) == 0:
+            # a broadcast attribute, the elements of which share their memory
+            v = v.clone()
+            setattr(self.class_object, name, v)
+
         self.class_object.__dict__[name][self.index] = value
 
     # pyrefly: ignore [bad-override]
-- 
2.43.0


From 378031eaffbeb2d6812168479ec02b96c9c1d579 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 070/147] fix: FishEyeCameras keep their focal length, flags
 and shared fields when indexed or joined

---
 pytorch3d/renderer/fisheyecameras.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index b3df485..c0fc380 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -62,11 +62,17 @@ class FishEyeCameras(CamerasBase):
         "world_coordinates",
         "use_radial",
         "use_tangential",
-        "use_tin_prism",
-        "device",
+        "use_thin_prism",
         "image_size",
     )
 
+    _SHARED_FIELDS = (
+        "world_coordinates",
+        "use_radial",
+        "use_tangential",
+        "use_thin_prism",
+    )
+
     def __init__(
         self,
         focal_length=_focal_length,
@@ -126,7 +132,7 @@ class FishEyeCameras(CamerasBase):
 
         # pyrefly: ignore [bad-assignment]
         self.device = device
-        self.focal = focal_length.to(self.device)
+        self.focal_length = focal_length.to(self.device)
         self.principal_point = principal_point.to(self.device)
         self.radial_params = radial_params.to(self.device)
         self.tangential_params = tangential_params.to(self.device)
@@ -290,7 +296,7 @@ class FishEyeCameras(CamerasBase):
 
         if N == 1:
             return self._project_points_batch(
-                self.focal[0],
+                self.focal_length[0],
                 self.principal_point[0],
                 self.radial_params[0],
                 self.tangential_params[0],
@@ -302,7 +308,7 @@ class FishEyeCameras(CamerasBase):
             for i in range(N):
                 outputs.append(
                     self._project_points_batch(
-                        self.focal[i],
+                        self.focal_length[i],
                         self.principal_point[i],
                         self.radial_params[i],
                         self.tangential_params[i],
@@ -386,7 +392,7 @@ class FishEyeCameras(CamerasBase):
         N = len(self.radial_params)
         if N == 1:
             return self._unproject_points_batch(
-                self.focal[0],
+                self.focal_length[0],
                 self.principal_point[0],
                 self.radial_params[0],
                 self.tangential_params[0],
@@ -398,7 +404,7 @@ class FishEyeCameras(CamerasBase):
             for i in range(N):
                 outputs.append(
                     self._unproject_points_batch(
-                        self.focal[i],
+                        self.focal_length[i],
                         self.principal_point[i],
                         self.radial_params[i],
                         self.tangential_params[i],
-- 
2.43.0


From 10714d826d41c7d657656ffabdeac514be75660e Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 071/147] fix: materials and packed colors of shading stay with
 their own batch element

---
 pytorch3d/renderer/mesh/shading.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..00efba0 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -27,7 +27,7 @@ def _apply_lighting(
         materials: instance of the Materials class.
 
     Returns:
-        ambient_color: same shape as materials.ambient_color
+        ambient_color: broadcastable with the input points
         diffuse_color: same shape as the input points
         specular_color: same shape as the input points
     """
@@ -38,22 +38,12 @@ def _apply_lighting(
         camera_position=cameras.get_camera_center(),
         shininess=materials.shininess,
     )
-    ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
-
-    if normals.dim() == 2 and points.dim() == 2:
-        # If given packed inputs remove batch dim in output.
-        return (
-            ambient_color.squeeze(),
-            diffuse_color.squeeze(),
-            specular_color.squeeze(),
-        )
-
-    if ambient_color.ndim != diffuse_color.ndim:
-        # Reshape from (N, 3) to have dimensions compatible with
-        # diffuse_color which is of shape (N, H, W, K, 3)
-        ambient_color = ambient_color[:, None, None, None, :]
+    # Reshape the per batch element colors from (N, C) to have dimensions compatible
+    # with points, e.g. (N, 1, 1, 1, C) for points of shape (N, H, W, K, 3).
+    expand = (slice(None),) + (None,) * (points.ndim - 2)
+    ambient_color = (materials.ambient_color * lights.ambient_color)[expand]
+    diffuse_color = materials.diffuse_color[expand] * light_diffuse
+    specular_color = materials.specular_color[expand] * light_specular
     return ambient_color, diffuse_color, specular_color
 
 
-- 
2.43.0


From 7875aad6d10b9d9ad860bb8912a57643585a643e Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 072/147] fix: no specular highlight behind the surface when
 shininess is zero

---
 pytorch3d/renderer/lighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/lighting.py b/pytorch3d/renderer/lighting.py
index 38c487c..18f306e 100644
--- a/pytorch3d/renderer/lighting.py
+++ b/pytorch3d/renderer/lighting.py
@@ -155,7 +155,7 @@ def specular(
 
     # Cosine of the angle between the reflected light ray and the viewer
     alpha = F.relu(torch.sum(view_direction * reflect_direction, dim=-1)) * mask
-    return color * torch.pow(alpha, shininess)[..., None]
+    return color * (torch.pow(alpha, shininess) * mask)[..., None]
 
 
 class DirectionalLights(TensorProperties):
-- 
2.43.0


From 0fdbabc7076873a7c3cec6fc22c0067b721a8f59 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 073/147] fix: SoftGouraudShader and SoftDepthShader use the
 blend_params given in the call

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..b030722 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -211,8 +211,9 @@ class SoftGouraudShader(ShaderBase):
         )
         znear = kwargs.get("znear", getattr(cameras, "znear", 1.0))
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        blend_params = kwargs.get("blend_params", self.blend_params)
         images = softmax_rgb_blend(
-            pixel_colors, fragments, self.blend_params, znear=znear, zfar=zfar
+            pixel_colors, fragments, blend_params, znear=znear, zfar=zfar
         )
         return images
 
@@ -429,7 +430,8 @@ class SoftDepthShader(ShaderBase):
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
 
         # Sigmoid probability map based on the distance of the pixel to the face.
-        prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
+        blend_params = kwargs.get("blend_params", self.blend_params)
+        prob_map = torch.sigmoid(-fragments.dists / blend_params.sigma) * mask
 
         # append extra face for zfar
         dists = torch.cat(
-- 
2.43.0


From 2f6e5f48e1dcf648d63f4aaeead998498844ab23 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 074/147] fix: depth shaders use the far plane of each camera
 in the batch

---
 pytorch3d/renderer/mesh/shader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index b030722..fe7545e 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -394,11 +394,12 @@ class HardDepthShader(ShaderBase):
         cameras = super()._get_cameras(**kwargs)
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar):
+            zfar = zfar.reshape(-1, 1, 1, 1)
         mask = fragments.pix_to_face[..., 0:1] < 0
 
-        zbuf = fragments.zbuf[..., 0:1].clone()
-        zbuf[mask] = zfar
-        return zbuf
+        zbuf = fragments.zbuf[..., 0:1]
+        return torch.where(mask, torch.ones_like(zbuf) * zfar, zbuf)
 
 
 class SoftDepthShader(ShaderBase):
@@ -428,6 +429,8 @@ class SoftDepthShader(ShaderBase):
         mask = fragments.pix_to_face >= 0
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar):
+            zfar = zfar.reshape(-1, 1, 1, 1)
 
         # Sigmoid probability map based on the distance of the pixel to the face.
         blend_params = kwargs.get("blend_params", self.blend_params)
-- 
2.43.0


From 91ecb757b8fb4cfd458c2023fdf5419e8f5e1b74 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 075/147] fix: SplatterPhongShader can be called with images of
 another shape

---
 pytorch3d/renderer/mesh/shader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index fe7545e..9f0714e 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -348,10 +348,13 @@ class SplatterPhongShader(ShaderBase):
             materials=materials,
         )
 
-        if not self.splatter_blender:
-            # Init only once, to avoid re-computing constants.
-            N, H, W, K, _ = colors.shape
-            self.splatter_blender = SplatterBlender((N, H, W, K), colors.device)
+        input_shape = tuple(colors.shape[:4])
+        if (
+            not self.splatter_blender
+            or self.splatter_blender.crop_ids_w.shape[:4] != input_shape
+        ):
+            # Init only once per shape, to avoid re-computing constants.
+            self.splatter_blender = SplatterBlender(input_shape, colors.device)
 
         blend_params = kwargs.get("blend_params", self.blend_params)
         self.check_blend_params(blend_params)
-- 
2.43.0


From 2bd500773ba65ef44aec84a1ff45f4bac0b378a2 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 076/147] fix: frustum culling removes only faces outside the
 image

---
 pytorch3d/renderer/mesh/clip.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..1fa68ae 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -182,17 +182,23 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
     faces_culled = torch.zeros(
         [face_verts.shape[0]], dtype=torch.bool, device=face_verts.device
     )
+    # A perspective projection mirrors the x and y coordinates of the vertices behind
+    # the camera, so they don't tell where a face which reaches there is.
+    faces_in_front = (face_verts[:, :, 2] > 0).all(1)
     for plane in clipping_planes:
         clip_value, axis, op = plane
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = face_verts[:, :, axis] < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = face_verts[:, :, axis] > clip_value
 
             # If all verts are clipped then face is outside the frustum
-            faces_culled |= verts_clipped.sum(1) == 3
+            outside = verts_clipped.sum(1) == 3
+            if frustum.perspective_correct and axis != 2:
+                outside &= faces_in_front
+            faces_culled |= outside
 
     return faces_culled
 
-- 
2.43.0


From e51af45aef2ca42b385e0bd2dee2335e87ae7c27 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 077/147] fix: clip_faces accepts batches which end with an
 empty mesh

---
 pytorch3d/renderer/mesh/clip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 1fa68ae..39cb29c 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -451,10 +451,11 @@ def clip_faces(
 
     # Update version of mesh_to_face_first_idx and num_faces_per_mesh applicable to
     # face_verts_clipped
-    mesh_to_face_first_idx_clipped = faces_unclipped_to_clipped_idx[
-        mesh_to_face_first_idx
-    ]
     F_clipped_t = torch.full([1], F_clipped, dtype=torch.int64, device=device)
+    # the first index of an empty mesh at the end of the batch is F
+    mesh_to_face_first_idx_clipped = torch.cat(
+        (faces_unclipped_to_clipped_idx, F_clipped_t)
+    )[mesh_to_face_first_idx]
     num_faces_next = torch.cat((mesh_to_face_first_idx_clipped[1:], F_clipped_t))
     num_faces_per_mesh_clipped = num_faces_next - mesh_to_face_first_idx_clipped
 
-- 
2.43.0


From aefd6dfcc7c30077bc9442cb330fc84584d99165 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 078/147] fix: gradients of clipped faces flow through both new
 corners

---
 pytorch3d/renderer/mesh/clip.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 39cb29c..8cee4af 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -298,7 +298,6 @@ def _find_verts_intersecting_clipping_plane(
     # Solve for the weight w3 such that p1.z * (1-w3) + p2.z * w3 = clip_value,
     # and then interpolate p5 = p1 * (1-w3) + p3 * w3
     w3 = (p1[:, 2] - clip_value) / (p1[:, 2] - p3[:, 2])
-    w3 = w3.detach()
     p5 = p1 * (1 - w3[:, None]) + p3 * w3[:, None]
     if perspective_correct:
         # Again if using a perspective camera, convert back to world coordinates
-- 
2.43.0


From da579b0855f2a98d06f424f773a0f2410b8ad25a Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 079/147] fix: frustum culling keeps the faces in the longer
 side and the blurred borders of the image

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..8943897 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,14 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The frustum contains the blurred borders of the image.
+        max_x = non_square_ndc_range(im_size[1], im_size[0]) / 2.0 + blur_radius**0.5
+        max_y = non_square_ndc_range(im_size[0], im_size[1]) / 2.0 + blur_radius**0.5
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-max_x,
+            right=max_x,
+            top=-max_y,
+            bottom=max_y,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -436,11 +439,14 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The frustum contains the blurred borders of the image.
+        max_x = non_square_ndc_range(W, H) / 2.0 + blur_radius**0.5
+        max_y = non_square_ndc_range(H, W) / 2.0 + blur_radius**0.5
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-max_x,
+            right=max_x,
+            top=-max_y,
+            bottom=max_y,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From 7985770eb5131267e480f1764a971cab6c6b8294 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 080/147] fix: pixels inside a clipped face are not reported as
 outside of it

---
 pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu   | 11 ++++++-----
 .../csrc/rasterize_meshes/rasterize_meshes_cpu.cpp    | 10 +++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
index 28c546c..6f8bd62 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
@@ -182,7 +182,8 @@ __device__ void CheckPixelInsideFace(
   // 1. Find the index of the neighboring face (e.g. for t1 need index of t2)
   // 2. Check if the neighboring face (t2) is already in the top K faces
   // 3. If yes, compare the distance of the pixel to t1 with the distance to t2.
-  // 4. If dist_t1 < dist_t2, overwrite the values for t2 in the top K faces.
+  // 4. If the pixel is inside t1, or outside both and dist_t1 < dist_t2,
+  // overwrite the values for t2 in the top K faces.
   const int neighbor_idx = clipped_faces_neighbor_idx[face_idx];
   int neighbor_idx_top_k = -1;
 
@@ -199,10 +200,10 @@ __device__ void CheckPixelInsideFace(
   }
   // If neighbor idx is not -1 then it is in the top K struct.
   if (neighbor_idx_top_k != -1) {
-    // If dist of current face is less than neighbor then overwrite the
-    // neighbor face values in the top K struct.
-    float neighbor_dist = abs(q[neighbor_idx_top_k].dist);
-    if (dist < neighbor_dist) {
+    // If the pixel is inside the current face, or outside both and closer to
+    // the current face than to the neighbor, overwrite the neighbor face values
+    // in the top K struct.
+    if (inside || dist < q[neighbor_idx_top_k].dist) {
       // Overwrite the neighbor face values
       q[neighbor_idx_top_k] = {pz, face_idx, signed_dist, p_bary_clip};
 
diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
index fce2cb7..28e0896 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
@@ -244,8 +244,8 @@ void RasterizeMeshesNaiveCpu_worker(
           // 2. Check if the neighbor (t2) is already in the top K faces
           // 3. If yes, compare the distance of the pixel to t1 with the
           // distance to t2.
-          // 4. If dist_t1 < dist_t2, overwrite the values for t2 in the top K
-          // faces.
+          // 4. If the pixel is inside t1, or outside both and dist_t1 < dist_t2,
+          // overwrite the values for t2 in the top K faces.
           const int neighbor_idx = neighbor_idx_a[f];
           int idx_top_k = -1;
 
@@ -259,11 +259,11 @@ void RasterizeMeshesNaiveCpu_worker(
 
           // If idx_top_k idx is not -1 then it is in the top K struct.
           if (idx_top_k != -1) {
-            // If dist of current face is less than neighbor, overwrite
+            // If the pixel is inside the current face, or outside both and
+            // closer to the current face than to the neighbor, overwrite
             // the neighbor face values in the top K struct.
             const auto neighbor = q[idx_top_k];
-            const float dist_neighbor = std::abs(std::get<2>(neighbor));
-            if (dist < dist_neighbor) {
+            if (inside || dist < std::get<2>(neighbor)) {
               // Overwrite the neighbor face values.
               q[idx_top_k] = std::make_tuple(
                   pz, f, signed_dist, bary_clip.x, bary_clip.y, bary_clip.z);
-- 
2.43.0


From cd33d585ab234f686cd11957e26cf7a4c01a27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 081/147] fix: box3d_overlap is exact for boxes whose faces are
 nearly coplanar

---
 pytorch3d/csrc/iou_box3d/iou_box3d.cu      |  49 ++--
 pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp |  40 +--
 pytorch3d/csrc/iou_box3d/iou_utils.cuh     | 233 +++++-------------
 pytorch3d/csrc/iou_box3d/iou_utils.h       | 273 +++++----------------
 4 files changed, 158 insertions(+), 437 deletions(-)

diff --git a/pytorch3d/csrc/iou_box3d/iou_box3d.cu b/pytorch3d/csrc/iou_box3d/iou_box3d.cu
index a315550..c9056ea 100644
--- a/pytorch3d/csrc/iou_box3d/iou_box3d.cu
+++ b/pytorch3d/csrc/iou_box3d/iou_box3d.cu
@@ -54,6 +54,13 @@ __global__ void IoUBox3DKernel(
     const float box1_vol = BoxVolume(box1_tris, box1_center, NUM_TRIS);
     const float box2_vol = BoxVolume(box2_tris, box2_center, NUM_TRIS);
 
+    // Faces of the two boxes may be coplanar (or nearly so) in which case only
+    // one of them should be part of the intersecting shape. This is obtained
+    // by intersecting Box1 with a slightly larger Box2: points up to a small
+    // margin outside of the planes of Box2 are inside and, equivalently, points
+    // have to be further than it inside the planes of Box1.
+    const float margin = PlaneMargin(box1_planes, box2_planes);
+
     // Tris in Box1 intersection with Planes in Box2
     // Initialize box1 intersecting faces. MAX_TRIS is the
     // max faces possible in the intersecting shape.
@@ -66,7 +73,8 @@ __global__ void IoUBox3DKernel(
       box1_intersect[j] = box1_tris[j];
     }
     // Get the count of the actual number of faces in the intersecting shape
-    int box1_count = BoxIntersections(box2_planes, box2_center, box1_intersect);
+    int box1_count =
+        BoxIntersections(box2_planes, box2_center, margin, box1_intersect);
 
     // Tris in Box2 intersection with Planes in Box1
     FaceVerts box2_intersect[MAX_TRIS];
@@ -74,37 +82,14 @@ __global__ void IoUBox3DKernel(
       box2_intersect[j] = box2_tris[j];
     }
     const int box2_count =
-        BoxIntersections(box1_planes, box1_center, box2_intersect);
-
-    // If there are overlapping regions in Box2, remove any coplanar faces
-    if (box2_count > 0) {
-      // Identify if any triangles in Box2 are coplanar with Box1
-      Keep tri2_keep[MAX_TRIS];
-      for (int j = 0; j < MAX_TRIS; ++j) {
-        // Initialize the valid faces to be true
-        tri2_keep[j].keep = j < box2_count ? true : false;
-      }
-      for (int b1 = 0; b1 < box1_count; ++b1) {
-        for (int b2 = 0; b2 < box2_count; ++b2) {
-          const bool is_coplanar =
-              IsCoplanarTriTri(box1_intersect[b1], box2_intersect[b2]);
-          const float area = FaceArea(box1_intersect[b1]);
-          if ((is_coplanar) && (area > aEpsilon)) {
-            tri2_keep[b2].keep = false;
-          }
-        }
-      }
-
-      // Keep only the non coplanar triangles in Box2 - add them to the
-      // Box1 triangles.
-      for (int b2 = 0; b2 < box2_count; ++b2) {
-        if (tri2_keep[b2].keep) {
-          box1_intersect[box1_count] = box2_intersect[b2];
-          // box1_count will determine the total faces in the
-          // intersecting shape
-          box1_count++;
-        }
-      }
+        BoxIntersections(box1_planes, box1_center, -margin, box2_intersect);
+
+    // Add the triangles of Box2 to the Box1 triangles
+    for (int b2 = 0; b2 < box2_count; ++b2) {
+      box1_intersect[box1_count] = box2_intersect[b2];
+      // box1_count will determine the total faces in the
+      // intersecting shape
+      box1_count++;
     }
 
     // Initialize the vol and iou to 0.0 in case there are no triangles
diff --git a/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp b/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
index 14310ad..79ef7be 100644
--- a/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
+++ b/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
@@ -61,37 +61,23 @@ std::tuple<at::Tensor, at::Tensor> IoUBox3DCpu(
       //    will be broken into subtriangles such that each subtriangle is full
       //    inside the plane and part of the intersecting tetrahedron.
 
+      // Faces of the two boxes may be coplanar (or nearly so) in which case only
+      // one of them should be part of the intersecting shape. This is obtained
+      // by intersecting Box1 with a slightly larger Box2: points up to a small
+      // margin outside of the planes of Box2 are inside and, equivalently, points
+      // have to be further than it inside the planes of Box1.
+      const float margin = PlaneMargin(box1_planes, box2_planes);
+
       // Tris in Box1 -> Planes in Box2
       face_verts box1_intersect =
-          BoxIntersections(box1_tris, box2_planes, box2_center);
+          BoxIntersections(box1_tris, box2_planes, box2_center, margin);
       // Tris in Box2 -> Planes in Box1
-      face_verts box2_intersect =
-          BoxIntersections(box2_tris, box1_planes, box1_center);
-
-      // If there are overlapping regions in Box2, remove any coplanar faces
-      if (box2_intersect.size() > 0) {
-        // Identify if any triangles in Box2 are coplanar with Box1
-        std::vector<int> tri2_keep(box2_intersect.size());
-        std::fill(tri2_keep.begin(), tri2_keep.end(), 1);
-        for (int b1 = 0; b1 < box1_intersect.size(); ++b1) {
-          for (int b2 = 0; b2 < box2_intersect.size(); ++b2) {
-            const bool is_coplanar =
-                IsCoplanarTriTri(box1_intersect[b1], box2_intersect[b2]);
-            const float area = FaceArea(box1_intersect[b1]);
-            if ((is_coplanar) && (area > aEpsilon)) {
-              tri2_keep[b2] = 0;
-            }
-          }
-        }
+      const face_verts box2_intersect =
+          BoxIntersections(box2_tris, box1_planes, box1_center, -margin);
 
-        // Keep only the non coplanar triangles in Box2 - add them to the
-        // Box1 triangles.
-        for (int b2 = 0; b2 < box2_intersect.size(); ++b2) {
-          if (tri2_keep[b2] == 1) {
-            box1_intersect.push_back((box2_intersect[b2]));
-          }
-        }
-      }
+      // Add the triangles of Box2 to the Box1 triangles
+      box1_intersect.insert(
+          box1_intersect.end(), box2_intersect.begin(), box2_intersect.end());
 
       // Initialize the vol and iou to 0.0 in case there are no triangles
       // in the intersecting shape.
diff --git a/pytorch3d/csrc/iou_box3d/iou_utils.cuh b/pytorch3d/csrc/iou_box3d/iou_utils.cuh
index 1d70206..5dffebd 100644
--- a/pytorch3d/csrc/iou_box3d/iou_utils.cuh
+++ b/pytorch3d/csrc/iou_box3d/iou_utils.cuh
@@ -11,13 +11,9 @@
 #include <cstdio>
 #include "utils/float_math.cuh"
 
-// dEpsilon: Used in dot products and is used to assess whether two unit vectors
-// are orthogonal (or coplanar). It's an epsilon on cos(θ).
-// With dEpsilon = 0.001, two unit vectors are considered co-planar
-// if their θ = 2.5 deg.
-__constant__ const float dEpsilon = 1e-3;
-// aEpsilon: Used once in main function to check for small face areas
-__constant__ const float aEpsilon = 1e-4;
+// mEpsilon: Used to assess on which side of a plane a point is. Relative to the
+// largest coordinate, it has to exceed the rounding errors of the distance.
+__constant__ const float mEpsilon = 2e-6;
 // kEpsilon: Used only for norm(u) = u/max(||u||, kEpsilon)
 __constant__ const float kEpsilon = 1e-8;
 
@@ -52,12 +48,6 @@ struct FaceVertsIdx {
   int v3; // Can be empty for triangles
 };
 
-// This is used when deciding which faces to
-// keep that are not coplanar
-struct Keep {
-  bool keep;
-};
-
 __device__ FaceVertsIdx _PLANES[] = {
     {0, 1, 2, 3},
     {3, 2, 6, 7},
@@ -187,23 +177,6 @@ __device__ inline float3 FaceNormal(
   return normal;
 }
 
-// The area of the face defined by vertices (v0, v1, v2)
-// Define e0 to be the edge connecting (v1, v0)
-// Define e1 to be the edge connecting (v2, v0)
-// Area is the norm of the cross product of e0, e1 divided by 2.0
-//
-// Args
-//    tri: FaceVerts of float3 coordinates of the vertices of the face
-//
-// Returns
-//    float: area for the face
-//
-__device__ inline float FaceArea(const FaceVerts& tri) {
-  // Get verts for face 1
-  const float3 n = cross(tri.v1 - tri.v0, tri.v2 - tri.v0);
-  return norm(n) / 2.0;
-}
-
 // The normal of a box plane defined by the verts in `plane` such that it
 // points toward the centroid of the box given by `center`.
 //
@@ -311,6 +284,30 @@ __device__ inline float3 BoxCenter(const Box box_verts) {
   return center;
 }
 
+// The margin for the planes of two boxes: see mEpsilon
+//
+// Args
+//    planes1, planes2: Array of structs of type FaceVerts with the coordinates
+//       of the vertices of all the planes in the boxes
+//
+// Returns
+//    float: margin
+//
+template <typename FaceVertsPlane>
+__device__ inline float PlaneMargin(
+    const FaceVertsPlane& planes1,
+    const FaceVertsPlane& planes2) {
+  float scale = 0.0f;
+  for (int p = 0; p < NUM_PLANES; ++p) {
+    for (const auto& plane : {planes1[p], planes2[p]}) {
+      for (const auto& v : {plane.v0, plane.v1, plane.v2, plane.v3}) {
+        scale = fmaxf(scale, fmaxf(fabsf(v.x), fmaxf(fabsf(v.y), fabsf(v.z))));
+      }
+    }
+  }
+  return mEpsilon * scale;
+}
+
 // Compute the polyhedron center as the mean of the face centers
 // of the triangle faces
 //
@@ -361,12 +358,16 @@ __device__ inline float3 PolyhedronCenter(
 //       vertices of each of the triangles in the box
 //    normal: float3 of the direction of the plane normal
 //    point: float3 of the position of the point of interest
+//    margin: points up to this distance outside of the plane are inside
 //
 // Returns
 //    bool: whether or not the point is inside the plane
 //
-__device__ inline bool
-IsInside(const FaceVerts& plane, const float3& normal, const float3& point) {
+__device__ inline bool IsInside(
+    const FaceVerts& plane,
+    const float3& normal,
+    const float3& point,
+    const float margin) {
   // The center of the plane
   const float3 plane_ctr = FaceCenter({plane.v0, plane.v1, plane.v2, plane.v3});
 
@@ -376,7 +377,7 @@ IsInside(const FaceVerts& plane, const float3& normal, const float3& point) {
   // We know that <e0, n> = 0 and <e1, n> = 0
   // So the calculation can be simplified as:
   const float c = dot((point - plane_ctr), normal);
-  const bool inside = c >= 0.0f;
+  const bool inside = c >= -margin;
   return inside;
 }
 
@@ -388,6 +389,7 @@ IsInside(const FaceVerts& plane, const float3& normal, const float3& point) {
 //       vertices of each of the triangles in the box
 //    normal: float3 of the direction of the plane normal
 //    p0, p1: float3 of the start and end point of the line
+//    margin: points up to this distance outside of the plane are inside
 //
 // Returns
 //    float3: position of the intersection point
@@ -396,7 +398,8 @@ __device__ inline float3 PlaneEdgeIntersection(
     const FaceVerts& plane,
     const float3& normal,
     const float3& p0,
-    const float3& p1) {
+    const float3& p1,
+    const float margin) {
   // The center of the plane
   const float3 plane_ctr = FaceCenter({plane.v0, plane.v1, plane.v2, plane.v3});
 
@@ -405,116 +408,14 @@ __device__ inline float3 PlaneEdgeIntersection(
   // We want to find a such that p is on plane
   // <p - plane_ctr, n> = 0
 
-  float3 direc = p1 - p0;
-  direc = direc / fmaxf(norm(direc), kEpsilon);
-
-  float3 p = (p1 + p0) / 2.0f;
-
-  if (abs(dot(direc, normal)) >= dEpsilon) {
-    const float top = -1.0f * dot(p0 - plane_ctr, normal);
-    const float bot = dot(p1 - p0, normal);
-    const float a = top / bot;
-    p = p0 + a * (p1 - p0);
-  }
-
-  return p;
-}
-
-// Compute the most distant points between two sets of vertices
-//
-// Args
-//    verts1, verts2: list of float3 defining the list of vertices
-//
-// Returns
-//    v1m, v2m: float3 vectors of the most distant points
-//          in verts1 and verts2 respectively
-//
-__device__ inline std::tuple<float3, float3> ArgMaxVerts(
-    std::initializer_list<float3> verts1,
-    std::initializer_list<float3> verts2) {
-  auto v1m = float3();
-  auto v2m = float3();
-  float maxdist = -1.0f;
-
-  for (const auto& v1 : verts1) {
-    for (const auto& v2 : verts2) {
-      if (norm(v1 - v2) > maxdist) {
-        v1m = v1;
-        v2m = v2;
-        maxdist = norm(v1 - v2);
-      }
-    }
-  }
-  return std::make_tuple(v1m, v2m);
-}
-
-// Compute a boolean indicator for whether or not two faces
-// are coplanar
-//
-// Args
-//    tri1, tri2: FaceVerts struct of the vertex coordinates of
-//       the triangle face
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-__device__ inline bool IsCoplanarTriTri(
-    const FaceVerts& tri1,
-    const FaceVerts& tri2) {
-  const float3 tri1_n = FaceNormal({tri1.v0, tri1.v1, tri1.v2});
-
-  const float3 tri2_n = FaceNormal({tri2.v0, tri2.v1, tri2.v2});
-
-  // Check if parallel
-  const bool check1 = abs(dot(tri1_n, tri2_n)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  const auto v1mAndv2m =
-      ArgMaxVerts({tri1.v0, tri1.v1, tri1.v2}, {tri2.v0, tri2.v1, tri2.v2});
-  const auto v1m = std::get<0>(v1mAndv2m);
-  const auto v2m = std::get<1>(v1mAndv2m);
-
-  float3 n12m = v1m - v2m;
-  n12m = n12m / fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = (abs(dot(n12m, tri1_n)) < dEpsilon) ||
-      (abs(dot(n12m, tri2_n)) < dEpsilon);
-
-  return (check1 && check2);
-}
-
-// Compute a boolean indicator for whether or not a triangular and a planar
-// face are coplanar
-//
-// Args
-//    tri, plane: FaceVerts struct of the vertex coordinates of
-//       the triangle and planar face
-//  normal: the normal direction of the plane pointing "inside"
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-__device__ inline bool IsCoplanarTriPlane(
-    const FaceVerts& tri,
-    const FaceVerts& plane,
-    const float3& normal) {
-  const float3 nt = FaceNormal({tri.v0, tri.v1, tri.v2});
-
-  // check if parallel
-  const bool check1 = abs(dot(nt, normal)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  const auto v1mAndv2m = ArgMaxVerts(
-      {tri.v0, tri.v1, tri.v2}, {plane.v0, plane.v1, plane.v2, plane.v3});
-  const auto v1m = std::get<0>(v1mAndv2m);
-  const auto v2m = std::get<1>(v1mAndv2m);
-
-  float3 n12m = v1m - v2m;
-  n12m = n12m / fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = abs(dot(n12m, normal)) < dEpsilon;
-
-  return (check1 && check2);
+  // Signed distances of the two points, which are on different sides
+  // (up to a margin)
+  const float d0 = dot(p0 - plane_ctr, normal);
+  const float d1 = dot(p1 - plane_ctr, normal);
+  // An edge almost within the plane is cut where it leaves the margin
+  const float level = fabsf(d0 - d1) < 1024.0f * fabsf(margin) ? -margin : 0.0f;
+  const float a = fminf(fmaxf((d0 - level) / (d0 - d1), 0.0f), 1.0f);
+  return p0 + a * (p1 - p0);
 }
 
 // Triangle is clipped into a quadrilateral
@@ -546,11 +447,12 @@ __device__ inline int ClipTriByPlaneOneOut(
     const float3& vout,
     const float3& vin1,
     const float3& vin2,
+    const float margin,
     FaceVertsBox& face_verts_out) {
   // point of intersection between plane and (vin1, vout)
-  const float3 pint1 = PlaneEdgeIntersection(plane, normal, vin1, vout);
+  const float3 pint1 = PlaneEdgeIntersection(plane, normal, vin1, vout, margin);
   // point of intersection between plane and (vin2, vout)
-  const float3 pint2 = PlaneEdgeIntersection(plane, normal, vin2, vout);
+  const float3 pint2 = PlaneEdgeIntersection(plane, normal, vin2, vout, margin);
 
   face_verts_out[0] = {vin1, pint1, pint2};
   face_verts_out[1] = {vin1, pint2, vin2};
@@ -586,11 +488,12 @@ __device__ inline int ClipTriByPlaneTwoOut(
     const float3& vout1,
     const float3& vout2,
     const float3& vin,
+    const float margin,
     FaceVertsBox& face_verts_out) {
   // point of intersection between plane and (vin, vout1)
-  const float3 pint1 = PlaneEdgeIntersection(plane, normal, vin, vout1);
+  const float3 pint1 = PlaneEdgeIntersection(plane, normal, vin, vout1, margin);
   // point of intersection between plane and (vin, vout2)
-  const float3 pint2 = PlaneEdgeIntersection(plane, normal, vin, vout2);
+  const float3 pint2 = PlaneEdgeIntersection(plane, normal, vin, vout2, margin);
 
   face_verts_out[0] = {vin, pint1, pint2};
 
@@ -606,6 +509,7 @@ __device__ inline int ClipTriByPlaneTwoOut(
 //    tri: Array of structs of type FaceVerts with the vertex
 //       coordinates of the triangle faces
 //    normal: float3 of the direction of the plane normal
+//    margin: vertices up to this distance outside of the plane are inside
 //    face_verts_out: Array of structs of type FaceVerts,
 //       with the coordinates of the new triangle faces
 //       formed after clipping.
@@ -621,6 +525,7 @@ __device__ inline int ClipTriByPlane(
     const FaceVerts& plane,
     const FaceVerts& tri,
     const float3& normal,
+    const float margin,
     FaceVertsBox& face_verts_out) {
   // Get Triangle vertices
   const float3 v0 = tri.v0;
@@ -628,17 +533,9 @@ __device__ inline int ClipTriByPlane(
   const float3 v2 = tri.v2;
 
   // Check each of the triangle vertices to see if it is inside the plane
-  const bool isin0 = IsInside(plane, normal, v0);
-  const bool isin1 = IsInside(plane, normal, v1);
-  const bool isin2 = IsInside(plane, normal, v2);
-
-  // Check coplanar
-  const bool iscoplanar = IsCoplanarTriPlane(tri, plane, normal);
-  if (iscoplanar) {
-    // Return input vertices
-    face_verts_out[0] = {v0, v1, v2};
-    return 1;
-  }
+  const bool isin0 = IsInside(plane, normal, v0, margin);
+  const bool isin1 = IsInside(plane, normal, v1, margin);
+  const bool isin2 = IsInside(plane, normal, v2, margin);
 
   // All in
   if (isin0 && isin1 && isin2) {
@@ -654,24 +551,24 @@ __device__ inline int ClipTriByPlane(
 
   // One vert out
   if (isin0 && isin1 && !isin2) {
-    return ClipTriByPlaneOneOut(plane, normal, v2, v0, v1, face_verts_out);
+    return ClipTriByPlaneOneOut(plane, normal, v2, v0, v1, margin, face_verts_out);
   }
   if (isin0 && !isin1 && isin2) {
-    return ClipTriByPlaneOneOut(plane, normal, v1, v0, v2, face_verts_out);
+    return ClipTriByPlaneOneOut(plane, normal, v1, v0, v2, margin, face_verts_out);
   }
   if (!isin0 && isin1 && isin2) {
-    return ClipTriByPlaneOneOut(plane, normal, v0, v1, v2, face_verts_out);
+    return ClipTriByPlaneOneOut(plane, normal, v0, v1, v2, margin, face_verts_out);
   }
 
   // Two verts out
   if (isin0 && !isin1 && !isin2) {
-    return ClipTriByPlaneTwoOut(plane, normal, v1, v2, v0, face_verts_out);
+    return ClipTriByPlaneTwoOut(plane, normal, v1, v2, v0, margin, face_verts_out);
   }
   if (!isin0 && !isin1 && isin2) {
-    return ClipTriByPlaneTwoOut(plane, normal, v0, v1, v2, face_verts_out);
+    return ClipTriByPlaneTwoOut(plane, normal, v0, v1, v2, margin, face_verts_out);
   }
   if (!isin0 && isin1 && !isin2) {
-    return ClipTriByPlaneTwoOut(plane, normal, v0, v2, v1, face_verts_out);
+    return ClipTriByPlaneTwoOut(plane, normal, v0, v2, v1, margin, face_verts_out);
   }
 
   // Else return empty (should not be reached)
@@ -687,6 +584,7 @@ __device__ inline int ClipTriByPlane(
 //       of the vertices of each of the triangles in the box
 //    center: float3 coordinates of the center of the box from which
 //        the planes originate
+//    margin: points up to this distance outside of a plane are inside
 //    face_verts_out: Array of structs of type FaceVerts,
 //       where the coordinates of the new triangle faces
 //       formed after clipping will be saved to.
@@ -701,6 +599,7 @@ template <typename FaceVertsPlane, typename FaceVertsBox>
 __device__ inline int BoxIntersections(
     const FaceVertsPlane& planes,
     const float3& center,
+    const float margin,
     FaceVertsBox& face_verts_out) {
   // Initialize num tris to 12
   int num_tris = NUM_TRIS;
@@ -716,8 +615,8 @@ __device__ inline int BoxIntersections(
     for (int t = 0; t < num_tris; ++t) {
       // Clip tri by plane, can max be split into 2 triangles
       FaceVerts tri_updated[2];
-      const int count =
-          ClipTriByPlane(planes[p], face_verts_out[t], n2, tri_updated);
+      const int count = ClipTriByPlane(
+          planes[p], face_verts_out[t], n2, margin, tri_updated);
       // Add to the tri_verts_updated output if not empty
       for (int v = 0; v < count; ++v) {
         tri_verts_updated[offset] = tri_updated[v];
diff --git a/pytorch3d/csrc/iou_box3d/iou_utils.h b/pytorch3d/csrc/iou_box3d/iou_utils.h
index 283822a..b290c46 100644
--- a/pytorch3d/csrc/iou_box3d/iou_utils.h
+++ b/pytorch3d/csrc/iou_box3d/iou_utils.h
@@ -18,13 +18,9 @@
 #include <type_traits>
 #include "utils/vec3.h"
 
-// dEpsilon: Used in dot products and is used to assess whether two unit vectors
-// are orthogonal (or coplanar). It's an epsilon on cos(θ).
-// With dEpsilon = 0.001, two unit vectors are considered co-planar
-// if their θ = 2.5 deg.
-const auto dEpsilon = 1e-3;
-// aEpsilon: Used once in main function to check for small face areas
-const auto aEpsilon = 1e-4;
+// mEpsilon: Used to assess on which side of a plane a point is. Relative to the
+// largest coordinate, it has to exceed the rounding errors of the distance.
+const float mEpsilon = 2e-6f;
 // kEpsilon: Used only for norm(u) = u/max(||u||, kEpsilon)
 const auto kEpsilon = 1e-8;
 
@@ -151,51 +147,6 @@ inline vec3<float> GetNormal(const vec3<float> e0, const vec3<float> e1) {
   return n;
 }
 
-// The center of a triangle tri
-//
-// Args
-//    tri: vec3 coordinates of the vertices of the triangle
-//
-// Returns
-//    vec3: center of the triangle
-//
-inline vec3<float> TriCenter(const std::vector<vec3<float>>& tri) {
-  // Vertices of the triangle
-  const vec3<float> v0 = tri[0];
-  const vec3<float> v1 = tri[1];
-  const vec3<float> v2 = tri[2];
-
-  return (v0 + v1 + v2) / 3.0f;
-}
-
-// The normal of the triangle defined by vertices (v0, v1, v2)
-// We find the "best" edges connecting the face center to the vertices,
-// such that the cross product between the edges is maximized.
-//
-// Args
-//    tri: vec3 coordinates of the vertices of the face
-//
-// Returns
-//    vec3: normal for the face
-//
-inline vec3<float> TriNormal(const std::vector<vec3<float>>& tri) {
-  // Get center of triangle
-  const vec3<float> ctr = TriCenter(tri);
-
-  // find the "best" normal as cross product of edges from center
-  float max_dist = -1.0f;
-  vec3<float> n = {0.0f, 0.0f, 0.0f};
-  for (int i = 0; i < 2; ++i) {
-    for (int j = i + 1; j < 3; ++j) {
-      const float dist = norm(cross(tri[i] - ctr, tri[j] - ctr));
-      if (dist > max_dist) {
-        n = GetNormal(tri[i] - ctr, tri[j] - ctr);
-      }
-    }
-  }
-  return n;
-}
-
 // The center of a plane
 //
 // Args
@@ -242,26 +193,6 @@ inline vec3<float> PlaneNormal(const std::vector<vec3<float>>& plane) {
   return n;
 }
 
-// The area of the face defined by vertices (v0, v1, v2)
-// Define e0 to be the edge connecting (v1, v0)
-// Define e1 to be the edge connecting (v2, v0)
-// Area is the norm of the cross product of e0, e1 divided by 2.0
-//
-// Args
-//    tri: vec3 coordinates of the vertices of the face
-//
-// Returns
-//    float: area for the face
-//
-inline float FaceArea(const std::vector<vec3<float>>& tri) {
-  // Get verts for face
-  const vec3<float> v0 = tri[0];
-  const vec3<float> v1 = tri[1];
-  const vec3<float> v2 = tri[2];
-  const vec3<float> n = cross(v1 - v0, v2 - v0);
-  return norm(n) / 2.0;
-}
-
 // The normal of a box plane defined by the verts in `plane` such that it
 // points toward the centroid of the box given by `center`.
 //
@@ -348,6 +279,26 @@ inline vec3<float> BoxCenter(const at::Tensor& box_verts) {
   return box_center;
 }
 
+// The margin for the planes of two boxes: see mEpsilon
+//
+// Args
+//    planes1, planes2: vertex coordinates of all the planes in the boxes
+//
+// Returns
+//    float: margin
+//
+inline float PlaneMargin(const face_verts& planes1, const face_verts& planes2) {
+  float scale = 0.0f;
+  for (const auto* planes : {&planes1, &planes2}) {
+    for (const auto& plane : *planes) {
+      for (const auto& v : plane) {
+        scale = std::max({scale, std::abs(v.x), std::abs(v.y), std::abs(v.z)});
+      }
+    }
+  }
+  return mEpsilon * scale;
+}
+
 // Compute the polyhedron center as the mean of the face centers
 // of the triangle faces
 //
@@ -396,6 +347,7 @@ inline vec3<float> PolyhedronCenter(const face_verts& tris) {
 //       vertices of each of the triangles in the box
 //    normal: vec3 of the direction of the plane normal
 //    point: vec3 of the position of the point of interest
+//    margin: points up to this distance outside of the plane are inside
 //
 // Returns
 //    bool: whether or not the point is inside the plane
@@ -403,7 +355,8 @@ inline vec3<float> PolyhedronCenter(const face_verts& tris) {
 inline bool IsInside(
     const std::vector<vec3<float>>& plane,
     const vec3<float>& normal,
-    const vec3<float>& point) {
+    const vec3<float>& point,
+    const float margin) {
   // The center of the plane
   const vec3<float> plane_ctr = PlaneCenter(plane);
 
@@ -413,7 +366,7 @@ inline bool IsInside(
   // We know that <e0, n> = 0 and <e1, n> = 0
   // So the calculation can be simplified as:
   const float c = dot((point - plane_ctr), normal);
-  const bool inside = c >= 0.0f;
+  const bool inside = c >= -margin;
   return inside;
 }
 
@@ -425,6 +378,7 @@ inline bool IsInside(
 //       vertices of each of the triangles in the box
 //    normal: vec3 of the direction of the plane normal
 //    p0, p1: vec3 of the start and end point of the line
+//    margin: points up to this distance outside of the plane are inside
 //
 // Returns
 //    vec3: position of the intersection point
@@ -433,7 +387,8 @@ inline vec3<float> PlaneEdgeIntersection(
     const std::vector<vec3<float>>& plane,
     const vec3<float>& normal,
     const vec3<float>& p0,
-    const vec3<float>& p1) {
+    const vec3<float>& p1,
+    const float margin) {
   // The center of the plane
   const vec3<float> plane_ctr = PlaneCenter(plane);
 
@@ -442,116 +397,14 @@ inline vec3<float> PlaneEdgeIntersection(
   // We want to find a such that p is on plane
   // <p - ctr, n> = 0
 
-  vec3<float> direc = p1 - p0;
-  direc = direc / std::fmaxf(norm(direc), kEpsilon);
-
-  vec3<float> p = (p1 + p0) / 2.0f;
-
-  if (std::abs(dot(direc, normal)) >= dEpsilon) {
-    const float top = -1.0f * dot(p0 - plane_ctr, normal);
-    const float bot = dot(p1 - p0, normal);
-    const float a = top / bot;
-    p = p0 + a * (p1 - p0);
-  }
-  return p;
-}
-
-// Compute the most distant points between two sets of vertices
-//
-// Args
-//    verts1, verts2: vec3 defining the list of vertices
-//
-// Returns
-//    v1m, v2m: vec3 vectors of the most distant points
-//          in verts1 and verts2 respectively
-//
-inline std::tuple<vec3<float>, vec3<float>> ArgMaxVerts(
-    const std::vector<vec3<float>>& verts1,
-    const std::vector<vec3<float>>& verts2) {
-  vec3<float> v1m = {0.0f, 0.0f, 0.0f};
-  vec3<float> v2m = {0.0f, 0.0f, 0.0f};
-  float maxdist = -1.0f;
-
-  for (const auto& v1 : verts1) {
-    for (const auto& v2 : verts2) {
-      if (norm(v1 - v2) > maxdist) {
-        v1m = v1;
-        v2m = v2;
-        maxdist = norm(v1 - v2);
-      }
-    }
-  }
-  return std::make_tuple(v1m, v2m);
-}
-
-// Compute a boolean indicator for whether or not two faces
-// are coplanar
-//
-// Args
-//    tri1, tri2: std:vector<vec3> of the vertex coordinates of
-//        triangle faces
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-inline bool IsCoplanarTriTri(
-    const std::vector<vec3<float>>& tri1,
-    const std::vector<vec3<float>>& tri2) {
-  // Get normal for tri 1
-  const vec3<float> n1 = TriNormal(tri1);
-
-  // Get normal for tri 2
-  const vec3<float> n2 = TriNormal(tri2);
-
-  // Check if parallel
-  const bool check1 = std::abs(dot(n1, n2)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  auto argvs = ArgMaxVerts(tri1, tri2);
-  const auto v1m = std::get<0>(argvs);
-  const auto v2m = std::get<1>(argvs);
-
-  vec3<float> n12m = v1m - v2m;
-  n12m = n12m / std::fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = (std::abs(dot(n12m, n1)) < dEpsilon) ||
-      (std::abs(dot(n12m, n2)) < dEpsilon);
-
-  return (check1 && check2);
-}
-
-// Compute a boolean indicator for whether or not a triangular and a planar
-// face are coplanar
-//
-// Args
-//    tri, plane: std:vector<vec3> of the vertex coordinates of
-//        triangular face and planar face
-//    normal: the normal direction of the plane pointing "inside"
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-inline bool IsCoplanarTriPlane(
-    const std::vector<vec3<float>>& tri,
-    const std::vector<vec3<float>>& plane,
-    const vec3<float>& normal) {
-  // Get normal for tri
-  const vec3<float> nt = TriNormal(tri);
-
-  // check if parallel
-  const bool check1 = std::abs(dot(nt, normal)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  auto argvs = ArgMaxVerts(tri, plane);
-  const auto v1m = std::get<0>(argvs);
-  const auto v2m = std::get<1>(argvs);
-
-  vec3<float> n12m = v1m - v2m;
-  n12m = n12m / std::fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = std::abs(dot(n12m, normal)) < dEpsilon;
-
-  return (check1 && check2);
+  // Signed distances of the two points, which are on different sides
+  // (up to a margin)
+  const float d0 = dot(p0 - plane_ctr, normal);
+  const float d1 = dot(p1 - plane_ctr, normal);
+  // An edge almost within the plane is cut where it leaves the margin
+  const float level = std::abs(d0 - d1) < 1024.0f * std::abs(margin) ? -margin : 0.0f;
+  const float a = std::min(std::max((d0 - level) / (d0 - d1), 0.0f), 1.0f);
+  return p0 + a * (p1 - p0);
 }
 
 // Triangle is clipped into a quadrilateral
@@ -576,11 +429,12 @@ inline face_verts ClipTriByPlaneOneOut(
     const vec3<float>& normal,
     const vec3<float>& vout,
     const vec3<float>& vin1,
-    const vec3<float>& vin2) {
+    const vec3<float>& vin2,
+    const float margin) {
   // point of intersection between plane and (vin1, vout)
-  const vec3<float> pint1 = PlaneEdgeIntersection(plane, normal, vin1, vout);
+  const vec3<float> pint1 = PlaneEdgeIntersection(plane, normal, vin1, vout, margin);
   // point of intersection between plane and (vin2, vout)
-  const vec3<float> pint2 = PlaneEdgeIntersection(plane, normal, vin2, vout);
+  const vec3<float> pint2 = PlaneEdgeIntersection(plane, normal, vin2, vout, margin);
   const face_verts face_verts = {{vin1, pint1, pint2}, {vin1, pint2, vin2}};
   return face_verts;
 }
@@ -605,11 +459,12 @@ inline face_verts ClipTriByPlaneTwoOut(
     const vec3<float>& normal,
     const vec3<float>& vout1,
     const vec3<float>& vout2,
-    const vec3<float>& vin) {
+    const vec3<float>& vin,
+    const float margin) {
   // point of intersection between plane and (vin, vout1)
-  const vec3<float> pint1 = PlaneEdgeIntersection(plane, normal, vin, vout1);
+  const vec3<float> pint1 = PlaneEdgeIntersection(plane, normal, vin, vout1, margin);
   // point of intersection between plane and (vin, vout2)
-  const vec3<float> pint2 = PlaneEdgeIntersection(plane, normal, vin, vout2);
+  const vec3<float> pint2 = PlaneEdgeIntersection(plane, normal, vin, vout2, margin);
   const face_verts face_verts = {{vin, pint1, pint2}};
   return face_verts;
 }
@@ -623,6 +478,7 @@ inline face_verts ClipTriByPlaneTwoOut(
 //    tri: std:vector<vec3> of the vertex coordinates of the
 //       triangle faces
 //    normal: vec3 of the direction of the plane normal
+//    margin: vertices up to this distance outside of the plane are inside
 //
 // Returns
 //    std::vector<std::vector<vec3>>: vector of vertex coordinates
@@ -632,24 +488,17 @@ inline face_verts ClipTriByPlaneTwoOut(
 inline face_verts ClipTriByPlane(
     const std::vector<vec3<float>>& plane,
     const std::vector<vec3<float>>& tri,
-    const vec3<float>& normal) {
+    const vec3<float>& normal,
+    const float margin) {
   // Get Triangle vertices
   const vec3<float> v0 = tri[0];
   const vec3<float> v1 = tri[1];
   const vec3<float> v2 = tri[2];
 
-  // Check coplanar
-  const bool iscoplanar = IsCoplanarTriPlane(tri, plane, normal);
-  if (iscoplanar) {
-    // Return input vertices
-    face_verts tris = {{v0, v1, v2}};
-    return tris;
-  }
-
   // Check each of the triangle vertices to see if it is inside the plane
-  const bool isin0 = IsInside(plane, normal, v0);
-  const bool isin1 = IsInside(plane, normal, v1);
-  const bool isin2 = IsInside(plane, normal, v2);
+  const bool isin0 = IsInside(plane, normal, v0, margin);
+  const bool isin1 = IsInside(plane, normal, v1, margin);
+  const bool isin2 = IsInside(plane, normal, v2, margin);
 
   // All in
   if (isin0 && isin1 && isin2) {
@@ -666,24 +515,24 @@ inline face_verts ClipTriByPlane(
 
   // One vert out
   if (isin0 && isin1 && !isin2) {
-    return ClipTriByPlaneOneOut(plane, normal, v2, v0, v1);
+    return ClipTriByPlaneOneOut(plane, normal, v2, v0, v1, margin);
   }
   if (isin0 && !isin1 && isin2) {
-    return ClipTriByPlaneOneOut(plane, normal, v1, v0, v2);
+    return ClipTriByPlaneOneOut(plane, normal, v1, v0, v2, margin);
   }
   if (!isin0 && isin1 && isin2) {
-    return ClipTriByPlaneOneOut(plane, normal, v0, v1, v2);
+    return ClipTriByPlaneOneOut(plane, normal, v0, v1, v2, margin);
   }
 
   // Two verts out
   if (isin0 && !isin1 && !isin2) {
-    return ClipTriByPlaneTwoOut(plane, normal, v1, v2, v0);
+    return ClipTriByPlaneTwoOut(plane, normal, v1, v2, v0, margin);
   }
   if (!isin0 && !isin1 && isin2) {
-    return ClipTriByPlaneTwoOut(plane, normal, v0, v1, v2);
+    return ClipTriByPlaneTwoOut(plane, normal, v0, v1, v2, margin);
   }
   if (!isin0 && isin1 && !isin2) {
-    return ClipTriByPlaneTwoOut(plane, normal, v0, v2, v1);
+    return ClipTriByPlaneTwoOut(plane, normal, v0, v2, v1, margin);
   }
 
   // Else return empty (should not be reached)
@@ -700,6 +549,7 @@ inline face_verts ClipTriByPlane(
 //    planes: vertex coordinates of all the planes in the box
 //    center: vec3 coordinates of the center of the box from which
 //        the planes originate
+//    margin: points up to this distance outside of a plane are inside
 //
 // Returns
 //    std::vector<std::vector<vec3>>> vector of vertex coordinates
@@ -709,7 +559,8 @@ inline face_verts ClipTriByPlane(
 inline face_verts BoxIntersections(
     const face_verts& tris,
     const face_verts& planes,
-    const vec3<float>& center) {
+    const vec3<float>& center,
+    const float margin) {
   // Create a new vector to avoid modifying in place
   face_verts out_tris = tris;
   for (int p = 0; p < NUM_PLANES; ++p) {
@@ -720,7 +571,7 @@ inline face_verts BoxIntersections(
     face_verts tri_verts_updated;
     for (int t = 0; t < out_tris.size(); ++t) {
       // Clip tri by plane
-      const face_verts tri_updated = ClipTriByPlane(planes[p], out_tris[t], n2);
+      const face_verts tri_updated = ClipTriByPlane(planes[p], out_tris[t], n2, margin);
       // Add to the tri_verts_updated output if not empty
       for (int v = 0; v < tri_updated.size(); ++v) {
         tri_verts_updated.push_back(tri_updated[v]);
-- 
2.43.0


From 94c11eb55cc4dd014e1c300b1503b30cb52cc1d1 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 082/147] fix: box3d_overlap checks each face for coplanarity
 and accepts empty batches

---
 pytorch3d/ops/iou_box3d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/iou_box3d.py b/pytorch3d/ops/iou_box3d.py
index 5b24581..4690558 100644
--- a/pytorch3d/ops/iou_box3d.py
+++ b/pytorch3d/ops/iou_box3d.py
@@ -61,9 +61,8 @@ def _check_coplanar(boxes: torch.Tensor, eps: float = 1e-4) -> None:
     normal = F.normalize(torch.cross(e0, e1, dim=-1), dim=-1)
 
     # Check the fourth vertex is also on the same plane
-    mat1 = (v3 - v0).view(B, 1, -1)  # (B, 1, P*3)
-    mat2 = normal.view(B, -1, 1)  # (B, P*3, 1)
-    if not (mat1.bmm(mat2).abs() < eps).all().item():
+    dists = ((v3 - v0) * normal).sum(-1)  # (B, P)
+    if not (dists.abs() < eps).all().item():
         msg = "Plane vertices are not coplanar"
         raise ValueError(msg)
 
-- 
2.43.0


From ae4a3a971809219d9777832b16d1a37c16ab1bd5 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 083/147] fix: corresponding_points_alignment minimizes the
 weighted squared error

---
 pytorch3d/ops/points_alignment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 1ae50cd..9e3cc61 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -336,12 +336,12 @@ def corresponding_points_alignment(
     Xc = Xt - Xmu
     # pyrefly: ignore [unsupported-operation]
     Yc = Yt - Ymu
+    Xc_weighted = Xc
 
     total_weight = torch.clamp(num_points, 1)
     # special handling for heterogeneous point clouds and/or input weights
     if weights is not None:
-        Xc *= weights[:, :, None]
-        Yc *= weights[:, :, None]
+        Xc_weighted = Xc * weights[:, :, None]
         total_weight = torch.clamp(weights.sum(1), eps)
 
     if (num_points < (dim + 1)).any():
@@ -351,7 +351,7 @@ def corresponding_points_alignment(
         )
 
     # compute the covariance XYcov between the point sets Xc, Yc
-    XYcov = torch.bmm(Xc.transpose(2, 1), Yc)
+    XYcov = torch.bmm(Xc_weighted.transpose(2, 1), Yc)
     XYcov = XYcov / total_weight[:, None, None]
 
     # decompose the covariance matrix XYcov
@@ -384,7 +384,7 @@ def corresponding_points_alignment(
     if estimate_scale:
         # estimate the scaling component of the transformation
         trace_ES = (torch.diagonal(E, dim1=1, dim2=2) * S).sum(1)
-        Xcov = (Xc * Xc).sum((1, 2)) / total_weight
+        Xcov = (Xc_weighted * Xc).sum((1, 2)) / total_weight
 
         # the scaling component
         s = trace_ES / torch.clamp(Xcov, eps)
-- 
2.43.0


From 7e6394d9e283dee1fe3173841fe536b6566808a0 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 084/147] fix: iterative_closest_point ignores the padding when
 X and Y have the same sizes

---
 pytorch3d/ops/points_alignment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 9e3cc61..4bcd445 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -114,9 +114,7 @@ def iterative_closest_point(
         )
 
     # pyrefly: ignore [missing-attribute]
-    if ((num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any()) and (
-        num_points_Y != num_points_X
-    ).any():
+    if (num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any():
         # we have a heterogeneous input (e.g. because X/Y is
         # an instance of Pointclouds)
         mask_X = (
-- 
2.43.0


From 91f43c6c29c6474528e488ce81f3bc321ef10155 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 085/147] fix: iterative_closest_point converges when the error
 is exactly zero

---
 pytorch3d/ops/points_alignment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 4bcd445..ede89b6 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -202,7 +202,9 @@ def iterative_closest_point(
         if prev_rmse is None:
             relative_rmse = rmse.new_ones(b)
         else:
-            relative_rmse = (prev_rmse - rmse) / prev_rmse
+            relative_rmse = (prev_rmse - rmse) / prev_rmse.clamp(
+                torch.finfo(rmse.dtype).tiny
+            )
 
         if verbose:
             rmse_msg = (
-- 
2.43.0


From 908387d46c23c84ca82d6027736f546323b90fd7 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 086/147] fix: cropping a voxel grid with align_corners=False
 at its border keeps the border

---
 .../models/implicit_function/voxel_grid.py    | 70 +++++++++----------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 26b64f5..0b0ea5f 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -21,7 +21,7 @@ import logging
 import warnings
 from collections.abc import Mapping
 from dataclasses import dataclass, field
-from typing import Any, Callable, ClassVar, Dict, Iterator, List, Optional, Tuple, Type
+from typing import Any, Callable, ClassVar, Dict, Iterator, List, Optional, Sequence, Tuple, Type
 
 import torch
 from omegaconf import DictConfig
@@ -324,6 +324,29 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         max_point_local = volume_locator.world_to_local_coords(max_point_world[None])[0]
         return self.crop_local(min_point_local, max_point_local, grid_values)
 
+    def _get_crop_range(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        resolution: Sequence[int],
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        Returns the indices of the first and last voxel, along each axis of a grid
+        of the given `resolution`, needed to evaluate the points of the box from
+        `min_point_local` to `max_point_local`.
+        """
+        size = min_point_local.new_tensor(resolution)
+        min_point_local01 = (torch.clamp(min_point_local, -1, 1) + 1) / 2
+        max_point_local01 = (torch.clamp(max_point_local, -1, 1) + 1) / 2
+        if self.align_corners:
+            min_idx = torch.floor(min_point_local01 * (size - 1))
+            max_idx = torch.ceil(max_point_local01 * (size - 1))
+        else:
+            # points in the outer half of a border voxel need only that voxel
+            min_idx = torch.floor(min_point_local01 * size - 0.5).clamp(min=0)
+            max_idx = torch.minimum(torch.ceil(max_point_local01 * size - 0.5), size - 1)
+        return min_idx.long(), max_idx.long()
+
     def crop_local(
         self,
         min_point_local: torch.Tensor,
@@ -416,19 +439,10 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         grid_values: FullResolutionVoxelGridValues,
     ) -> FullResolutionVoxelGridValues:
         assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
         _, _, width, height, depth = grid_values.voxel_grid.shape
-        resolution = grid_values.voxel_grid.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, (width, height, depth)
+        )
 
         return FullResolutionVoxelGridValues(
             voxel_grid=grid_values.voxel_grid[
@@ -544,21 +558,12 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         grid_values: CPFactorizedVoxelGridValues,
     ) -> CPFactorizedVoxelGridValues:
         assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
         _, _, width = grid_values.vector_components_x.shape
         _, _, height = grid_values.vector_components_y.shape
         _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, (width, height, depth)
+        )
 
         return CPFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -772,21 +777,12 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         grid_values: VMFactorizedVoxelGridValues,
     ) -> VMFactorizedVoxelGridValues:
         assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
         _, _, width = grid_values.vector_components_x.shape
         _, _, height = grid_values.vector_components_y.shape
         _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        (minx, miny, minz), (maxx, maxy, maxz) = self._get_crop_range(
+            min_point_local, max_point_local, (width, height, depth)
+        )
 
         return VMFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
-- 
2.43.0


From c72b7af979b462adf32bc080e4caec0d3d1e1982 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 087/147] fix: changing the resolution of a VoxelGridModule
 follows the align_corners of its grid

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 0b0ea5f..a802e36 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -947,7 +947,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         grid_values = self.voxel_grid.values_type(**self.params)
         grid_values, change = self.voxel_grid.change_resolution(
-            grid_values, epoch=epoch
+            grid_values,
+            epoch=epoch,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
         if change:
             self.set_voxel_grid_parameters(grid_values)
-- 
2.43.0


From 9f4d6c2dce901a9b23e751026efade91dec1afaa Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 088/147] fix: VoxelGridModule.get_grid_points returns the
 centers of the voxels in world coordinates

---
 .../models/implicit_function/voxel_grid.py        | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index a802e36..21de330 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1090,15 +1090,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         xresolution, yresolution, zresolution = self.voxel_grid.get_resolution(epoch)
         width, height, depth = self.extents
         if not self.voxel_grid.get_align_corners():
-            width = (
-                width * (xresolution - 1) / xresolution if xresolution > 1 else width
-            )
-            height = (
-                height * (xresolution - 1) / xresolution if xresolution > 1 else height
-            )
-            depth = (
-                depth * (xresolution - 1) / xresolution if xresolution > 1 else depth
-            )
+            width = width * (xresolution - 1) / xresolution
+            height = height * (yresolution - 1) / yresolution
+            depth = depth * (zresolution - 1) / zresolution
         xs = torch.linspace(
             -width / 2, width / 2, xresolution, device=self.get_device()
         )
@@ -1109,7 +1103,8 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             -depth / 2, depth / 2, zresolution, device=self.get_device()
         )
         xmesh, ymesh, zmesh = torch.meshgrid(xs, ys, zs, indexing="ij")
-        return torch.stack((xmesh, ymesh, zmesh), dim=3)
+        points = torch.stack((xmesh, ymesh, zmesh), dim=3)
+        return points + points.new_tensor(self.translation)
 
 
 class _RegistratedBufferDict(torch.nn.Module, Mapping):
-- 
2.43.0


From 0bdfef4a994a66f6657de143be6541fb8933bb54 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 089/147] fix: change_resolution supports the modes which have
 no align_corners

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 21de330..2778ae0 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -238,7 +238,7 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
                 input=tensor,
                 size=wanted_resolution,
                 mode=new_mode,
-                align_corners=align_corners,
+                align_corners=align_corners if mode in ("linear", "bicubic") else None,
                 recompute_scale_factor=False,
                 **interp_kwargs,
             )
-- 
2.43.0


From d97e8f9d3e44e8f57852961fd928a9a9f9068071 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 090/147] fix: voxel grids and volumes take points which are
 not contiguous in memory

---
 .../implicitron/models/implicit_function/voxel_grid.py      | 6 +++---
 pytorch3d/structures/volumes.py                             | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 2778ae0..0b9671c 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -417,7 +417,7 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         """
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
         interpolated = interpolate_volume(
             points,
             grid_values.voxel_grid,
@@ -518,7 +518,7 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
 
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from all the vectors and multipy them out
         mult = factor("x") * factor("y") * factor("z")
@@ -645,7 +645,7 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
     ) -> torch.Tensor:
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from matrices and vectors and multiply them
         a = interpolate_plane(
diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 45ab420..9fc3a89 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -944,7 +944,7 @@ class VolumeLocator:
         pts_shape = points_3d_world.shape
         return (
             self.get_world_to_local_coords_transform()
-            .transform_points(points_3d_world.view(pts_shape[0], -1, 3))
+            .transform_points(points_3d_world.reshape(pts_shape[0], -1, 3))
             .view(pts_shape)
         )
 
@@ -968,7 +968,7 @@ class VolumeLocator:
         pts_shape = points_3d_local.shape
         return (
             self.get_local_to_world_coords_transform()
-            .transform_points(points_3d_local.view(pts_shape[0], -1, 3))
+            .transform_points(points_3d_local.reshape(pts_shape[0], -1, 3))
             .view(pts_shape)
         )
 
-- 
2.43.0


From 2f655523f4b30029a202249167e5b17480a2610e Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 091/147] fix: factorized voxel grids support mode='trilinear'

---
 pytorch3d/implicitron/models/implicit_function/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index d0e7ccd..45901fe 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -119,6 +119,8 @@ def interpolate_line(
     source = source[:, :, None, :]
     points = points[:, :, None, :]
 
+    if kwargs.get("mode") == "trilinear":
+        kwargs = {**kwargs, "mode": "bilinear"}
     out = F.grid_sample(
         grid=points,
         input=source,
@@ -150,6 +152,8 @@ def interpolate_plane(
     source = source.permute(0, 1, 3, 2)
     points = points[:, :, None, :]
 
+    if kwargs.get("mode") == "trilinear":
+        kwargs = {**kwargs, "mode": "bilinear"}
     out = F.grid_sample(
         grid=points,
         input=source,
-- 
2.43.0


From 6eedb5fc3a7b3e86fe285814a877eb602e78f7fb Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 092/147] fix: cropping a VoxelGridModule keeps its values in
 place

---
 .../models/implicit_function/voxel_grid.py    | 93 ++++++++++++++++---
 1 file changed, 79 insertions(+), 14 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 0b9671c..3bf10b4 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -324,6 +324,45 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         max_point_local = volume_locator.world_to_local_coords(max_point_world[None])[0]
         return self.crop_local(min_point_local, max_point_local, grid_values)
 
+    def get_values_resolution(
+        self, grid_values: VoxelGridValuesBase
+    ) -> Tuple[int, ...]:
+        """
+        Returns the resolution of `grid_values`: its x, y and z grid sizes.
+        """
+        raise NotImplementedError()
+
+    def get_cropped_box_local(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        grid_values: VoxelGridValuesBase,
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        Returns the box covered by the voxels that `crop_local` keeps. It contains the
+        box from `min_point_local` to `max_point_local` as far as the grid reaches.
+
+        Args:
+            min_point_local: torch.Tensor of shape (3,). See `crop_local`.
+            max_point_local: torch.Tensor of shape (3,). See `crop_local`.
+            grid_values: the values before cropping
+
+        Returns:
+            the local coordinates of the corners of the box, two tensors of shape (3,)
+        """
+        resolution = self.get_values_resolution(grid_values)
+        min_idx, max_idx = self._get_crop_range(
+            min_point_local, max_point_local, resolution
+        )
+        size = min_point_local.new_tensor(resolution)
+        if self.align_corners:
+            min_01 = min_idx / (size - 1).clamp(min=1)
+            # all the points of an axis with a single voxel have the same value
+            max_01 = torch.where(size > 1, max_idx / (size - 1).clamp(min=1), 1.0)
+        else:
+            min_01, max_01 = min_idx / size, (max_idx + 1) / size
+        return min_01 * 2 - 1, max_01 * 2 - 1
+
     def _get_crop_range(
         self,
         min_point_local: torch.Tensor,
@@ -432,6 +471,11 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         return {"voxel_grid": (self.n_features, width, height, depth)}
 
     # pyre-ignore[14]
+    def get_values_resolution(
+        self, grid_values: FullResolutionVoxelGridValues
+    ) -> Tuple[int, ...]:
+        return tuple(grid_values.voxel_grid.shape[2:])
+
     def crop_local(
         self,
         min_point_local: torch.Tensor,
@@ -551,6 +595,15 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         return shape_dict
 
     # pyre-ignore[14]
+    def get_values_resolution(
+        self, grid_values: CPFactorizedVoxelGridValues
+    ) -> Tuple[int, ...]:
+        return (
+            grid_values.vector_components_x.shape[2],
+            grid_values.vector_components_y.shape[2],
+            grid_values.vector_components_z.shape[2],
+        )
+
     def crop_local(
         self,
         min_point_local: torch.Tensor,
@@ -770,6 +823,15 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         return shape_dict
 
     # pyre-ignore[14]
+    def get_values_resolution(
+        self, grid_values: VMFactorizedVoxelGridValues
+    ) -> Tuple[int, ...]:
+        return (
+            grid_values.vector_components_x.shape[2],
+            grid_values.vector_components_y.shape[2],
+            grid_values.vector_components_z.shape[2],
+        )
+
     def crop_local(
         self,
         min_point_local: torch.Tensor,
@@ -1013,7 +1075,8 @@ class VoxelGridModule(Configurable, torch.nn.Module):
 
     def crop_self(self, min_point: torch.Tensor, max_point: torch.Tensor) -> None:
         """
-        Crops self to only represent points between min_point and max_point (inclusive).
+        Crops self to only represent points between min_point and max_point (inclusive)
+        and those that share a voxel with them.
 
         Args:
             min_point: torch.Tensor of shape (3,). Has x, y and z coordinates
@@ -1027,24 +1090,26 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         #  torch.nn.modules.module.Module]` is not a function.
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         old_grid_values = self.voxel_grid.values_type(**self.params)
-        new_grid_values = self.voxel_grid.crop_world(
-            min_point, max_point, old_grid_values, locator
+        min_point_local = locator.world_to_local_coords(min_point[None])[0]
+        max_point_local = locator.world_to_local_coords(max_point[None])[0]
+        new_grid_values = self.voxel_grid.crop_local(
+            min_point_local, max_point_local, old_grid_values
         )
-        grid_values, _ = self.voxel_grid.change_resolution(
-            new_grid_values, grid_values_with_wanted_resolution=old_grid_values
+        # Whole voxels have been kept, so the grid covers at least the wanted box.
+        box_local = self.voxel_grid.get_cropped_box_local(
+            min_point_local, max_point_local, old_grid_values
         )
-        # pyre-fixme[16]: `VoxelGridModule` has no attribute `params`.
-        self.params = torch.nn.ParameterDict(
-            {
-                k: torch.nn.Parameter(val)
-                for k, val in vars(grid_values).items()
-                if val is not None
-            }
+        grid_values, _ = self.voxel_grid.change_resolution(
+            new_grid_values,
+            grid_values_with_wanted_resolution=old_grid_values,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
+        self.set_voxel_grid_parameters(grid_values)
+        min_point, max_point = locator.local_to_world_coords(torch.stack(box_local)[None])[0]
         # New center of voxel grid is the middle point between max and min points.
-        self.translation = tuple((max_point + min_point) / 2)
+        self.translation = tuple(((max_point + min_point) / 2).tolist())
         # new extents of voxel grid are distances between min and max points
-        self.extents = tuple(max_point - min_point)
+        self.extents = tuple((max_point - min_point).tolist())
 
     def _get_volume_locator(self) -> VolumeLocator:
         """
-- 
2.43.0


From 02fa8eac92907f82c84635be3809e7a5f98ce1ac Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 093/147] fix: scaffold_occupancy_chunk_size splits the
 scaffold into planes

---
 .../implicit_function/voxel_grid_implicit_function.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ecd8468..6c21f61 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -536,10 +536,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         chunk_size = (
             self.scaffold_occupancy_chunk_size
             if self.scaffold_occupancy_chunk_size > 0
-            else points.shape[-1]
+            else points.shape[2]
         )
-        for k in range(0, points.shape[-1], chunk_size):
-            points_in_planes = points[..., k : k + chunk_size]
+        for k in range(0, points.shape[2], chunk_size):
+            points_in_planes = points[:, :, k : k + chunk_size]
             planes.append(self._get_density(points_in_planes)[..., 0])
 
         density_cube = torch.cat(planes, dim=-1)
-- 
2.43.0


From dd54d2ad67757e732e457f99e9d251cd3c43ad8b Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 094/147] fix: ray directions in camera coordinates for grids
 of rays and several cameras

---
 .../models/implicit_function/neural_radiance_field.py |  8 ++++----
 .../scene_representation_networks.py                  |  8 ++++----
 .../implicitron/models/implicit_function/utils.py     | 11 +++++++++++
 .../implicit_function/voxel_grid_implicit_function.py |  7 ++++---
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
index 7ba577e..7c78a15 100644
--- a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
@@ -26,7 +26,7 @@ from .decoding_functions import (  # noqa
     MLPWithInputSkips,
     TransformerWithInputSkips,
 )
-from .utils import create_embeddings_for_implicit_function
+from .utils import create_embeddings_for_implicit_function, rotate_directions_to_camera_coords
 
 
 logger = logging.getLogger(__name__)
@@ -224,9 +224,9 @@ class NeuralRadianceFieldBase(ImplicitFunctionBase, torch.nn.Module):
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
 
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = rotate_directions_to_camera_coords(
+                ray_bundle.directions, camera
+            )
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 8c17077..9819650 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -16,7 +16,7 @@ from pytorch3d.renderer.cameras import CamerasBase
 from pytorch3d.renderer.implicit import HarmonicEmbedding
 
 from .base import ImplicitFunctionBase
-from .utils import create_embeddings_for_implicit_function
+from .utils import create_embeddings_for_implicit_function, rotate_directions_to_camera_coords
 
 
 def _kaiming_normal_init(module: torch.nn.Module) -> None:
@@ -208,9 +208,9 @@ class SRNPixelGenerator(Configurable, torch.nn.Module):
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
 
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = rotate_directions_to_camera_coords(
+                ray_bundle.directions, camera
+            )
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index 45901fe..4a3d52d 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -30,6 +30,17 @@ def broadcast_global_code(embeds: torch.Tensor, global_code: torch.Tensor):
     return torch.cat([embeds, global_code_broadcast], dim=-1)
 
 
+def rotate_directions_to_camera_coords(
+    directions: torch.Tensor, camera: CamerasBase
+) -> torch.Tensor:
+    """
+    Rotates the ray `directions` of shape (minibatch, ..., 3) from the world to the
+    coordinates of the camera of their batch element.
+    """
+    bs = camera.R.shape[0]
+    return (directions.reshape(bs, -1, 3) @ camera.R).reshape(directions.shape)
+
+
 def create_embeddings_for_implicit_function(
     xyz_world: torch.Tensor,
     xyz_in_camera_coords: bool,
diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 6c21f61..c228ebb 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -19,6 +19,9 @@ from pytorch3d.implicitron.models.implicit_function.decoding_functions import (
     DecoderFunctionBase,
 )
 from pytorch3d.implicitron.models.implicit_function.voxel_grid import VoxelGridModule
+from pytorch3d.implicitron.models.implicit_function.utils import (
+    rotate_directions_to_camera_coords,
+)
 from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
 from pytorch3d.implicitron.tools.config import (
     enable_get_default_args,
@@ -407,9 +410,7 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         if self.xyz_ray_dir_in_camera_coords:
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = directions @ camera.R
+            directions = rotate_directions_to_camera_coords(directions, camera)
 
         # ########## get voxel grid output ########## #
         # embeds_color.shape = [..., pts_per_ray, n_features]
-- 
2.43.0


From 56bb3f93b8abd0b134e4e70c498543debb8896f8 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 095/147] fix: the state dict of a cropped VoxelGridModule has
 the box it was cropped to

---
 .../models/implicit_function/voxel_grid.py     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 3bf10b4..68cd5fb 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -928,6 +928,8 @@ class VoxelGridModule(Configurable, torch.nn.Module):
 
         self.set_voxel_grid_parameters(self.voxel_grid.values_type(**params))
         self._register_load_state_dict_pre_hook(self._create_parameters_with_new_size)
+        self._is_cropped = False
+        self._register_state_dict_hook(_save_cropped_box_hook)
 
     def forward(self, points: torch.Tensor) -> torch.Tensor:
         """
@@ -1055,6 +1057,10 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             nothing
         """
         '''
+        cropped_box = state_dict.pop(prefix + _CROPPED_BOX_KEY, None)
+        if cropped_box is not None:
+            self.translation, self.extents = (tuple(x) for x in cropped_box.tolist())
+            self._is_cropped = True
         new_params = {}
         # pyre-fixme[29]: `Union[(self: Tensor) -> Any, Tensor, Module]` is not a
         #  function.
@@ -1110,6 +1116,7 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         self.translation = tuple(((max_point + min_point) / 2).tolist())
         # new extents of voxel grid are distances between min and max points
         self.extents = tuple((max_point - min_point).tolist())
+        self._is_cropped = True
 
     def _get_volume_locator(self) -> VolumeLocator:
         """
@@ -1172,6 +1179,17 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         return points + points.new_tensor(self.translation)
 
 
+# Where the translation and extents of a cropped VoxelGridModule are in its state dict
+_CROPPED_BOX_KEY = "_cropped_box"
+
+
+def _save_cropped_box_hook(self, state_dict, prefix, local_metadata) -> None:
+    if self._is_cropped:
+        state_dict[prefix + _CROPPED_BOX_KEY] = torch.tensor(
+            [self.translation, self.extents]
+        )
+
+
 class _RegistratedBufferDict(torch.nn.Module, Mapping):
     """
     Mapping class and a torch.nn.Module that registeres its values
-- 
2.43.0


From ddac9de764c88d8d5959165f09dd53d2100a70f8 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 096/147] fix: vert_align returns packed features of
 Pointclouds without the padding

---
 pytorch3d/ops/vert_align.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/vert_align.py b/pytorch3d/ops/vert_align.py
index fd1a90d..c672692 100644
--- a/pytorch3d/ops/vert_align.py
+++ b/pytorch3d/ops/vert_align.py
@@ -96,11 +96,14 @@ def vert_align(
     if return_packed:
         # flatten the first two dimensions: (N*V, C)
         feats_sampled = feats_sampled.view(-1, feats_sampled.shape[-1])
-        if hasattr(verts, "verts_padded_to_packed_idx"):
+        padded_to_packed_idx = getattr(
+            verts,
+            "verts_padded_to_packed_idx",
+            getattr(verts, "padded_to_packed_idx", None),
+        )
+        if padded_to_packed_idx is not None:
             idx = (
-                verts.verts_padded_to_packed_idx()
-                .view(-1, 1)
-                .expand(-1, feats_sampled.shape[-1])
+                padded_to_packed_idx().view(-1, 1).expand(-1, feats_sampled.shape[-1])
             )
             feats_sampled = feats_sampled.gather(0, idx)  # (sum(V), C)
 
-- 
2.43.0


From 345ddc596b3a5ec39012446ade740688f315dfc3 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 097/147] fix: pooling features by their maximum works and
 ignores the masked views

---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 5d600b0..bc20091 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -685,6 +685,7 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
-    big_M = x.max(dim=dim, keepdim=True).values.abs() * big_M_factor
+    w = w[..., None]
+    big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From 4c0b96c5e1ae00d0fdaaa5620ab15ca6b27db3ec Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 098/147] fix: calc_bce bounds the probabilities, not the
 logits, by pred_eps

---
 pytorch3d/implicitron/tools/metric_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index bdb8cfa..ceb0d95 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -136,7 +136,11 @@ def calc_bce(
     """
     if pred_eps > 0.0:
         # up/low bound the predictions
-        pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
+        if pred_logits:
+            logit_bound = math.log(1.0 - pred_eps) - math.log(pred_eps)
+            pred = torch.clamp(pred, -logit_bound, logit_bound)
+        else:
+            pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
 
     if mask is None:
         mask = torch.ones_like(gt)
-- 
2.43.0


From 8f1e8d449e5d0cc0768f00697ce3a892da196be0 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 099/147] fix: the gradient of log_lerp is finite at 0

---
 pytorch3d/implicitron/tools/metric_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index ceb0d95..d1bc949 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -196,7 +196,8 @@ def log_lerp(x: torch.Tensor, b: float):
     Linearly extrapolated log for x < b.
     """
     assert b > 0
-    return torch.where(x >= b, x.log(), math.log(b) + (x - b) / b)
+    # the clamp keeps the gradient of the branch which is not selected finite
+    return torch.where(x >= b, x.clamp(min=b).log(), math.log(b) + (x - b) / b)
 
 
 def rgb_l1(
-- 
2.43.0


From e44a8baac90b09a9731e6a7d7f0e99e1b2287bf2 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 100/147] fix: mask_background takes background tensors for any
 dim_color

---
 pytorch3d/implicitron/tools/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/image_utils.py b/pytorch3d/implicitron/tools/image_utils.py
index 7e8b3b0..f105094 100644
--- a/pytorch3d/implicitron/tools/image_utils.py
+++ b/pytorch3d/implicitron/tools/image_utils.py
@@ -27,7 +27,7 @@ def mask_background(
     tgt_view[dim_color] = 3
     # obtain the background color tensor
     if isinstance(bg_color, torch.Tensor):
-        bg_color_t = bg_color.view(1, 3, 1, 1).clone().to(image_rgb)
+        bg_color_t = bg_color.view(*tgt_view).clone().to(image_rgb)
     elif isinstance(bg_color, (float, tuple, list)):
         if isinstance(bg_color, float):
             bg_color = [bg_color] * 3
-- 
2.43.0


From 13ed89d2cac110ae316a598195a200fd5c3ae495 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 101/147] fix: metrics of packed ray bundles select the images
 of their cameras once

---
 pytorch3d/implicitron/models/metrics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 9555b62..d8eb673 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -271,9 +271,6 @@ class ViewMetrics(ViewMetricsBase):
 
             # select images that corespond to sampled cameras if raybundle is packed
             tensor = tensor[ray_bundle.camera_ids]
-            if ray_bundle.is_packed():
-                # select images that corespond to sampled cameras if raybundle is packed
-                tensor = tensor[ray_bundle.camera_ids]
             result = rend_utils.ndc_grid_sample(tensor, xys, mode=mode)
             return padded_to_packed(result, first_idxs, num_inputs, max_size_dim=2)[
                 :, :, None
-- 
2.43.0


From 61bb5ed3aa80bc3c5f7848c94575757bfef9f8f6 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 102/147] fix: eikonal loss takes gradients of any shape (B,
 ..., 3)

---
 pytorch3d/implicitron/models/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index d8eb673..c5177b7 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -388,7 +388,7 @@ def _rgb_metrics(
 
 
 def _get_eikonal_loss(grad_theta):
-    return ((grad_theta.norm(2, dim=1) - 1) ** 2).mean()
+    return ((grad_theta.norm(2, dim=-1) - 1) ** 2).mean()
 
 
 def _get_grid_tv_loss(grid, log_domain: bool = True, eps: float = 1e-5):
-- 
2.43.0


From 19b7fe00be51059214b2d9600622f679ad6e80b8 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 103/147] fix: the total variation of a density grid (B, H, W,
 D, 1) is not NaN

---
 pytorch3d/implicitron/models/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index c5177b7..fe368cd 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -392,6 +392,8 @@ def _get_eikonal_loss(grad_theta):
 
 
 def _get_grid_tv_loss(grid, log_domain: bool = True, eps: float = 1e-5):
+    # drop the last dimension of the (B, H, W, D, 1) grid
+    grid = grid[..., 0]
     if log_domain:
         if (grid <= -eps).any():
             warnings.warn("Grid has negative values; this will produce NaN loss")
-- 
2.43.0


From 260ff78d057c1eb8c99611471f081a0174896a63 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 104/147] fix: mask and depth metrics of packed ray bundles are
 computed per image, not per ray

---
 pytorch3d/implicitron/models/metrics.py | 26 +++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index fe368cd..65d5c0b 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -13,7 +13,7 @@ import torch
 from pytorch3d.implicitron.models.renderer.ray_sampler import ImplicitronRayBundle
 from pytorch3d.implicitron.tools import metric_utils as utils
 from pytorch3d.implicitron.tools.config import registry, ReplaceableBase
-from pytorch3d.ops import padded_to_packed
+from pytorch3d.ops import packed_to_padded, padded_to_packed
 from pytorch3d.renderer import utils as rend_utils
 
 from .renderer.base import RendererOutput
@@ -276,6 +276,14 @@ class ViewMetrics(ViewMetricsBase):
                 :, :, None
             ]  # the result is [n_rays_total_training, 3, 1, 1]
 
+        # (n_rays_total_training, dim, 1, 1) -> (n_cameras, dim, max_rays, 1); metrics
+        # which are defined per image need the rays of a packed bundle grouped by image
+        def group_by_image(tensor):
+            if not ray_bundle.is_packed():
+                return tensor
+            padded = packed_to_padded(tensor[..., 0, 0], first_idxs, xys.shape[1])
+            return padded.permute(0, 2, 1)[..., None]
+
         sample = sample_packed if ray_bundle.is_packed() else sample_full
 
         # eval all results in this size
@@ -303,7 +311,9 @@ class ViewMetrics(ViewMetricsBase):
             metrics["mask_beta_prior"] = utils.beta_prior(fg_probability_pred)
         if fg_probability is not None and fg_probability_pred is not None:
             metrics["mask_neg_iou"] = utils.neg_iou_loss(
-                fg_probability_pred, fg_probability, mask=mask_crop
+                group_by_image(fg_probability_pred),
+                group_by_image(fg_probability),
+                mask=None if mask_crop is None else group_by_image(mask_crop),
             )
             if torch.is_autocast_enabled():
                 # To avoid issues with mixed precision
@@ -324,17 +334,21 @@ class ViewMetrics(ViewMetricsBase):
         if depth_map is not None and depth_map_pred is not None:
             assert mask_crop is not None
             _, abs_ = utils.eval_depth(
-                depth_map_pred, depth_map, get_best_scale=True, mask=mask_crop, crop=0
+                group_by_image(depth_map_pred),
+                group_by_image(depth_map),
+                get_best_scale=True,
+                mask=group_by_image(mask_crop),
+                crop=0,
             )
             metrics["depth_abs"] = abs_.mean()
 
             if fg_probability is not None:
                 mask = fg_probability * mask_crop
                 _, abs_ = utils.eval_depth(
-                    depth_map_pred,
-                    depth_map,
+                    group_by_image(depth_map_pred),
+                    group_by_image(depth_map),
                     get_best_scale=True,
-                    mask=mask,
+                    mask=group_by_image(mask),
                     crop=0,
                 )
                 metrics["depth_abs_fg"] = abs_.mean()
-- 
2.43.0


From 6c5af7ca8fa987ac4440cadbb18d4f2b16cecb99 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 105/147] fix: SplatterBlender looks up occlusion layers in the
 direction of the splat

---
 pytorch3d/renderer/splatter_blend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 936944b..0a42b1c 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -537,6 +537,14 @@ class SplatterBlender(torch.nn.Module):
         occlusion_layers = _compute_occlusion_layers(
             pixel_coords_screen[..., 2:3].squeeze(dim=-1)
         )  # (N, H, W, 9)
+        # The nine neighbors are enumerated as (h, w) in occlusion_layers, and as
+        # (x, y) in the offsets of the splats.
+        N, H, W, _ = occlusion_layers.shape
+        occlusion_layers = (
+            occlusion_layers.reshape(N, H, W, 3, 3)
+            .transpose(3, 4)
+            .reshape(N, H, W, 9)
+        )
 
         splat_colors_and_weights = _compute_splatting_colors_and_weights(
             pixel_coords_screen,
-- 
2.43.0


From 2091ef46cbd19d3f9f0676353523a2bb419d84ba Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 106/147] fix: symeig3x3 is accurate for matrices of any scale

---
 pytorch3d/common/workaround/symeig3x3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/common/workaround/symeig3x3.py b/pytorch3d/common/workaround/symeig3x3.py
index ca73660..c5f9134 100644
--- a/pytorch3d/common/workaround/symeig3x3.py
+++ b/pytorch3d/common/workaround/symeig3x3.py
@@ -77,6 +77,11 @@ class _SymEig3x3(nn.Module):
         if inputs.shape[-2:] != (3, 3):
             raise ValueError("Only inputs of shape (..., 3, 3) are supported.")
 
+        # The epsilons below are for matrices whose largest element is around 1.
+        scale = inputs.detach().abs().amax(dim=(-1, -2), keepdim=True)
+        scale = torch.where(scale > 0, scale, torch.ones_like(scale))
+        inputs = inputs / scale
+
         inputs_diag = inputs.diagonal(dim1=-2, dim2=-1)
         inputs_trace = inputs_diag.sum(-1)
         q = inputs_trace / 3.0
@@ -120,7 +125,7 @@ class _SymEig3x3(nn.Module):
         else:
             eigenvecs = None
 
-        return eigenvals, eigenvecs
+        return eigenvals * scale[..., 0], eigenvecs
 
     def _construct_eigenvecs_set(
         self, inputs: torch.Tensor, eigenvals: torch.Tensor
-- 
2.43.0


From f8f9c62a6034efbe69c9c79b3d31b6f919561773 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 107/147] fix: gradient of symeig3x3 for equally spaced
 eigenvalues

---
 pytorch3d/common/workaround/symeig3x3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/common/workaround/symeig3x3.py b/pytorch3d/common/workaround/symeig3x3.py
index c5f9134..8feb2f9 100644
--- a/pytorch3d/common/workaround/symeig3x3.py
+++ b/pytorch3d/common/workaround/symeig3x3.py
@@ -98,7 +98,9 @@ class _SymEig3x3(nn.Module):
         # pyrefly: ignore [unsupported-operation]
         B = (inputs - q[..., None, None] * self._identity) / p[..., None, None]
 
-        r = torch.det(B) / 2.0
+        # The gradient of torch.det is wrong where the determinant is exactly 0.
+        det = (torch.cross(B[..., 0, :], B[..., 1, :], dim=-1) * B[..., 2, :]).sum(-1)
+        r = det / 2.0
         # Keep r within (-1.0, 1.0) boundaries with a margin to prevent exploding gradients.
         r = r.clamp(-1.0 + self._eps, 1.0 - self._eps)
 
-- 
2.43.0


From 71c56470c5f808bfa22ca8eb0708c72b13f1ce0e Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 108/147] fix: get_rotation_to_best_fit_xy works for a batch of
 3

---
 pytorch3d/implicitron/tools/circle_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/circle_fitting.py b/pytorch3d/implicitron/tools/circle_fitting.py
index 7f6cd1a..b0330cc 100644
--- a/pytorch3d/implicitron/tools/circle_fitting.py
+++ b/pytorch3d/implicitron/tools/circle_fitting.py
@@ -36,7 +36,7 @@ def get_rotation_to_best_fit_xy(
     # in general, evec can form either right- or left-handed basis,
     # but we need the former to have a proper rotation (not reflection)
     return torch.cat(
-        (evec[..., 1:], torch.cross(evec[..., 1], evec[..., 2])[..., None]), dim=-1
+        (evec[..., 1:], torch.cross(evec[..., 1], evec[..., 2], dim=-1)[..., None]), dim=-1
     )
 
 
-- 
2.43.0


From 8a3eb556ec45356aaf0d6803b943f5cc21d8a26f Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 109/147] fix: traj_offset_canonical is in the local
 coordinates of the trajectory

---
 pytorch3d/implicitron/tools/eval_video_trajectory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/tools/eval_video_trajectory.py b/pytorch3d/implicitron/tools/eval_video_trajectory.py
index f46fe29..d3ecec5 100644
--- a/pytorch3d/implicitron/tools/eval_video_trajectory.py
+++ b/pytorch3d/implicitron/tools/eval_video_trajectory.py
@@ -112,15 +112,17 @@ def generate_eval_video_cameras(
                 for k in ("focal_length", "principal_point", "R", "T")
             }
         )
-        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale).compose(
-            mean_camera.get_world_to_view_transform().inverse()
-        )
+        traj_trans = Scale(cam_centers.std(dim=0).mean() * trajectory_scale)
 
         if traj_offset_canonical is not None:
             traj_trans = traj_trans.translate(
                 torch.FloatTensor(traj_offset_canonical)[None].to(traj)
             )
 
+        traj_trans = traj_trans.compose(
+            mean_camera.get_world_to_view_transform().inverse()
+        )
+
         traj = traj_trans.transform_points(traj)
 
         plane_normal = _fit_plane(cam_centers)[:, 0]
-- 
2.43.0


From c7c8240b5fe9285db6296f66dcbf1a1dda9944c9 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 110/147] fix: cleanup_eval_depth looks up points in images of
 any shape

---
 pytorch3d/implicitron/tools/depth_cleanup.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/tools/depth_cleanup.py b/pytorch3d/implicitron/tools/depth_cleanup.py
index 76edf96..2dd84ba 100644
--- a/pytorch3d/implicitron/tools/depth_cleanup.py
+++ b/pytorch3d/implicitron/tools/depth_cleanup.py
@@ -7,9 +7,9 @@
 # pyre-unsafe
 
 import torch
-import torch.nn.functional as Fu
 from pytorch3d.ops import wmean
 from pytorch3d.renderer.cameras import CamerasBase
+from pytorch3d.renderer.utils import ndc_grid_sample
 from pytorch3d.structures import Pointclouds
 
 
@@ -30,22 +30,21 @@ def cleanup_eval_depth(
         < n_pts[:, None]
     ).type_as(pcl)
 
-    pcl_proj = camera.transform_points(pcl, eps=1e-2)[..., :-1]
+    pcl_proj = camera.transform_points_ndc(pcl, eps=1e-2)[..., :-1]
     pcl_depth = camera.get_world_to_view_transform().transform_points(pcl)[..., -1]
 
     depth_and_idx = torch.cat(
         (
             depth,
             torch.arange(H * W).view(1, 1, H, W).expand(ba, 1, H, W).type_as(depth),
+            torch.ones_like(depth),
         ),
         dim=1,
     )
 
-    depth_and_idx_sampled = Fu.grid_sample(
-        depth_and_idx, -pcl_proj[:, None], mode="nearest"
-    )[:, :, 0].view(ba, 2, -1)
+    depth_and_idx_sampled = ndc_grid_sample(depth_and_idx, pcl_proj, mode="nearest")
 
-    depth_sampled, idx_sampled = depth_and_idx_sampled.split([1, 1], dim=1)
+    depth_sampled, idx_sampled, in_image = depth_and_idx_sampled.split([1, 1, 1], dim=1)
     df = (depth_sampled[:, 0] - pcl_depth).abs()
 
     # the threshold is a sigma-multiple of the standard deviation of the depth
@@ -58,7 +57,7 @@ def cleanup_eval_depth(
         .view(ba, -1)
     )
     good_df_thr = std * sigma
-    good_depth = (df <= good_df_thr).float() * pcl_mask
+    good_depth = (df <= good_df_thr).float() * pcl_mask * in_image[:, 0]
 
     # perc_kept = good_depth.sum(dim=1) / pcl_mask.sum(dim=1).clamp(1)
     # print(f'Kept {100.0 * perc_kept.mean():1.3f} % points')
-- 
2.43.0


From 6b8c1cd5b86a86e80f38b12bf7a8fc1adc38b1df Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 111/147] fix: rasterize_sparse_ray_bundle does not draw the
 padding of packed bundles

---
 pytorch3d/implicitron/tools/rasterize_mc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/tools/rasterize_mc.py b/pytorch3d/implicitron/tools/rasterize_mc.py
index ff1fd1e..a431bfd 100644
--- a/pytorch3d/implicitron/tools/rasterize_mc.py
+++ b/pytorch3d/implicitron/tools/rasterize_mc.py
@@ -60,6 +60,9 @@ def rasterize_sparse_ray_bundle(
             < camera_counts[:, None, None]
         )
 
+        # keep the padding out of the image
+        xys = torch.where(masks_ras[..., None], xys, xys.new_tensor(1e3))
+
         max_size = torch.max(camera_counts).item()
         features_depth_ras = packed_to_padded(
             # pyrefly: ignore [bad-argument-type]
-- 
2.43.0


From 88134d805719076cb1eeedb6d3143824bb620586 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 112/147] fix: orthographic pulsar images are not shifted by
 half a pixel

---
 pytorch3d/csrc/pulsar/include/renderer.draw.device.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index cb8ecab..1088c90 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -101,14 +101,14 @@ INLINE DEVICE bool draw(
         cam.pixel_dir_y / length(cam.pixel_dir_y),
         cam.sensor_dir_z);
     raydiff =
-        make_float3( // TODO: make offset consistent with `get_screen_area`.
+        make_float3(
             center.x -
                 (projected_ray.x -
-                 static_cast<float>(cam.aperture_width) * .5f) *
+                 (static_cast<float>(cam.aperture_width) - 1.f) * .5f) *
                     (2.f * cam.half_pixel_size),
             center.y -
                 (projected_ray.y -
-                 static_cast<float>(cam.aperture_height) * .5f) *
+                 (static_cast<float>(cam.aperture_height) - 1.f) * .5f) *
                     (2.f * cam.half_pixel_size),
             0.f);
   } else {
-- 
2.43.0


From cbed3ce7653fd7a731de2e9f07d49e3dd27f572a Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 113/147] fix: gradients of orthographic pulsar images for
 rotated cameras

---
 .../pulsar/include/renderer.draw.device.h     | 148 ++++--------------
 1 file changed, 33 insertions(+), 115 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 1088c90..146f553 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -544,37 +544,26 @@ INLINE DEVICE bool draw(
             const float pixel_size = length(cam.pixel_dir_x);
             // pixel_size is the same as length(pixeldiry)!
             const float pixel_size_rcp = FRCP(pixel_size);
-            float3 dcenterDdposglob =
-                (cam.pixel_dir_x + cam.pixel_dir_y) * pixel_size_rcp +
-                cam.sensor_dir_z;
+            // center = [pixel_dir_x / pixel_size, pixel_dir_y / pixel_size,
+            // sensor_dir_z] (rows) * (position - eye).
+            const float3 dimDdposglob =
+                (dimDdcenter.x * cam.pixel_dir_x +
+                 dimDdcenter.y * cam.pixel_dir_y) *
+                    pixel_size_rcp +
+                dimDdcenter.z * cam.sensor_dir_z;
             PULSAR_LOG_DEV_PIX(
                 PULSAR_LOG_GRAD,
-                "grad %u|dcenterDdposglob: %.9f, %.9f, %.9f.\n",
+                "grad %u|dimDdposglob: %.9f, %.9f, %.9f.\n",
                 idx,
-                dcenterDdposglob.x,
-                dcenterDdposglob.y,
-                dcenterDdposglob.z);
+                dimDdposglob.x,
+                dimDdposglob.y,
+                dimDdposglob.z);
             if (calc_grad_pos) {
-              //! dcenterDdposglob.
-              *grad_pos += dimDdcenter * dcenterDdposglob;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dimDdpos: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  dimDdcenter.x * dcenterDdposglob.x,
-                  dimDdcenter.y * dcenterDdposglob.y,
-                  dimDdcenter.z * dcenterDdposglob.z);
+              *grad_pos += dimDdposglob;
             }
             if (calc_grad_cam) {
               //! Camera.
-              grad_cam->cam_pos -= dimDdcenter * dcenterDdposglob;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dimDdeye: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  -dimDdcenter.x * dcenterDdposglob.x,
-                  -dimDdcenter.y * dcenterDdposglob.y,
-                  -dimDdcenter.z * dcenterDdposglob.z);
+              grad_cam->cam_pos -= dimDdposglob;
               // coord_world
               /*
               float3 dclosenessDdcoord_world =
@@ -624,99 +613,28 @@ INLINE DEVICE bool draw(
                   grad_cam->pixel_dir_x.y,
                   grad_cam->pixel_dir_x.z);
               // dcenterkDdpixel_dir_k.
-              float3 center_in_pixels = draw_info.ray_center_norm *
-                  draw_info.t_center * pixel_size_rcp;
+              const float3 center_glob =
+                  draw_info.ray_center_norm * draw_info.t_center;
               grad_cam->pixel_dir_x += dimDdcenter.x *
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp);
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenter0dpixel_dir_x: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .x,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .y,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .z);
+                  (center_glob - cam.pixel_dir_x * (center.x * pixel_size_rcp)) *
+                  pixel_size_rcp;
               grad_cam->pixel_dir_y += dimDdcenter.y *
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp);
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenter1dpixel_dir_y: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .x,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .y,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .z);
-              // dcenterzDdpixel_dir_k.
-              float sensordirz_norm_rcp = FRCP(
-                  FMAX(length(cross(cam.pixel_dir_y, cam.pixel_dir_x)), FEPS));
-              grad_cam->pixel_dir_x += dimDdcenter.z *
-                  (dot(center, cam.sensor_dir_z) *
-                       cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                   cross(cam.pixel_dir_y, center)) *
-                  sensordirz_norm_rcp;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenterzDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .x,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .y,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .z);
-              grad_cam->pixel_dir_y += dimDdcenter.z *
-                  (dot(center, cam.sensor_dir_z) *
-                       cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                   cross(cam.pixel_dir_x, center)) *
-                  sensordirz_norm_rcp;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenterzDdpixel_dir_y: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .x,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .y,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .z);
+                  (center_glob - cam.pixel_dir_y * (center.y * pixel_size_rcp)) *
+                  pixel_size_rcp;
+              // dcenterzDdpixel_dir_k, where sensor_dir_z is the normalized
+              // cross product of pixel_dir_y and pixel_dir_x (negative for right
+              // handed systems).
+              const float3 center_offaxis =
+                  center_glob - center.z * cam.sensor_dir_z;
+              const float dimDdsensordirz = dimDdcenter.z *
+                  (cam.right_handed ? -1.f : 1.f) *
+                  FRCP(
+                      FMAX(length(cross(cam.pixel_dir_y, cam.pixel_dir_x)),
+                           FEPS));
+              grad_cam->pixel_dir_x +=
+                  dimDdsensordirz * cross(center_offaxis, cam.pixel_dir_y);
+              grad_cam->pixel_dir_y +=
+                  dimDdsensordirz * cross(cam.pixel_dir_x, center_offaxis);
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
-- 
2.43.0


From 9608712d7318931458de806ff7f4314cfb8fc557 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 114/147] fix: camera gradients of pulsar images with a
 principal point offset

---
 pytorch3d/csrc/pulsar/include/renderer.draw.device.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 146f553..7f10c73 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -732,7 +732,10 @@ INLINE DEVICE bool draw(
                   dimDdcoeff * dcoeffDdray.y,
                   dimDdcoeff * dcoeffDdray.z);
               grad_cam->pixel_dir_x +=
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray;
+                  (dimDdcoeff *
+                   (static_cast<float>(coord_x) -
+                    FABS(static_cast<float>(cam.principal_point_offset_x)))) *
+                  dcoeffDdray;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
@@ -741,7 +744,10 @@ INLINE DEVICE bool draw(
                   (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.y,
                   (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.z);
               grad_cam->pixel_dir_y +=
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray;
+                  (dimDdcoeff *
+                   (static_cast<float>(coord_y) -
+                    FABS(static_cast<float>(cam.principal_point_offset_y)))) *
+                  dcoeffDdray;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_y: %.9f, %.9f, %.9f.\n",
-- 
2.43.0


From 419a088b3b9ef7e942e32f85ff8de339dd633a28 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 115/147] fix: batched pulsar rendering uses the opacities of
 each batch element

---
 pytorch3d/csrc/pulsar/pytorch/renderer.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/pytorch/renderer.cpp b/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
index 79e6817..1ab38ac 100644
--- a/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
+++ b/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
@@ -761,7 +761,8 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
             percent_allowed_difference,
             max_n_hits,
             real_bg_col.contiguous().data_ptr<float>(),
-            opacity_ptr,
+            opacity_ptr == nullptr ? nullptr
+                                   : opacity_ptr + batch_i * n_points,
             n_points,
             mode,
             at::cuda::getCurrentCUDAStream());
@@ -808,7 +809,8 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
             percent_allowed_difference,
             max_n_hits,
             real_bg_col.contiguous().data_ptr<float>(),
-            opacity_ptr,
+            opacity_ptr == nullptr ? nullptr
+                                   : opacity_ptr + batch_i * n_points,
             n_points,
             mode,
             nullptr);
@@ -1121,7 +1123,8 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr == nullptr ? nullptr
+                                     : opacity_ptr + batch_i * n_points,
               n_points,
               mode,
               dif_pos,
@@ -1145,7 +1148,8 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr == nullptr ? nullptr
+                                     : opacity_ptr + batch_i * n_points,
               n_points,
               mode,
               dif_pos,
@@ -1234,7 +1238,8 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr == nullptr ? nullptr
+                                     : opacity_ptr + batch_i * n_points,
               n_points,
               mode,
               dif_pos,
@@ -1258,7 +1263,8 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr == nullptr ? nullptr
+                                     : opacity_ptr + batch_i * n_points,
               n_points,
               mode,
               dif_pos,
-- 
2.43.0


From d1c354337565ba91ec446301f9ffb1fff74d7315 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:13:59 +0000
Subject: [PATCH 116/147] fix: spheres that reach beside the camera are not cut
 off in pulsar images

---
 .../include/renderer.get_screen_area.device.h    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h b/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
index 1a85a1b..a7ef351 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
@@ -40,6 +40,8 @@ INLINE DEVICE bool get_screen_area(
     float* y_2) {
   float cos_alpha = dot(cam.sensor_dir_z, ray_center_norm);
   float2 o__c_, alpha, theta;
+  /** Slightly less than pi / 2. */
+  const float max_angle = 1.5707f;
   if (cos_alpha < EPS) {
     PULSAR_LOG_DEV(
         PULSAR_LOG_CALC_SIGNATURE,
@@ -108,8 +110,9 @@ INLINE DEVICE bool get_screen_area(
         acos(FMIN(FMAX(ball_center_cam_rot.z / o__c_.x, -1.f), 1.f));
     alpha.y = -sign_dir(ball_center_cam_rot.y) *
         acos(FMIN(FMAX(ball_center_cam_rot.z / o__c_.y, -1.f), 1.f));
-    theta.x = asin(FMIN(FMAX(vert_rad / o__c_.x, -1.f), 1.f));
-    theta.y = asin(FMIN(FMAX(vert_rad / o__c_.y, -1.f), 1.f));
+    // If the projected ball contains the eye, it is seen in all directions.
+    theta.x = vert_rad < o__c_.x ? asin(vert_rad / o__c_.x) : 2.f * max_angle;
+    theta.y = vert_rad < o__c_.y ? asin(vert_rad / o__c_.y) : 2.f * max_angle;
     PULSAR_LOG_DEV(
         PULSAR_LOG_CALC_SIGNATURE,
         "signature %d|alpha.x: %f, alpha.y: %f, theta.x: %f, theta.y: %f.\n",
@@ -118,10 +121,11 @@ INLINE DEVICE bool get_screen_area(
         alpha.y,
         theta.x,
         theta.y);
-    *x_1 = tan(alpha.x - theta.x) * cam.focal_length;
-    *x_2 = tan(alpha.x + theta.x) * cam.focal_length;
-    *y_1 = tan(alpha.y - theta.y) * cam.focal_length;
-    *y_2 = tan(alpha.y + theta.y) * cam.focal_length;
+    // The part of the ball that is not in front of the camera isn't visible.
+    *x_1 = tan(FMAX(alpha.x - theta.x, -max_angle)) * cam.focal_length;
+    *x_2 = tan(FMIN(alpha.x + theta.x, max_angle)) * cam.focal_length;
+    *y_1 = tan(FMAX(alpha.y - theta.y, -max_angle)) * cam.focal_length;
+    *y_2 = tan(FMIN(alpha.y + theta.y, max_angle)) * cam.focal_length;
     PULSAR_LOG_DEV(
         PULSAR_LOG_CALC_SIGNATURE,
         "signature %d|in sensor plane: x_1: %f, x_2: %f, y_1: %f, y_2: %f.\n",
-- 
2.43.0


From bc1b9bf084fe9026f0b030e36f62708e915d9094 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 117/147] fix: PulsarPointsRenderer does not modify the field
 of view of the cameras

---
 pytorch3d/renderer/points/pulsar/unified.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 14081b7..10964c9 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -276,7 +276,7 @@ class PulsarPointsRenderer(nn.Module):
                 afov = kwargs.get("fov", cameras.fov)[cloud_idx]
                 # pyrefly: ignore [missing-attribute]
                 if kwargs.get("degrees", cameras.degrees):
-                    afov *= math.pi / 180.0
+                    afov = afov * math.pi / 180.0
                 sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length
                 if not (
                     # pyrefly: ignore [missing-attribute]
-- 
2.43.0


From baa032069b76c6dfed3f4729159822006ad529ff Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 118/147] fix: vertical principal point offset of
 PulsarPointsRenderer

---
 pytorch3d/renderer/points/pulsar/unified.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 10964c9..6d1dff7 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -259,7 +259,8 @@ class PulsarPointsRenderer(nn.Module):
                 )
                 principal_point_y = (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
+                    # the y axis of the camera points upwards
+                    -kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
                     * 0.5
                     * self.renderer._renderer.height
                 )
@@ -339,7 +340,8 @@ class PulsarPointsRenderer(nn.Module):
                     * self.renderer._renderer.width
                 )
                 principal_point_y = (
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
+                    # the y axis of the camera points upwards
+                    -kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
                     * 0.5
                     * self.renderer._renderer.height
                 )
-- 
2.43.0


From bad4b3b802d7e98b1f0533c12fdae6c6f16a063e Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 119/147] fix: PulsarPointsRenderer follows the NDC convention
 of the cameras if the image is not square

---
 pytorch3d/renderer/points/pulsar/unified.py | 29 ++++++++++-----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 6d1dff7..52d80a7 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -184,6 +184,9 @@ class PulsarPointsRenderer(nn.Module):
         """
         # Shorthand:
         cameras = self.rasterizer.cameras
+        # The NDC interval [-1, 1] spans the shorter side of the image.
+        ndc_size = min(self.renderer._renderer.width, self.renderer._renderer.height)
+        ndc_widths = self.renderer._renderer.width / ndc_size
         if orthogonal_projection:
             focal_length = torch.zeros((1,), dtype=torch.float32)
             if isinstance(cameras, FoVOrthographicCameras):
@@ -210,7 +213,7 @@ class PulsarPointsRenderer(nn.Module):
                         "The orthographic camera scale must be ((1.0, 1.0, 1.0),). "
                         f"{kwargs.get('scale_xyz', cameras.scale_xyz)[cloud_idx]}."
                     )
-                sensor_width = max_x - min_x
+                sensor_width = (max_x - min_x) * ndc_widths
                 if not sensor_width > 0.0:
                     raise ValueError(
                         f"The orthographic camera must have positive size! Is: {sensor_width}."  # noqa: B950
@@ -227,22 +230,20 @@ class PulsarPointsRenderer(nn.Module):
                 ]
                 if (
                     focal_length_conf.numel() == 2
-                    and focal_length_conf[0] * self.renderer._renderer.width
-                    - focal_length_conf[1] * self.renderer._renderer.height
-                    > 1e-5
+                    and abs(focal_length_conf[0] - focal_length_conf[1]) > 1e-5
                 ):
                     raise ValueError(
                         "Pulsar only supports a single focal length! "
                         "Provided: %s." % (str(focal_length_conf))
                     )
                 if focal_length_conf.numel() == 2:
-                    sensor_width = 2.0 / focal_length_conf[0]
+                    sensor_width = 2.0 / focal_length_conf[0] * ndc_widths
                 else:
                     if focal_length_conf.numel() != 1:
                         raise ValueError(
                             "Focal length not parsable: %s." % (str(focal_length_conf))
                         )
-                    sensor_width = 2.0 / focal_length_conf
+                    sensor_width = 2.0 / focal_length_conf * ndc_widths
                 if "znear" not in kwargs.keys() or "zfar" not in kwargs.keys():
                     raise ValueError(
                         "pulsar needs znear and zfar values for "
@@ -255,14 +256,14 @@ class PulsarPointsRenderer(nn.Module):
                     # pyrefly: ignore [missing-attribute]
                     kwargs.get("principal_point", cameras.principal_point)[cloud_idx][0]
                     * 0.5
-                    * self.renderer._renderer.width
+                    * ndc_size
                 )
                 principal_point_y = (
                     # pyrefly: ignore [missing-attribute]
                     # the y axis of the camera points upwards
                     -kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
                     * 0.5
-                    * self.renderer._renderer.height
+                    * ndc_size
                 )
         else:
             if not isinstance(cameras, PerspectiveCameras):
@@ -278,7 +279,7 @@ class PulsarPointsRenderer(nn.Module):
                 # pyrefly: ignore [missing-attribute]
                 if kwargs.get("degrees", cameras.degrees):
                     afov = afov * math.pi / 180.0
-                sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length
+                sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length * ndc_widths
                 if not (
                     # pyrefly: ignore [missing-attribute]
                     kwargs.get("aspect_ratio", cameras.aspect_ratio)[cloud_idx]
@@ -302,9 +303,7 @@ class PulsarPointsRenderer(nn.Module):
                 ]
                 if (
                     focal_length_conf.numel() == 2
-                    and focal_length_conf[0] * self.renderer._renderer.width
-                    - focal_length_conf[1] * self.renderer._renderer.height
-                    > 1e-5
+                    and abs(focal_length_conf[0] - focal_length_conf[1]) > 1e-5
                 ):
                     raise ValueError(
                         "Pulsar only supports a single focal length! "
@@ -333,17 +332,17 @@ class PulsarPointsRenderer(nn.Module):
                     dtype=torch.float32,
                     device=focal_length_px.device,
                 )
-                sensor_width = focal_length / focal_length_px * 2.0
+                sensor_width = focal_length / focal_length_px * 2.0 * ndc_widths
                 principal_point_x = (
                     kwargs.get("principal_point", cameras.principal_point)[cloud_idx][0]
                     * 0.5
-                    * self.renderer._renderer.width
+                    * ndc_size
                 )
                 principal_point_y = (
                     # the y axis of the camera points upwards
                     -kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
                     * 0.5
-                    * self.renderer._renderer.height
+                    * ndc_size
                 )
         focal_length = _ensure_float_tensor(focal_length, device)
         sensor_width = _ensure_float_tensor(sensor_width, device)
-- 
2.43.0


From 8c438e1254802828f8b86b1c2596c25fbeed2401 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 120/147] fix: radius_world of PulsarPointsRenderer accepts all
 kinds of radiuses

---
 pytorch3d/renderer/points/pulsar/unified.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 52d80a7..275a900 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -401,9 +401,6 @@ class PulsarPointsRenderer(nn.Module):
         # `self.rasterizer.raster_settings.radius` can either be a float
         # or itself a tensor.
         raster_rad = self.rasterizer.raster_settings.radius
-        if kwargs.get("radius_world", False):
-            # pyrefly: ignore [bad-return]
-            return raster_rad
         if (
             isinstance(raster_rad, torch.Tensor)
             and raster_rad.numel() > 1
@@ -411,7 +408,7 @@ class PulsarPointsRenderer(nn.Module):
         ):
             # In this case it must be a batched torch tensor.
             raster_rad = raster_rad[cloud_idx]
-        if orthogonal_projection:
+        if orthogonal_projection or kwargs.get("radius_world", False):
             vert_rad = (
                 torch.ones(
                     (vert_pos.shape[0],), dtype=torch.float32, device=vert_pos.device
-- 
2.43.0


From f6065d641e27942fce144b243eff7547b616eddd Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 121/147] fix: PulsarPointsRenderer can render several point
 clouds with one camera

---
 pytorch3d/renderer/points/pulsar/unified.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 275a900..265b3bc 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -184,6 +184,9 @@ class PulsarPointsRenderer(nn.Module):
         """
         # Shorthand:
         cameras = self.rasterizer.cameras
+        if len(cameras) == 1:
+            # One camera can be shared by all point clouds.
+            cameras = cameras[[0] * (cloud_idx + 1)]
         # The NDC interval [-1, 1] spans the shorter side of the image.
         ndc_size = min(self.renderer._renderer.width, self.renderer._renderer.height)
         ndc_widths = self.renderer._renderer.width / ndc_size
@@ -373,6 +376,9 @@ class PulsarPointsRenderer(nn.Module):
         """
         # Shorthand:
         cameras = self.rasterizer.cameras
+        if len(cameras) == 1:
+            # One camera can be shared by all point clouds.
+            cameras = cameras[[0] * (cloud_idx + 1)]
         # pyrefly: ignore [missing-attribute]
         R = kwargs.get("R", cameras.R)[cloud_idx]
         # pyrefly: ignore [missing-attribute]
-- 
2.43.0


From 7d70f6bfd6fe83b51ef85ccd2aa4b8fa366a170c Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 122/147] fix: error message of PulsarPointsRenderer for a
 changed camera type

---
 pytorch3d/renderer/points/pulsar/unified.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 265b3bc..90716bf 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -146,7 +146,8 @@ class PulsarPointsRenderer(nn.Module):
             raise ValueError(
                 "The camera type can not be changed after renderer initialization! "
                 "Current camera orthogonal: %r. Original orthogonal: %r."
-            ) % (orthogonal_projection, self.renderer._renderer.orthogonal)
+                % (orthogonal_projection, self.renderer._renderer.orthogonal)
+            )
         image_size = self.rasterizer.raster_settings.image_size
         if isinstance(image_size, tuple):
             expected_height, expected_width = image_size
-- 
2.43.0


From bb4f3790642f6a6ab6935620040aeee7769a83a0 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 123/147] fix: MLPWithInputSkips applies last_activation after
 the last layer

---
 .../implicitron/models/implicit_function/decoding_functions.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
index 5073d49..dba395e 100644
--- a/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
+++ b/pytorch3d/implicitron/models/implicit_function/decoding_functions.py
@@ -192,7 +192,7 @@ class MLPWithInputSkips(Configurable, torch.nn.Module):
                 torch.nn.init.constant_(linear.bias, self.last_layer_bias_init)
             layers.append(
                 torch.nn.Sequential(linear, torch.nn.ReLU(True))
-                if not layeri + 1 < self.n_layers
+                if layeri + 1 < self.n_layers
                 else torch.nn.Sequential(linear, last_activation)
             )
         self.mlp = torch.nn.ModuleList(layers)
-- 
2.43.0


From 08625c69f825a8402f805c665ad10fe2d500abca Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 124/147] fix: LSTMRenderer does not move the points of its
 earlier steps in place

---
 pytorch3d/implicitron/models/renderer/lstm_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/renderer/lstm_renderer.py b/pytorch3d/implicitron/models/renderer/lstm_renderer.py
index 02a9c7a..aa963d9 100644
--- a/pytorch3d/implicitron/models/renderer/lstm_renderer.py
+++ b/pytorch3d/implicitron/models/renderer/lstm_renderer.py
@@ -116,7 +116,7 @@ class LSTMRenderer(BaseRenderer, torch.nn.Module):
         raymarch_features = None
         for t in range(self.num_raymarch_steps + 1):
             # move signed_distance along each ray
-            ray_bundle_t.lengths += signed_distance
+            ray_bundle_t.lengths = ray_bundle_t.lengths + signed_distance
 
             # eval the raymarching function
             raymarch_features, _ = implicit_function(
-- 
2.43.0


From fb922012ed7eef3dc1ae3290e529309d8e22b234 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 125/147] fix: SRNRaymarchHyperNet outputs out_features
 features

---
 .../models/implicit_function/scene_representation_networks.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 9819650..f50e9fe 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -267,7 +267,7 @@ class SRNRaymarchHyperNet(Configurable, torch.nn.Module):
             hidden_ch=self.n_hidden_units,
             num_hidden_layers=self.n_layers,
             in_ch=raymarch_input_embedding_dim,
-            out_ch=self.n_hidden_units,
+            out_ch=self.out_features,
         )
 
         self.cached_srn_raymarch_function: Optional[Tuple[SRNRaymarchFunction]] = None
-- 
2.43.0


From b44df43b35842cc7370b8d9cfbeb5434e44b7ab8 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 126/147] fix: SignedDistanceFunctionRenderer renders several
 images in a batch

---
 pytorch3d/implicitron/models/renderer/rgb_net.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/rgb_net.py b/pytorch3d/implicitron/models/renderer/rgb_net.py
index 224cb55..5c2d558 100644
--- a/pytorch3d/implicitron/models/renderer/rgb_net.py
+++ b/pytorch3d/implicitron/models/renderer/rgb_net.py
@@ -102,9 +102,7 @@ class RayNormalColoringNetwork(torch.nn.Module):
         view_dirs = ray_bundle.directions
         if masks is not None:
             # in case of IDR, other outputs are passed here after applying the mask
-            view_dirs = view_dirs.reshape(view_dirs.shape[0], -1, 3)[
-                :, masks.reshape(-1)
-            ]
+            view_dirs = view_dirs.reshape(masks.shape[0], -1, 3)[:, masks.reshape(-1)]
 
         if self.embedview_fn is not None:
             view_dirs = self.embedview_fn(view_dirs)
-- 
2.43.0


From b54bdc855835f63540d02f7f061a5024189418ab Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 127/147] fix: SignedDistanceFunctionRenderer masks out rays
 when none hits the surface

---
 .../implicitron/models/renderer/sdf_renderer.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/sdf_renderer.py b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
index c769b5f..178d5cb 100644
--- a/pytorch3d/implicitron/models/renderer/sdf_renderer.py
+++ b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
@@ -199,9 +199,7 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
             )
             * self._bg_color
         )
-        mask_full = features.new_ones(
-            batch_size, *spatial_size, 1, requires_grad=empty_render
-        )
+        mask_full = features.new_ones(batch_size, *spatial_size, 1)
         if not empty_render:
             normals = implicit_function_gradient(differentiable_surface_points)[
                 None, :, 0, :
@@ -218,10 +216,10 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
                     pooling_fn=None,  # TODO
                 )
             )
-            mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
-                # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
-                -self.soft_mask_alpha * sdf_output[~surface_mask]
-            )
+        mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
+            # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
+            -self.soft_mask_alpha * sdf_output[~surface_mask]
+        )
 
         # scatter points with surface_mask
         points_full = ray_bundle.origins.detach().clone()
-- 
2.43.0


From 11d444a6a76ef3d8ded6b2bcc69de3ecb04dc0f1 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 128/147] fix: OverfitModel can use IdrFeatureField

---
 pytorch3d/implicitron/models/overfit_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/overfit_model.py b/pytorch3d/implicitron/models/overfit_model.py
index 1f6af62..3485aae 100644
--- a/pytorch3d/implicitron/models/overfit_model.py
+++ b/pytorch3d/implicitron/models/overfit_model.py
@@ -623,7 +623,7 @@ class OverfitModel(ImplicitronModelBase):
             extra_args["color_dim"] = self.render_features_dimensions
 
         if self.implicit_function_class_type == "IdrFeatureField":
-            extra_args["feature_work_size"] = global_encoder_dim
+            extra_args["encoding_dim"] = global_encoder_dim
             extra_args["feature_vector_size"] = self.render_features_dimensions
 
         if self.implicit_function_class_type == "SRNImplicitFunction":
-- 
2.43.0


From bb088c57f0d52c84d4b957119e7d40b7244d1576 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 02:50:13 +0000
Subject: [PATCH 129/147] fix: the coarse implicit function of OverfitModel can
 be of another class

---
 pytorch3d/implicitron/models/overfit_model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/models/overfit_model.py b/pytorch3d/implicitron/models/overfit_model.py
index 3485aae..8b681a8 100644
--- a/pytorch3d/implicitron/models/overfit_model.py
+++ b/pytorch3d/implicitron/models/overfit_model.py
@@ -610,23 +610,25 @@ class OverfitModel(ImplicitronModelBase):
         for arg in IMPLICIT_FUNCTION_ARGS_TO_REMOVE:
             args.pop(arg, None)
 
-    def _create_extra_args_for_implicit_function(self) -> Dict[str, Any]:
+    def _create_extra_args_for_implicit_function(
+        self, implicit_function_class_type: Optional[str]
+    ) -> Dict[str, Any]:
         extra_args = {}
         global_encoder_dim = (
             0 if self.global_encoder is None else self.global_encoder.get_encoding_dim()
         )
-        if self.implicit_function_class_type in (
+        if implicit_function_class_type in (
             "NeuralRadianceFieldImplicitFunction",
             "NeRFormerImplicitFunction",
         ):
             extra_args["latent_dim"] = global_encoder_dim
             extra_args["color_dim"] = self.render_features_dimensions
 
-        if self.implicit_function_class_type == "IdrFeatureField":
+        if implicit_function_class_type == "IdrFeatureField":
             extra_args["encoding_dim"] = global_encoder_dim
             extra_args["feature_vector_size"] = self.render_features_dimensions
 
-        if self.implicit_function_class_type == "SRNImplicitFunction":
+        if implicit_function_class_type == "SRNImplicitFunction":
             extra_args["latent_dim"] = global_encoder_dim
         return extra_args
 
@@ -641,7 +643,9 @@ class OverfitModel(ImplicitronModelBase):
         if config is None:
             raise ValueError(f"{config_name} not present")
 
-        extra_args = self._create_extra_args_for_implicit_function()
+        extra_args = self._create_extra_args_for_implicit_function(
+            self.implicit_function_class_type
+        )
         self.implicit_function = implicit_function_type(**config, **extra_args)
 
     def create_coarse_implicit_function(self) -> None:
@@ -663,7 +667,9 @@ class OverfitModel(ImplicitronModelBase):
             )
             expand_args_fields(implicit_function_type)
 
-            extra_args = self._create_extra_args_for_implicit_function()
+            extra_args = self._create_extra_args_for_implicit_function(
+                self.coarse_implicit_function_class_type
+            )
             self.coarse_implicit_function = implicit_function_type(
                 **config, **extra_args
             )
-- 
2.43.0


From c90040555cef949c25a417b3e70e22d58c28fcb2 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 130/147] fix: models with a global encoder report its
 autodecoder_norm

---
 pytorch3d/implicitron/models/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 65d5c0b..a275499 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -120,8 +120,8 @@ class RegularizationMetrics(RegularizationMetricsBase):
                 autoencoder_norm: Autoencoder weight norm regularization term.
         """
         metrics = {}
-        if getattr(model, "sequence_autodecoder", None) is not None:
-            ad_penalty = model.sequence_autodecoder.calculate_squared_encoding_norm()
+        if getattr(model, "global_encoder", None) is not None:
+            ad_penalty = model.global_encoder.calculate_squared_encoding_norm()
             if ad_penalty is not None:
                 metrics["autodecoder_norm"] = ad_penalty
 
-- 
2.43.0


From b8d41719b8b797633ae66ebd8654a19b034b829f Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:06:29 +0000
Subject: [PATCH 131/147] fix: renderers of OverfitModel with a global encoder
 get modules as implicit functions

---
 pytorch3d/implicitron/models/overfit_model.py | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pytorch3d/implicitron/models/overfit_model.py b/pytorch3d/implicitron/models/overfit_model.py
index 8b681a8..94079cc 100644
--- a/pytorch3d/implicitron/models/overfit_model.py
+++ b/pytorch3d/implicitron/models/overfit_model.py
@@ -10,7 +10,6 @@
 # Note: The #noqa comments below are for unused imports of pluggable implementations
 # which are part of implicitron. They ensure that the registry is prepopulated.
 
-import functools
 import logging
 from dataclasses import field
 from typing import Any, Callable, Dict, List, Optional, Tuple, TYPE_CHECKING, Union
@@ -30,6 +29,7 @@ from pytorch3d.implicitron.models.metrics import (
 from pytorch3d.implicitron.models.renderer.base import (
     BaseRenderer,
     EvaluationMode,
+    ImplicitFunctionWrapper,
     ImplicitronRayBundle,
     RendererOutput,
     RenderSamplingMode,
@@ -389,16 +389,14 @@ class OverfitModel(ImplicitronModelBase):
                 sequence_name=sequence_name,
                 frame_timestamp=frame_timestamp,
             )
-            implicit_functions = [
-                (
-                    functools.partial(implicit_function, global_code=global_code)
-                    if isinstance(implicit_function, Callable)
-                    else functools.partial(
-                        implicit_function.forward, global_code=global_code
-                    )
-                )
-                for implicit_function in implicit_functions
-            ]
+            # the renderers expect modules, see BaseRenderer.forward
+            wrapped_functions = []
+            for implicit_function in implicit_functions:
+                wrapped_function = ImplicitFunctionWrapper(implicit_function)
+                wrapped_function.training = implicit_function.training
+                wrapped_function.bind_args(global_code=global_code)
+                wrapped_functions.append(wrapped_function)
+            implicit_functions = wrapped_functions
         rendered = self._render(
             ray_bundle=ray_bundle,
             sampling_mode=sampling_mode,
-- 
2.43.0


From 6f055d63800297e6449313e880f6d9def4772500 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 132/147] fix: collate_batched_meshes collates models without
 textures

---
 pytorch3d/datasets/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/datasets/utils.py b/pytorch3d/datasets/utils.py
index 935023c..8a1a917 100644
--- a/pytorch3d/datasets/utils.py
+++ b/pytorch3d/datasets/utils.py
@@ -38,7 +38,9 @@ def collate_batched_meshes(batch: List[Dict]):  # pragma: no cover
     collated_dict["mesh"] = None
     if {"verts", "faces"}.issubset(collated_dict.keys()):
         textures = None
-        if "textures" in collated_dict:
+        if "textures" in collated_dict and all(
+            texture is not None for texture in collated_dict["textures"]
+        ):
             textures = TexturesAtlas(atlas=collated_dict["textures"])
 
         # pyrefly: ignore [unsupported-operation]
-- 
2.43.0


From fc47f74cb3bee4e84f18f44dcd71a95fba492ff0 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 133/147] fix: val and test sets of
 SingleSceneDatasetMapProviderBase include the masks of the added train frames

---
 .../implicitron/dataset/single_sequence_dataset.py  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/single_sequence_dataset.py b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
index 058db29..57ad117 100644
--- a/pytorch3d/implicitron/dataset/single_sequence_dataset.py
+++ b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
@@ -127,12 +127,6 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
         # pyre-ignore[16]
         split = self.i_split[split_idx]
         frame_types = [frame_type] * len(split)
-        fg_probabilities = (
-            None
-            # pyre-ignore[16]
-            if self.fg_probabilities is None
-            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
-        )
         eval_batches = [[i] for i in range(len(split))]
         if split_idx != 0 and self.n_known_frames_for_test is not None:
             # pyrefly: ignore [missing-attribute]
@@ -149,6 +143,13 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
             split = np.concatenate([split, train_split])
             frame_types.extend([DATASET_TYPE_KNOWN] * len(train_split))
 
+        fg_probabilities = (
+            None
+            # pyre-ignore[16]
+            if self.fg_probabilities is None
+            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
+        )
+
         # pyre-ignore[28]
         return SingleSceneDataset(
             object_name=self.object_name,
-- 
2.43.0


From 1b4b92145e39f64107395397364340e426e7dcd0 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 134/147] fix: DatasetMap.join joins a data set shared by
 several subsets once

---
 pytorch3d/implicitron/dataset/dataset_map_provider.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_map_provider.py b/pytorch3d/implicitron/dataset/dataset_map_provider.py
index 7133b36..8f9ffde 100644
--- a/pytorch3d/implicitron/dataset/dataset_map_provider.py
+++ b/pytorch3d/implicitron/dataset/dataset_map_provider.py
@@ -67,6 +67,8 @@ class DatasetMap:
             other_dataset_maps: The list of dataset maps to be joined into the
                 current dataset map.
         """
+        # the same dataset object can be in several sets (e.g. with test_on_train)
+        joined = set()
         for set_ in ["train", "val", "test"]:
             dataset_list = [
                 getattr(self, set_),
@@ -77,8 +79,10 @@ class DatasetMap:
                 setattr(self, set_, None)
                 continue
             d0 = dataset_list[0]
-            if len(dataset_list) > 1:
-                d0.join(dataset_list[1:])
+            to_join = [d for d in dataset_list[1:] if (id(d0), id(d)) not in joined]
+            if len(to_join) > 0:
+                d0.join(to_join)
+                joined.update((id(d0), id(d)) for d in to_join)
             setattr(self, set_, d0)
 
 
-- 
2.43.0


From 14191778f4a2d81af0cff5e2b844651ea29f89e2 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 135/147] fix: JsonIndexDatasetMapProviderV2 returns the train
 cameras of a single scene

---
 .../dataset/json_index_dataset_map_provider_v2.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py b/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py
index cf1d985..7f64eca 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py
@@ -30,6 +30,7 @@ from pytorch3d.implicitron.tools.config import (
     registry,
     run_auto_creation,
 )
+from pytorch3d.renderer.camera_utils import join_cameras_as_batch
 from pytorch3d.renderer.cameras import CamerasBase
 from tqdm import tqdm
 
@@ -389,7 +390,12 @@ class JsonIndexDatasetMapProviderV2(DatasetMapProviderBase):
         # pyre-ignore[16]
         train_dataset = self.dataset_map.train
         assert isinstance(train_dataset, JsonIndexDataset)
-        return train_dataset.get_all_train_cameras()
+        if len(list(train_dataset.sequence_names())) != 1:
+            return None
+        # all frames of the train set are known
+        return join_cameras_as_batch(
+            [train_dataset[i].camera for i in range(len(train_dataset))]
+        )
 
     def _load_annotation_json(self, json_filename: str):
         full_path = os.path.join(
-- 
2.43.0


From 124b48706f294976865bbaa36e54883c369d7407 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 136/147] fix: NeRFRaysampler caches all rays of a camera also
 in training mode

---
 projects/nerf/nerf/raysampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/nerf/nerf/raysampler.py b/projects/nerf/nerf/raysampler.py
index 69e99b9..fd90224 100644
--- a/projects/nerf/nerf/raysampler.py
+++ b/projects/nerf/nerf/raysampler.py
@@ -328,7 +328,7 @@ class NeRFRaysampler(torch.nn.Module):
 
             n_pixels = full_ray_bundle.directions.shape[:-1].numel()
 
-            if self.training:
+            if self.training and not caching:
                 # During training we randomly subsample rays.
                 sel_rays = torch.randperm(
                     n_pixels, device=full_ray_bundle.lengths.device
-- 
2.43.0


From b2213b93cb45541cf2ea8266f3e926b8b0c47409 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 137/147] fix: NeRFRaysampler returns every ray of a batch of
 cameras in one of the chunks

---
 projects/nerf/nerf/raysampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/nerf/nerf/raysampler.py b/projects/nerf/nerf/raysampler.py
index fd90224..f4c7456 100644
--- a/projects/nerf/nerf/raysampler.py
+++ b/projects/nerf/nerf/raysampler.py
@@ -337,7 +337,7 @@ class NeRFRaysampler(torch.nn.Module):
                 # In case we test, we take only the requested chunk.
                 if chunksize is None:
                     chunksize = n_pixels * batch_size
-                start = chunk_idx * chunksize * batch_size
+                start = chunk_idx * chunksize
                 end = min(start + chunksize, n_pixels)
                 sel_rays = torch.arange(
                     start,
@@ -349,7 +349,7 @@ class NeRFRaysampler(torch.nn.Module):
             # Take the "sel_rays" rays from the full ray bundle.
             ray_bundle = RayBundle(
                 *[
-                    v.view(n_pixels, -1)[sel_rays]
+                    v.reshape(n_pixels, -1)[sel_rays]
                     .view(batch_size, sel_rays.numel() // batch_size, -1)
                     .to(device)
                     for v in full_ray_bundle
-- 
2.43.0


From d1b2c969bd5ea9baf37f4e78c68add838576c48f Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 138/147] fix: NeRF samples the ground truth colors at the NDC
 locations of the rays

---
 projects/nerf/nerf/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/projects/nerf/nerf/utils.py b/projects/nerf/nerf/utils.py
index dbe5e91..214771d 100644
--- a/projects/nerf/nerf/utils.py
+++ b/projects/nerf/nerf/utils.py
@@ -5,6 +5,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import torch
+from pytorch3d.renderer.utils import ndc_grid_sample
 
 
 def calc_mse(x: torch.Tensor, y: torch.Tensor):
@@ -46,14 +47,13 @@ def sample_images_at_mc_locs(
     dim = target_images.shape[-1]
     spatial_size = sampled_rays_xy.shape[1:-1]
 
-    # The coordinate grid convention for grid_sample has both x and y
-    # directions inverted.
-    xy_sample = -sampled_rays_xy.view(ba, -1, 1, 2).clone()
-
-    images_sampled = torch.nn.functional.grid_sample(
+    # The rays are sampled in NDC, whose range along the longer side of an image
+    # which is not square is larger than [-1, 1].
+    images_sampled = ndc_grid_sample(
         target_images.permute(0, 3, 1, 2),
-        xy_sample,
-        align_corners=True,
+        sampled_rays_xy.reshape(ba, -1, 1, 2),
+        align_corners=False,
         mode="bilinear",
+        padding_mode="border",
     )
     return images_sampled.permute(0, 2, 3, 1).view(ba, *spatial_size, dim)
-- 
2.43.0


From 10114e70680890d1c7adecdf7f194c8d66c55f6c Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 139/147] fix: SqlIndexDataset.is_filtered accounts for
 pick_frames_sql_clause

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 5ffc9f7..4243b3e 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -445,6 +445,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         """
         return (
             self.remove_empty_masks
+            or self.pick_frames_sql_clause is not None
             or self.limit_to > 0
             or self.limit_sequences_to > 0
             or self.limit_sequences_per_category_to > 0
-- 
2.43.0


From 4f386a07c24ccc434544044d6d52377f5ae7101c Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 140/147] fix: SqlIndexDataset combines custom SQL clauses with
 the other filters as a whole

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 4243b3e..4ce9155 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -494,7 +494,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_sequences_sql_clause := self.pick_sequences_sql_clause:
             print("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_sequences_sql_clause))
+            where_conditions.append(sa.text(f"({pick_sequences_sql_clause})"))
 
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
@@ -649,7 +649,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            pick_frames_criteria.append(sa.text(pick_frames_sql_clause))
+            pick_frames_criteria.append(sa.text(f"({pick_frames_sql_clause})"))
 
         if pick_frames_criteria:
             index = self._pick_frames_by_criteria(index, pick_frames_criteria)
@@ -717,7 +717,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("  applying custom SQL clause")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_frames_sql_clause))
+            where_conditions.append(sa.text(f"({pick_frames_sql_clause})"))
 
         if where_conditions:
             stmt = stmt.where(*where_conditions)
-- 
2.43.0


From 46731a1ee958029c8208717f9867a0836c240eec Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 141/147] fix: SqlIndexDataset limits the number of sequences
 among those of the subsets

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 26 +++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 4ce9155..1c7e39d 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -496,6 +496,18 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             # pyre-ignore[6]: TextClause is compatible with where conditions
             where_conditions.append(sa.text(f"({pick_sequences_sql_clause})"))
 
+        limits_sequences = (
+            self.limit_sequences_to > 0 or self.limit_sequences_per_category_to > 0
+        )
+        if self.subsets and limits_sequences:
+            # the subsets apply before the limits
+            subset_sequences = self._load_subset_lists()["sequence_name"].unique()
+            where_conditions.append(
+                self.sequence_annotations_type.sequence_name.in_(
+                    subset_sequences.tolist()
+                )
+            )
+
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
 
@@ -594,9 +606,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
 
         return index
 
-    def _build_index_from_subset_lists(
-        self, sequences: Optional[pd.Series]
-    ) -> pd.DataFrame:
+    def _load_subset_lists(self) -> pd.DataFrame:
         if not self.subset_lists_file:
             raise ValueError("Requested subsets but subset_lists_file not given")
 
@@ -604,9 +614,13 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
 
         subset_lists_path = self._local_path(self.subset_lists_file)
         if subset_lists_path.lower().endswith(".json"):
-            index = self._load_subsets_from_json(subset_lists_path)
-        else:
-            index = self._load_subsets_from_sql(subset_lists_path)
+            return self._load_subsets_from_json(subset_lists_path)
+        return self._load_subsets_from_sql(subset_lists_path)
+
+    def _build_index_from_subset_lists(
+        self, sequences: Optional[pd.Series]
+    ) -> pd.DataFrame:
+        index = self._load_subset_lists()
         index = index.set_index(["sequence_name", "frame_number"])
         logger.info(f"  -> loaded {len(index)} samples of {self.subsets}.")
 
-- 
2.43.0


From c994b1152fab4ac8d636286fe5a10d4cdc4bea07 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 142/147] fix: SqlIndexDatasetMapProvider serves the whole
 dataset if no subset lists are given

---
 pytorch3d/implicitron/dataset/sql_dataset_provider.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset_provider.py b/pytorch3d/implicitron/dataset/sql_dataset_provider.py
index 38e74f9..da7821d 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset_provider.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset_provider.py
@@ -311,6 +311,10 @@ class SqlIndexDatasetMapProvider(DatasetMapProviderBase):
         if self.ignore_subsets:
             return None
 
+        if not self.subset_lists_path and not self.subset_list_name:
+            # the dataset is not partitioned to subsets
+            return None
+
         if is_eval and self.eval_batch_num_training_frames > 0:
             # we will need to have training frames for extended batches
             return list(subsets) + list(self.train_subsets)
-- 
2.43.0


From ee44568db0eb1439667db29d435ce4261ba731f6 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 143/147] fix: corresponding_cameras_alignment by extrinsics
 never returns a reflection

---
 pytorch3d/ops/cameras_alignment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/cameras_alignment.py b/pytorch3d/ops/cameras_alignment.py
index 5986206..ac0e674 100644
--- a/pytorch3d/ops/cameras_alignment.py
+++ b/pytorch3d/ops/cameras_alignment.py
@@ -177,7 +177,7 @@ def _align_camera_extrinsics(
         R_A R_i = R_i' for all i
         R_A [R_1 R_2 ... R_N] = [R_1' R_2' ... R_N']
         U, _, V = svd([R_1 R_2 ... R_N]^T [R_1' R_2' ... R_N'])
-        R_A = (U V^T)^T
+        R_A = (U V^T)^T    (after flipping the last column of V for a reflection)
         ```
     """
     # pyre-fixme[6]: For 1st argument expected `Tensor` but got `Union[Tensor, Module]`.
@@ -186,6 +186,10 @@ def _align_camera_extrinsics(
     RRcov = torch.bmm(cameras_src.R, cameras_tgt.R.transpose(2, 1)).mean(0)
     U, _, V = torch.svd(RRcov)
     align_t_R = V @ U.t()
+    if torch.det(align_t_R) < 0:
+        # the best rotation; flip the direction of the smallest singular value
+        V = torch.cat([V[:, :2], -V[:, 2:]], dim=1)
+        align_t_R = V @ U.t()
 
     """
     The translation + scale `T_A` and `s_A` is computed by finding
-- 
2.43.0


From cfb6b51f7ca1e776484c02137fda3ddcd6e657c7 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:29:37 +0000
Subject: [PATCH 144/147] fix: ImplicitronEvaluator evaluates frames without
 depth maps or masks

---
 pytorch3d/implicitron/evaluation/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/evaluation/evaluator.py b/pytorch3d/implicitron/evaluation/evaluator.py
index 449e53c..10c52a6 100644
--- a/pytorch3d/implicitron/evaluation/evaluator.py
+++ b/pytorch3d/implicitron/evaluation/evaluator.py
@@ -155,5 +155,6 @@ def _get_eval_frame_data(frame_data: Any) -> Any:
     frame_data_for_eval = copy.deepcopy(frame_data)
     for k in ("image_rgb", "depth_map", "fg_probability", "mask_crop"):
         value = getattr(frame_data_for_eval, k)
-        value[0].zero_()
+        if value is not None:
+            value[0].zero_()
     return frame_data_for_eval
-- 
2.43.0


From 013245a44df0dd44cd6a1d577c30b1f6996c927c Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 145/147] fix: plotting a mesh does not change its vertices and
 textures

---
 pytorch3d/vis/plotly_vis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/vis/plotly_vis.py b/pytorch3d/vis/plotly_vis.py
index b81e240..d89456c 100644
--- a/pytorch3d/vis/plotly_vis.py
+++ b/pytorch3d/vis/plotly_vis.py
@@ -655,15 +655,15 @@ def _add_mesh_trace(
 
     mesh = join_meshes_as_scene(meshes)
     mesh = mesh.detach().cpu()
-    verts = mesh.verts_packed()
+    # the tensors of a single mesh are shared with the input
+    verts = mesh.verts_packed().clone()
     faces = mesh.faces_packed()
     # If mesh has vertex colors or face colors, use them
     # for figure, otherwise use plotly's default colors.
     verts_rgb = None
     faces_rgb = None
     if isinstance(mesh.textures, TexturesVertex):
-        verts_rgb = mesh.textures.verts_features_packed()
-        verts_rgb.clamp_(min=0.0, max=1.0)
+        verts_rgb = mesh.textures.verts_features_packed().clamp(min=0.0, max=1.0)
         verts_rgb = torch.tensor(255.0) * verts_rgb
     if isinstance(mesh.textures, TexturesAtlas):
         atlas = mesh.textures.atlas_packed()
-- 
2.43.0


From 261cfef4437d9ecd3f7ce48841f1e74260ef9a4e Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 146/147] fix: plot_batch_individually with extend_struct=False
 shows single structs in the first subplot

---
 pytorch3d/vis/plotly_vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/vis/plotly_vis.py b/pytorch3d/vis/plotly_vis.py
index d89456c..c3c0572 100644
--- a/pytorch3d/vis/plotly_vis.py
+++ b/pytorch3d/vis/plotly_vis.py
@@ -538,7 +538,7 @@ def plot_batch_individually(
                     first_idxs = torch.cat((cumsum.new_zeros((1,)), cumsum))
                 # check for whether this struct needs to be extended
                 batched_struct_len = _get_len(batched_struct)
-                if i >= batched_struct_len and not extend_struct:
+                if scene_num >= batched_struct_len and not extend_struct:
                     continue
                 _add_struct_from_batch(
                     batched_struct,
-- 
2.43.0


From bb9ad3de78ba06b0a41e8b20af95fb83fc5711c6 Mon Sep 17 00:00:00 2001
From: Claude <claude@localhost>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 147/147] fix: plots of ray bundles do not start with an
 uninitialized point

---
 pytorch3d/vis/plotly_vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/vis/plotly_vis.py b/pytorch3d/vis/plotly_vis.py
index c3c0572..93ed02f 100644
--- a/pytorch3d/vis/plotly_vis.py
+++ b/pytorch3d/vis/plotly_vis.py
@@ -891,7 +891,7 @@ def _add_ray_bundle_trace(
         device=ray_lines_endpoints.device,
         dtype=ray_lines_endpoints.dtype,
     )
-    ray_lines = torch.empty(size=(1, 3), device=ray_lines_endpoints.device)
+    ray_lines = torch.empty(size=(0, 3), device=ray_lines_endpoints.device)
     for ray_line in ray_lines_endpoints:
         # We combine the ray lines into a single tensor to plot them in a
         # single trace. The NaNs are inserted between sets of ray lines
-- 
2.43.0

