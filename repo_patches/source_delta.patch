From 3691da77dee1ecaf15d57296dff16162fa4917c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 01/30] fix: resolve nodata=None to the data type's value in
 Camera.read() and remap()

common._nodata_vals is keyed by data type name, so indexing it with a numpy dtype raised KeyError, and
FrameCamera.remap() called np.isnan(None).
---
 orthority/camera.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dee13a9..b2f8856 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -363,7 +363,7 @@ class Camera(ABC):
         if not np.issubdtype(z.dtype, np.floating):
             raise ValueError("'z' should have 'float64' or 'float32' data type.")
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
 
         # find (j, i) image pixel coords corresponding to (x, y, z) world coords
         ji = self.world_to_pixel(np.array((x.reshape(-1), y.reshape(-1), z.reshape(-1))))
@@ -923,7 +923,7 @@ class FrameCamera(Camera):
         # does not support 3D images with >4 bands, and is slower on a re-ordered 3D image than
         # in a loop over bands)
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
         und_array = np.full(im_array.shape, dtype=im_array.dtype, fill_value=nodata)
 
         for bi in range(im_array.shape[0]):
@@ -1052,7 +1052,7 @@ class FrameCamera(Camera):
 
         if not self._distort:
             if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
+                nodata = common._nodata_vals[str(image.dtype)]
             image = self._undistort_im(image, nodata=nodata, interp=interp)
         return image
 
@@ -1098,6 +1098,8 @@ class FrameCamera(Camera):
             - Nodata mask of the remapped image, as a M-by-N 2D boolean array.
         """
         remap, mask = super().remap(image, x, y, z, nodata=nodata, interp=interp)
+        if nodata is None:
+            nodata = common._nodata_vals[str(image.dtype)]
 
         # remove blurring with nodata pixels when necessary
         if (
@@ -1108,9 +1110,6 @@ class FrameCamera(Camera):
         ):
             kernel = np.ones(kernel_size[::-1], np.uint8)
             mask = cv2.dilate(mask.view(np.uint8), kernel).view(bool)
-
-            if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
             remap[:, mask] = nodata
 
         return remap, mask
-- 
2.43.0


From 7e710393ae3f8d1522bf9eed16fc10b9ad8a9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 02/30] fix: accept interp as a string in
 Camera.world_boundary() with a z surface

---
 orthority/camera.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index b2f8856..a1d198b 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -153,7 +153,13 @@ class Camera(ABC):
             # nan outside its bounds and for already masked / nan pixels)
             zsurf_ji = np.array(inv_transform * ray_xyz[:2]).astype('float32', copy=False)
             zsurf_z = np.full((zsurf_ji.shape[1],), dtype=z.dtype, fill_value=float('nan'))
-            cv2.remap(z, *zsurf_ji, interp.to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT)
+            cv2.remap(
+                z,
+                *zsurf_ji,
+                Interp[interp].to_cv(),
+                dst=zsurf_z,
+                borderMode=cv2.BORDER_TRANSPARENT,
+            )
 
             # store the first ray-z intersection point if it exists, otherwise the z_min point
             zsurf_min_xyz = ray_xyz[:, -1]
-- 
2.43.0


From adb4034eaf0811574447cb61d9fe92337dba8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 03/30] fix: avoid NaN pixel coordinates at the fisheye
 principal point

---
 orthority/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index a1d198b..e4b11af 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1480,7 +1480,8 @@ class FisheyeCamera(FrameCamera):
         else:
             # opencv 4 parameter version
             theta_d = theta * (1.0 + theta2 * (k1 + theta2 * (k2 + theta2 * (k3 + theta2 * k4))))
-        xyz_[:2] *= theta_d / r
+        # (theta_d / r -> 1 as r -> 0, at the principal point)
+        xyz_[:2] *= np.divide(theta_d, r, out=np.ones_like(r), where=r != 0)
 
         # transform from distorted camera to pixel coordinates
         ji = self._K.dot(xyz_)[:2]
-- 
2.43.0


From 4dd7650c401b5adc5f0ca8d606ecc0b1f8906370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 04/30] fix: do not apply the first source image's CRS to
 following source images

---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..200be36 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                src_crs = crs or src_im.crs
+                if not src_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, src_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From 744b7e3630ff0aca40e23de4befd31e890d05a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 05/30] fix: return refined cameras from RpcCameras.get() when
 parameters are keyed by file stem

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..14ec7cc 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -349,12 +349,12 @@ class RpcCameras(Cameras):
             self._gcp_dict = gcps
 
         # refine RPC parameters with GCPs
+        self._cameras = {}  # force camera recreation
         for filename, rpc_param in self._rpc_param_dict.items():
             filename = Path(filename)
             gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.pop(filename.name, None)  # force camera recreation
                 rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
             else:
                 warnings.warn(
-- 
2.43.0


From 1e87143a098a023a623b388830beb51b627eb594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 06/30] fix: do not modify the caller's io_kwargs in
 FrameCameras.from_images()

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 14ec7cc..197b037 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -135,7 +135,7 @@ class FrameCameras(Cameras):
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-        io_kwargs.update(crs=reader.crs)
+        io_kwargs = dict(io_kwargs, crs=reader.crs)
         return cls(int_param_dict, ext_param_dict, io_kwargs=io_kwargs, cam_kwargs=cam_kwargs)
 
     @property
-- 
2.43.0


From 3ff915c84f468dddec0c73d97cf1fa6238b23dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:52 +0000
Subject: [PATCH 07/30] fix: do not modify the caller's RPC parameters in
 RpcCameras.refine()

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 197b037..4b3f81e 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -269,7 +269,8 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            # copy, as refine() changes the parameters
+            self._rpc_param_dict = {k: dict(v) for k, v in rpc_param.items()}
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
-- 
2.43.0


From eb90051bfdc3f17bbedc25100311144ede63e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:40 +0000
Subject: [PATCH 08/30] fix: scale a normalised focal length by the largest
 image dimension

As documented, and as in OpenSfM, focal_len without sensor_size is normalised by the maximum of the
sensor width and height.  It was scaled by the image width, which is wrong for portrait images.
---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index e4b11af..9887b26 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -681,10 +681,10 @@ class FrameCamera(Camera):
         if sensor_size is None:
             warnings.warn(
                 "'sensor_size' not specified, assuming square pixels and 'focal_len' normalised by "
-                "sensor width.",
+                "the maximum of sensor width and height.",
                 category=OrthorityWarning,
             )
-            sigma_xy = (focal_len * im_size[0]) * np.ones(2)
+            sigma_xy = (focal_len * im_size.max()) * np.ones(2)
         else:
             sensor_size = np.array(sensor_size)
             sigma_xy = focal_len * im_size / sensor_size
-- 
2.43.0


From d50fb934c54ac9f0de59b2073b781b454f75fb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:05 +0000
Subject: [PATCH 09/30] fix: use the fisheye distortion model in
 fit_frame_exterior()

---
 orthority/fit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index 8596127..8d60add 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -353,7 +353,12 @@ def fit_frame_exterior(
     # fit exterior parameters (SOLVEPNP_SQPNP is globally optimal so does not need further refining)
     ext_param_dict = {}
     for filename, xyz, ji in zip(gcp_dict.keys(), xyzs, jis):
-        _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
+        if int_param['cam_type'] == CameraType.fisheye:
+            # cv2.solvePnP() does not support the fisheye model, so undistort the image coordinates
+            ji_ = cv2.fisheye.undistortPoints(ji[None, :], K, dist_param, P=K)[0]
+            _, r, t = cv2.solvePnP(xyz, ji_, K, None, flags=cv2.SOLVEPNP_SQPNP)
+        else:
+            _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
         xyz_, opk = param_io._cv_ext_to_oty_ext(t, r, ref_xyz=ref_xyz)
         ext_param_dict[filename] = dict(xyz=xyz_, opk=opk, camera=cam_id)
 
-- 
2.43.0


From 0d51fc3b0b2d278f20592e91b0eaf3654a61d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:21 +0000
Subject: [PATCH 10/30] fix: scale the vertical datum offset with the DEM to
 ortho z units

---
 orthority/ortho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index e3be0cf..8502fef 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -254,8 +254,9 @@ class Ortho:
                 f"Ortho resolution for '{self._src_name}' is larger than the ortho bounds."
             )
 
-        # find z scaling from dem to world / ortho crs to set MULT_FACTOR_VERTICAL_SHIFT
-        # (rasterio does not set it automatically, as GDAL does)
+        # find z scaling from dem to world / ortho crs to set MULT_FACTOR_VERTICAL_SHIFT (scales dem
+        # values) and MULT_FACTOR_VERTICAL_SHIFT_PIPELINE (scales the vertical datum offset)
+        # (rasterio does not set them automatically, as GDAL does)
         dem_ji = (np.array(self._dem_array.shape[::-1]) - 1) / 2
         dem_xy = self._dem_transform * dem_ji
         world_zs = []
@@ -285,6 +286,7 @@ class Ortho:
             init_dest_nodata=True,
             apply_vertical_shift=True,
             mult_factor_vertical_shift=z_scale,
+            mult_factor_vertical_shift_pipeline=z_scale,
             num_threads=os.cpu_count(),
         )
         return dem_array.squeeze(), dem_transform
-- 
2.43.0


From 430bd93787047d375c2a600ae9b59332a61e1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:17 +0000
Subject: [PATCH 11/30] fix: allow for ground below sea level when finding the
 DEM window

---
 orthority/ortho.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 8502fef..cbab71f 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -79,7 +79,9 @@ class Ortho:
     # the WGS84 ellipsoid (meters)
     _egm_minmax = [-106.71, 82.28]
 
-    # Maximum possible ellipsoidal height i.e. approx. that of Everest (meters)
+    # Minimum and maximum possible geoidal height of land i.e. approx. that of the Dead Sea shore and
+    # Everest (meters)
+    _z_min = -440.0
     _z_max = 8850.0
 
     def __init__(
@@ -171,7 +173,10 @@ class Ortho:
                 return common.expand_window_to_grid(dem_win)
 
             # get a dem window containing the ortho bounds at min & max possible altitude
-            zs = np.array([self._egm_minmax[0], self._z_max + self._egm_minmax[1]]) * z_scale
+            zs = np.array(
+                [self._z_min + self._egm_minmax[0], self._z_max + self._egm_minmax[1]]
+            )
+            zs *= z_scale
             dem_win = get_win_at_zs(zs)
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
-- 
2.43.0


From 8144b193dde1adc7265109143db7191f5dcd2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:31 +0000
Subject: [PATCH 12/30] fix: pan-sharpening of constant or linearly dependent
 multispectral bands

---
 orthority/pan_sharp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index acd387b..8e645d9 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -362,6 +362,7 @@ class PanSharpen:
             a = np.zeros((cov.shape[0], cov.shape[0]))
             coeffs = [np.zeros(k + 1) for k in range(cov.shape[0])]
             e = np.eye(cov.shape[0])
+            den_min = 1e-12 * np.trace(cov)
             for k in range(cov.shape[0]):
                 # eq 4 from paper
                 if k == 0:
@@ -373,8 +374,9 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors
-                    coeffs[k][l] = num / den if np.any(a[l] != 0) else 0
+                    # the 'if' below avoids dividing by (near) zero variance components, which occur
+                    # with canonical weight vectors, and constant or linearly dependent bands
+                    coeffs[k][l] = num / den if l == 0 or den > den_min else 0
 
             return coeffs
 
-- 
2.43.0


From afddb138a870aa3571b847ef09ac7b36ab37426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 13/30] fix: default write_mask when JPEG compression is (not)
 set in creation_options

---
 orthority/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/common.py b/orthority/common.py
index 069506b..e9345bd 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -488,7 +488,8 @@ def create_profile(
 
     # resolve auto write_mask (=None) to write masks for jpeg compression
     if write_mask is None:
-        write_mask = True if compress == Compress.jpeg else False
+        out_compress = {k.lower(): v for k, v in profile.items()}.get('compress', None)
+        write_mask = str(out_compress).lower() == Compress.jpeg.value
 
     # set nodata to None when writing internal masks to force external tools to use mask,
     # otherwise set by dtype
-- 
2.43.0


From ace4c1f76926503b86034a3a0e0b14d814144c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 14/30] fix: corrupt GeoTIFF output with JPEG compression and
 more than 4 bands

---
 orthority/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orthority/common.py b/orthority/common.py
index e9345bd..ce64c76 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -476,6 +476,9 @@ def create_profile(
             # configure photometric interpretation and tiling
             if compress == Compress.jpeg and shape[0] == 3:
                 profile.update(photometric='ycbcr')
+            elif compress == Compress.jpeg and shape[0] > 4:
+                # pixel interleaved JPEG is limited to 4 bands
+                profile.update(interleave='band')
             profile.update(tiled=True, blockxsize=512, blockysize=512)
         else:
             # Configure tiling & overviews. Overviews are not created automatically, but copied
-- 
2.43.0


From 2221d91f88d2b3df30813647609aae9066a12622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 15/30] fix: pan-sharpened mask could be written to an external
 file

---
 orthority/pan_sharp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 8e645d9..65658f3 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -600,7 +600,10 @@ class PanSharpen:
             exit_stack.enter_context(common.suppress_no_georef())
 
             # open pan & MS images
-            exit_stack.enter_context(rio.Env(GDAL_NUM_THREADS='ALL_CPUS', GTIFF_FORCE_RGBA=False))
+            env = rio.Env(
+                GDAL_NUM_THREADS='ALL_CPUS', GTIFF_FORCE_RGBA=False, GDAL_TIFF_INTERNAL_MASK=True
+            )
+            exit_stack.enter_context(env)
             pan_im = exit_stack.enter_context(common.OpenRaster(self._pan_file, 'r'))
             ms_im = exit_stack.enter_context(common.OpenRaster(self._ms_file, 'r'))
 
-- 
2.43.0


From b093a814378f4522d78a39ab7811318ed1894074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:59 +0000
Subject: [PATCH 16/30] fix: pan-sharpening without positive weights failed
 with a TypeError or gave an empty image

---
 orthority/pan_sharp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 65658f3..6b6def3 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -323,7 +323,7 @@ class PanSharpen:
             if weights is None:
                 # find the LS solution for the weights as described in section 2.2 & eq 6
                 weights = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:].reshape(-1, 1), rcond=None)[0]
-                weights = weights.squeeze()
+                weights = weights.flatten()
 
                 # redo the LS without negatively weighted bands if there are any
                 if np.any(weights < 0):
@@ -353,6 +353,8 @@ class PanSharpen:
                     category=OrthorityWarning,
                 )
                 weights = weights.clip(0, None)
+            if not np.any(weights > 0):
+                raise OrthorityError('There are no positive multispectral to pan weights.')
             return weights / weights.sum()
 
         def get_gs_coeffs(cov: np.ndarray, weights: np.ndarray) -> list[np.ndarray]:
-- 
2.43.0


From 4f8eb7b1982b4a67f9975130ea55d1450af75b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 17/30] fix: reading tags from several images restores the
 warning filters

The warnings.catch_warnings contexts entered by the reader threads are exited in an undefined order, so the filters of
one thread could be left behind after the call.
---
 orthority/param_io.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..7b3250c 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -368,9 +368,10 @@ def read_im_rpc_param(
         #  won't match with GCPs when refining.
         return {filename: rpc_param}
 
-    # read RPC params in a thread pool, populating rpc_param_dict in same order as files
+    # read RPC params in a thread pool, populating rpc_param_dict in same order as files (warning
+    # filters are restored here, as the order in which threads restore them is undefined)
     rpc_param_dict = {}
-    with ThreadPoolExecutor() as executor:
+    with common.suppress_no_georef(), ThreadPoolExecutor() as executor:
         futures = [executor.submit(_read_im_rpc_param, file) for file in files]
 
         # set up progress bar
@@ -494,9 +495,10 @@ def read_im_gcps(
 
         return {filename: oty_gcps}
 
-    # read GCPs in a thread pool, populating gcp_dict in same order as files
+    # read GCPs in a thread pool, populating gcp_dict in same order as files (warning filters are
+    # restored here, as the order in which threads restore them is undefined)
     gcp_dict = {}
-    with ThreadPoolExecutor() as executor:
+    with common.suppress_no_georef(), ThreadPoolExecutor() as executor:
         futures = [executor.submit(_read_im_gcps, file) for file in files]
 
         # set up progress bar
@@ -1305,9 +1307,10 @@ class ExifReader(FrameReader):
         files: Sequence[str | PathLike | OpenFile | rio.DatasetReader], progress: bool | dict
     ) -> dict[str, Exif]:
         """Return a dictionary of Exif objects for the given images."""
-        # read exif tags in thread pool, populating exif_dict in same order as files
+        # read exif tags in thread pool, populating exif_dict in same order as files (warning
+        # filters are restored here, as the order in which threads restore them is undefined)
         exif_dict = {}
-        with ThreadPoolExecutor() as executor:
+        with common.suppress_no_georef(), ThreadPoolExecutor() as executor:
             futures = [executor.submit(Exif, file) for file in files]
 
             # set up progress bar
-- 
2.43.0


From b7c39f379c0d26958fa67b8fb2a47a1bc0fd58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:24 +0000
Subject: [PATCH 18/30] fix: overwriting a corrupt or partially written image
 failed

---
 orthority/common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index ce64c76..24d2b7d 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -46,7 +46,7 @@ except ImportError:
 
 from fsspec.implementations.local import LocalFileSystem
 from rasterio.crs import CRS
-from rasterio.errors import NotGeoreferencedWarning, RasterioIOError
+from rasterio.errors import NotGeoreferencedWarning, RasterioError, RasterioIOError
 from rasterio.io import DatasetReaderBase, DatasetWriter
 from rasterio.windows import Window
 
@@ -307,13 +307,19 @@ class OpenRaster:
 
             # TODO: delete sidecar files if overwriting (note that DatasetReader has a files
             #  attribute that lists associated files)
-            # TODO: if a file is partially written (e.g. because of an error), rasterio fails when
-            #  overwriting it
             if not overwrite and 'w' in mode and ofile.fs.exists(ofile.path):
                 raise FileExistsError(f"File exists: '{ofile.path}'")
 
             if isinstance(ofile.fs, (LocalFileSystem, HTTPFileSystem)):
                 # use GDAL internal file system
+                if 'w' in mode and os.path.isfile(ofile.path):
+                    # rasterio fails when overwriting a corrupt or partially written file, so
+                    # remove it first (rasterio deletes valid files, together with their sidecars)
+                    try:
+                        with suppress_no_georef(), rio.open(ofile.path, 'r'):
+                            pass
+                    except RasterioError:
+                        os.remove(ofile.path)
                 try:
                     self._dataset = self._exit_stack.enter_context(
                         rio.open(ofile.path, mode, **kwargs)
-- 
2.43.0


From 35107694a0859a2064a126a2d41eb23760d8536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:17 +0000
Subject: [PATCH 19/30] fix: keep vertical units of the world CRS in exterior
 parameter files

---
 orthority/param_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7b3250c..7d48e42 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -641,7 +641,10 @@ def write_ext_param(
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
         feat_list.append(feat_dict)
 
-    json_dict = dict(type='FeatureCollection', world_crs=crs.to_string(), features=feat_list)
+    # use WKT if the default (e.g. EPSG) string does not fully describe the CRS
+    crs_str = crs.to_string()
+    crs_str = crs_str if CRS.from_string(crs_str) == crs else crs.to_wkt()
+    json_dict = dict(type='FeatureCollection', world_crs=crs_str, features=feat_list)
 
     with common.Open(file, 'wt', overwrite=overwrite) as f:
         json.dump(json_dict, f, indent=4)
-- 
2.43.0


From 80951e1aa60e51a47c6e854faaba7dc175e04f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 20/30] fix: orientation angles of cameras that look along the
 world x axis

---
 orthority/param_io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7d48e42..0253e56 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -734,9 +734,14 @@ def _opk_to_rotation(opk: tuple[float, float, float]) -> np.ndarray:
 def _rotation_to_opk(R: np.ndarray) -> tuple[float, float, float]:
     """Convert the given rotation matrix to the (omega, phi, kappa) angles in radians."""
     # see https://s3.amazonaws.com/mics.pix4d.com/KB/documents/Pix4D_Yaw_Pitch_Roll_Omega_to_Phi_Kappa_angles_and_conversion.pdf
-    omega = float(np.arctan2(-R[1, 2], R[2, 2]))
-    phi = float(np.arcsin(R[0, 2]))
-    kappa = float(np.arctan2(-R[0, 1], R[0, 0]))
+    phi = float(np.arcsin(np.clip(R[0, 2], -1, 1)))
+    if np.hypot(R[0, 0], R[0, 1]) > 1e-8:
+        omega = float(np.arctan2(-R[1, 2], R[2, 2]))
+        kappa = float(np.arctan2(-R[0, 1], R[0, 0]))
+    else:
+        # phi is +-90 deg, and omega & kappa rotate about the same axis (gimbal lock)
+        omega = float(np.arctan2(R[2, 1], R[1, 1]))
+        kappa = 0.0
     return omega, phi, kappa
 
 
-- 
2.43.0


From b71fcfe820052bc3c7b776c2bb818915c1a74e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:21 +0000
Subject: [PATCH 21/30] fix: report a DEM without valid heights in the ortho
 bounds as an OrthorityError

---
 orthority/ortho.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index cbab71f..72933fc 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -181,6 +181,10 @@ class Ortho:
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
             dem_array_win = dem_win
+            if dem_array.count() == 0:
+                raise OrthorityError(
+                    f"Ortho for '{self._src_name}' lies outside the valid DEM area."
+                )
 
             # reduce the dem window to contain the ortho bounds at min & max dem altitude,
             # accounting for dem-ortho vertical datum offset & z unit scaling
@@ -207,6 +211,10 @@ class Ortho:
 
             # cast dem_array to float32 and set nodata to nan (to persist masking through cv2.remap)
             dem_array = dem_array.astype('float32', copy=False).filled(np.nan)
+            if np.all(np.isnan(dem_array)):
+                raise OrthorityError(
+                    f"Ortho for '{self._src_name}' lies outside the valid DEM area."
+                )
             return dem_array, dem_transform, dem_im.crs
 
     def _get_gsd(self) -> float:
-- 
2.43.0


From b6096bdfa8d18ebe688c611bf3f72c14187bce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:21 +0000
Subject: [PATCH 22/30] fix: keep DEM pixels around the ortho bounds, so that a
 covering DEM is not reported as partial

---
 orthority/ortho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 72933fc..0a93742 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -167,10 +167,12 @@ class Ortho:
                 )
                 dem_win = dem_im.window(*dem_bounds)
                 try:
-                    dem_win = dem_full_win.intersection(dem_win)
+                    dem_full_win.intersection(dem_win)
                 except rio.errors.WindowError:
                     raise OrthorityError(f"Ortho for '{self._src_name}' lies outside the DEM.")
-                return common.expand_window_to_grid(dem_win)
+                # include surrounding pixels so that the reprojected DEM is valid up to its bounds
+                dem_win = common.expand_window_to_grid(dem_win, expand_pixels=(2, 2))
+                return dem_full_win.intersection(dem_win)
 
             # get a dem window containing the ortho bounds at min & max possible altitude
             zs = np.array(
-- 
2.43.0


From eeb375d6b7111efdc475950dd74a220e79702777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:10 +0000
Subject: [PATCH 23/30] fix: raise ParamError for malformed Orthority interior
 parameter files

---
 orthority/param_io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 0253e56..6e266ea 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -251,7 +251,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         return int_param
 
     # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    if isinstance(yaml_dict, dict) and 'camera' in yaml_dict:
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
@@ -259,14 +259,17 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         )
         yaml_dict = yaml_dict['camera']
 
-    # convert to nested dict if in flat / simple-ortho format
-    first_value = next(iter(yaml_dict.values()))
-    if not isinstance(first_value, dict):
-        cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
-        yaml_dict = {cam_id: yaml_dict}
+    if not isinstance(yaml_dict, dict) or len(yaml_dict) == 0:
+        raise ParamError(f"Could not parse '{filename}': no camera parameters.")
 
-    # validate root dict
     try:
+        # convert to nested dict if in flat / simple-ortho format
+        first_value = next(iter(yaml_dict.values()))
+        if not isinstance(first_value, dict):
+            cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
+            yaml_dict = {cam_id: yaml_dict}
+
+        # validate root dict
         common.validate_collection({str: dict}, yaml_dict)
     except (TypeError, KeyError, ValueError) as ex:
         raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
@@ -276,7 +279,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
     for cam_id, yaml_param in yaml_dict.items():
         try:
             int_param_dict[cam_id] = parse_yaml_param(yaml_param, cam_id)
-        except ParamError as ex:
+        except (ParamError, TypeError, AttributeError) as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
 
-- 
2.43.0


From ed4bbd403c4dfe7acae2397599f9afc58f695ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:10 +0000
Subject: [PATCH 24/30] fix: raise ParamError for malformed OpenSfM camera
 sections

---
 orthority/param_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 6e266ea..cf36baf 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -81,7 +81,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # set 'cam_type' from 'projection_type'
-        proj_type = json_param.pop('projection_type').lower()
+        proj_type = str(json_param.pop('projection_type')).lower()
         try:
             int_param['cam_type'] = CameraType.from_odm(proj_type)
         except ValueError:
@@ -305,8 +305,8 @@ def read_osfm_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str,
             raise ParamError(f"Could not load '{filename}': {ex!s}") from ex
 
     # extract cameras section if file is an OpenSfM reconstruction.json file
-    if isinstance(json_dict, list) and len(json_dict) == 1 and 'cameras' in json_dict[0]:
-        json_dict = json_dict[0]['cameras']
+    if isinstance(json_dict, list) and len(json_dict) == 1 and isinstance(json_dict[0], dict):
+        json_dict = json_dict[0].get('cameras', json_dict)
 
     try:
         int_param_dict = _read_osfm_int_param(json_dict)
-- 
2.43.0


From 12e96487228328cc35fc2e418eb5a77b5a9ca209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:10 +0000
Subject: [PATCH 25/30] fix: raise ParamError for malformed CSV exterior
 parameter files

---
 orthority/param_io.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index cf36baf..80860b0 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1002,7 +1002,7 @@ class CsvReader(FrameReader):
             self._fieldnames, self._dialect, self._has_header, self._format = self._parse_file(
                 self._buffer, fieldnames=fieldnames, dialect=dialect
             )
-        except ParamError as ex:
+        except (ParamError, csv.Error) as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{common.get_filename(file)}': {ex!s}") from ex
 
@@ -1071,19 +1071,32 @@ class CsvReader(FrameReader):
 
         return fieldnames, dialect, has_header, csv_fmt
 
+    def _read_rows(self) -> list[dict[str, Any]]:
+        """Return a list of typed row dictionaries."""
+        rows = []
+        self._buffer.seek(0)
+        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
+        try:
+            if self._has_header:  # read header
+                _ = next(iter(reader))
+            for row in reader:
+                if row['filename'] is None:
+                    raise ValueError("'filename' is missing.")
+                row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+                rows.append(row)
+        except (ValueError, TypeError, csv.Error) as ex:
+            # repackage formatting errors with filename
+            filename = common.get_filename(self._file)
+            raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
+        return rows
+
     def _find_lla_rpy_crs(self) -> CRS:
         """Return a UTM CRS covering the mean of the camera positions in a
         :attr:`~CsvFormat.lla_rpy` format file.
         """
-        latlons = []
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-        if self._has_header:
-            _ = next(iter(reader))
-        for row in reader:
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
-            latlon = (row['latitude'], row['longitude'])
-            latlons.append(latlon)
+        latlons = [(row['latitude'], row['longitude']) for row in self._read_rows()]
+        if len(latlons) == 0:
+            raise ParamError(f"No camera positions in '{common.get_filename(self._file)}'.")
 
         mean_latlon = np.array(latlons).mean(axis=0)
         return common.utm_crs_from_latlon(*mean_latlon)
@@ -1155,15 +1168,8 @@ class CsvReader(FrameReader):
 
     def read_ext_param(self) -> dict[str, dict[str, Any]]:
         ext_param_dict = {}
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-
-        if self._has_header:  # read header
-            _ = next(iter(reader))
-
-        for row in reader:
+        for row in self._read_rows():
             filename = Path(row['filename']).name
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From 67d21a83a199b738e6c12b8d1f8aa2fd4d4d5f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:23 +0000
Subject: [PATCH 26/30] fix: raise ParamError for malformed CSV exterior
 parameter files that are not text

---
 orthority/param_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 80860b0..06f05e9 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -996,7 +996,10 @@ class CsvReader(FrameReader):
         # read file once into a buffer (newline=None works around some delimiter detection problems
         # with newline='')
         with common.Open(self._ofile or file, 'rt', newline=None) as f:
-            self._buffer = StringIO(f.read())
+            try:
+                self._buffer = StringIO(f.read())
+            except UnicodeDecodeError as ex:
+                raise ParamError(f"Could not load '{common.get_filename(file)}': {ex!s}") from ex
 
         try:
             self._fieldnames, self._dialect, self._has_header, self._format = self._parse_file(
-- 
2.43.0


From ba40a788a14e3a073c16f02c622982d988a156e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:09 +0000
Subject: [PATCH 27/30] fix: read GCP files without the optional id and info
 properties

---
 orthority/param_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 06f05e9..1f48e20 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -545,7 +545,7 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         features=[
             dict(
                 type='Feature',
-                properties=dict(ji=[(int, float)] * 2, filename=str, id=None, info=None),
+                properties=dict(ji=[(int, float)] * 2, filename=str),
                 geometry=dict(type='Point', coordinates=[(int, float)] * 3),
             )
         ],
@@ -562,7 +562,10 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         prop_dict = feat_dict['properties']
         filename = prop_dict['filename']
         xyz = tuple(feat_dict['geometry']['coordinates'])
-        gcp = dict(ji=tuple(prop_dict['ji']), xyz=xyz, id=prop_dict['id'], info=prop_dict['info'])
+        # id & info are optional
+        gcp = dict(
+            ji=tuple(prop_dict['ji']), xyz=xyz, id=prop_dict.get('id'), info=prop_dict.get('info')
+        )
 
         if filename not in gcp_dict:
             gcp_dict[filename] = [gcp]
-- 
2.43.0


From 278ad155f787cb59b243bb0f33cef328739dd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:09 +0000
Subject: [PATCH 28/30] fix: read interior parameter files with cameras that
 share a YAML anchor

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 1f48e20..92bed4d 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -278,7 +278,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
     int_param_dict = {}
     for cam_id, yaml_param in yaml_dict.items():
         try:
-            int_param_dict[cam_id] = parse_yaml_param(yaml_param, cam_id)
+            int_param_dict[cam_id] = parse_yaml_param(yaml_param.copy(), cam_id)
         except (ParamError, TypeError, AttributeError) as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
-- 
2.43.0


From ace32cc6758129f4e7c8b43e27c3af6eee415898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 29/30] fix: keep RPC models and GCPs as they were when
 refinement fails

---
 orthority/factory.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 4b3f81e..b83db88 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -343,24 +343,31 @@ class RpcCameras(Cameras):
         if gcps and not isinstance(gcps, dict):
             # read GCPs
             if isinstance(gcps, (list, tuple)):
-                self._gcp_dict = param_io.read_im_gcps(gcps, **(io_kwargs or {}))
+                gcp_dict = param_io.read_im_gcps(gcps, **(io_kwargs or {}))
             else:
-                self._gcp_dict = param_io.read_oty_gcps(gcps)
+                gcp_dict = param_io.read_oty_gcps(gcps)
         else:
-            self._gcp_dict = gcps
+            gcp_dict = gcps
 
         # refine RPC parameters with GCPs
-        self._cameras = {}  # force camera recreation
+        rpc_param_dict = {}
         for filename, rpc_param in self._rpc_param_dict.items():
-            filename = Path(filename)
-            gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
+            name, stem = Path(filename).name, Path(filename).stem
+            gcps = gcp_dict.get(name, gcp_dict.get(stem, None))
 
             if gcps:
-                rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
+                rpc = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
+                rpc_param = dict(rpc_param, rpc=rpc)
             else:
                 warnings.warn(
                     f"Could not find any GCPs for '{filename}'.", category=OrthorityWarning
                 )
+            rpc_param_dict[filename] = rpc_param
+
+        # only update when all models have been refined
+        self._gcp_dict = gcp_dict
+        self._rpc_param_dict = rpc_param_dict
+        self._cameras = {}  # force camera recreation
 
     def get(self, filename: str | PathLike | OpenFile | rio.DatasetReader) -> RpcCamera:
         # get RPC params for filename
-- 
2.43.0


From 8d04f044feaee693dc70b210f7fae47cd55bd503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 30/30] fix: simple-ortho writes each ortho to its own source
 directory by default

---
 orthority/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 200be36..81bb84c 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1340,8 +1340,8 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                im_ortho_dir = Path(ortho_dir) if ortho_dir else src_filename.parent
+                ortho_filename = im_ortho_dir.joinpath(src_filename.stem + '_ORTHO.tif')
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0

