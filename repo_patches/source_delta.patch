From b22d4832e16891ce4e979f9fc06f123da71d26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 01/23] fix: render images that are only one pixel wide or high

The position of a pixel in the view was divided by zero, so that all rays
through it were not a number.
---
 src/renderer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 6f8cf82..dae8cc3 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -260,8 +260,8 @@ impl Renderer {
 
                         let yi = ((image_height - 1) - y) * image_width;
                         for x in 0..image_width {
-                            let u = (x as f64 + random_normal_float()) / (image_width - 1) as f64;
-                            let v = (y as f64 + random_normal_float()) / (image_height - 1) as f64;
+                            let u = (x as f64 + random_normal_float()) / (image_width - 1).max(1) as f64;
+                            let v = (y as f64 + random_normal_float()) / (image_height - 1).max(1) as f64;
                             let ray = camera.get_ray(Uv::new(u as f32, v as f32));
                             let ray_color_res = self.ray_color(&ray, 0, 0.);
 
-- 
2.43.0


From 2a4b495ef1a611030beadb00df496ad96d8410f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 02/23] fix: find hits behind the ray origin in a bvh when they
 are asked for

A constant medium looks for its boundary along the whole line of the ray,
but a bvh as boundary discarded everything behind the origin, so fog was
not seen by rays that started inside of it.
---
 src/geo/mod.rs      | 8 +++++++-
 src/hittable/bvh.rs | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 7118d87..8de7956 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -157,7 +157,13 @@ impl Aabb {
 
     /// Checks if the given ray hits the aabb
     pub fn hit(&self, r: &Ray) -> bool {
-        let mut t_min = 0.;
+        self.hit_from(r, 0.)
+    }
+
+    /// Checks if the given ray hits the aabb anywhere beyond the given ray length,
+    /// a negative ray length includes what is behind the origin of the ray
+    pub fn hit_from(&self, r: &Ray, ray_length_min: f64) -> bool {
+        let mut t_min = ray_length_min;
         let mut t_max = f64::INFINITY;
 
         if r.direction_inverted.x.is_sign_negative() {
diff --git a/src/hittable/bvh.rs b/src/hittable/bvh.rs
index 5f72095..0995910 100644
--- a/src/hittable/bvh.rs
+++ b/src/hittable/bvh.rs
@@ -164,7 +164,7 @@ fn sort_hittables_by_center(list: &mut [Hittables], center: f64, axis: u8) -> us
 
 impl Hittable for Bvh {
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        if !self.b_box.hit(r) {
+        if !self.b_box.hit_from(r, ray_length.min.min(0.)) {
             return None;
         }
 
-- 
2.43.0


From 402ff6c264a5ff43698b9e1ba52eb92c9f1abb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 03/23] fix: sample sphere lights from points inside of the
 sphere

The cone towards the sphere is undefined from inside of it, which gave
directions and pdf values that were not numbers.
---
 src/hittable/sphere.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index aed43b8..957f942 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -4,7 +4,7 @@ use crate::geo::Aabb;
 use crate::geo::Onb;
 use crate::geo::Ray;
 use crate::geo::Uv;
-use crate::geo::vec3::{UNIT_Y, Vec3};
+use crate::geo::vec3::{random_unit_vector, UNIT_Y, Vec3};
 use crate::hittable::{Hittable, Hittables};
 use crate::hittable::Hittables::SphereType;
 use crate::material::{Material, Materials, RayHit};
@@ -45,9 +45,14 @@ impl Hittable for Sphere {
         match hit {
             None => 0.,
             Some(_) => {
-                let cos_theta_max = (1.
-                    - self.radius * self.radius / (self.center - origin).length_squared())
-                .sqrt();
+                // The sphere covers all directions when seen from inside
+                let distance_squared = (self.center - origin).length_squared();
+                let radius_squared = self.radius * self.radius;
+                if distance_squared <= radius_squared {
+                    return 1. / (4. * PI);
+                }
+
+                let cos_theta_max = (1. - radius_squared / distance_squared).sqrt();
                 let solid_angle = 2. * PI * (1. - cos_theta_max);
 
                 1. / solid_angle
@@ -57,6 +62,9 @@ impl Hittable for Sphere {
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
         let direction = self.center - origin;
+        if direction.length_squared() <= self.radius * self.radius {
+            return random_unit_vector();
+        }
         let uvw = Onb::new(direction);
         uvw.local(random_to_sphere(self.radius, direction.length_squared()))
     }
-- 
2.43.0


From 0cfdbc4d5b31e959ae3cf19123dd88c074474de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 04/23] fix: keep normals from normal maps at unit length

Materials take the normal of a hit to be a unit vector, but what is read
from a normal map is not, not even for a perfect map with 8 bits per channel.
---
 src/material/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/material/mod.rs b/src/material/mod.rs
index be833ab..f2c0713 100644
--- a/src/material/mod.rs
+++ b/src/material/mod.rs
@@ -385,7 +385,12 @@ impl Isotropic {
 
 fn transform_normal_by_map(normal_map: &Textures, onb: Onb, uv: Uv) -> Vec3 {
     let n: Vec3 = normal_map.color(uv) * 2. - ONE_VECTOR;
-    onb.local(n)
+    let normal = onb.local(n);
+    if normal.near_zero() {
+        onb.normal
+    } else {
+        normal.unit()
+    }
 }
 
 const SPHERE_PDF_VALUE: f64 = 1. / (4. * PI);
-- 
2.43.0


From f58781b600ab21c2a59e6bc03eb920e903eec2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 05/23] fix: make normal maps on spheres independent of the
 radius

The bi-tangent had the length of the radius and not of one, so that normals
were bent more on larger spheres. At the poles the tangent was not a number.
---
 src/hittable/sphere.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index 957f942..b66ccd2 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -94,8 +94,14 @@ impl Hittable for Sphere {
         let mut normal = n.unit();
         let uv = calculate_sphere_uv(normal);
 
-        let tangent = UNIT_Y.cross(n).unit();
-        let bi_tangent = n.cross(tangent);
+        let tangent = UNIT_Y.cross(normal);
+        let tangent = if tangent.near_zero() {
+            // All directions are equally good at the poles
+            Vec3::new(1., 0., 0.)
+        } else {
+            tangent.unit()
+        };
+        let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
         if !front_face {
-- 
2.43.0


From 938fd92686b46a0bf78ff2427dca107bee5a3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 06/23] fix: give triangles without usable texture coordinates
 valid tangents

They were not numbers, and so were the normals of all hits on such
triangles when their material has a normal map.
---
 src/hittable/triangle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index c8a6334..bb05c4e 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -78,6 +78,14 @@ impl Triangle {
         let r = 1. / (delta_uv_1.u * delta_uv_2.v - delta_uv_1.v * delta_uv_2.u);
         let tangent = ((delta_pos_1 * delta_uv_2.v - delta_pos_2 * delta_uv_1.v) * r).unit();
         let bi_tangent = ((delta_pos_2 * delta_uv_1.u - delta_pos_1 * delta_uv_2.u) * r).unit();
+        // Without usable texture coordinates there is no preferred direction for the tangents
+        let (tangent, bi_tangent) =
+            if tangent.length().is_finite() && bi_tangent.length().is_finite() {
+                (tangent, bi_tangent)
+            } else {
+                let onb = Onb::new(normal);
+                (onb.tangent, onb.bi_tangent)
+            };
 
         Hittables::from(Triangle {
             v0,
-- 
2.43.0


From 6750c9dac4c8beac9ad031dfc68f96e32bd03d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 07/23] fix: let every texel of an image texture cover an equal
 share of the image

The last column and the row at v = 0 were only used for a single coordinate,
all other texels were stretched to fill up.
---
 src/material/texture.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 7a875b8..3aca719 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -171,8 +171,8 @@ impl Texture for ImageMap {
         let u = uv.u.abs() % 1.;
         let v = 1. - uv.v.abs() % 1.;
 
-        let x = u * self.max_x;
-        let y = v * self.max_y;
+        let x = (u * (self.max_x + 1.)).min(self.max_x);
+        let y = (v * (self.max_y + 1.)).min(self.max_y);
 
         let pixel = self.image.get_pixel(x as u32, y as u32);
         rgb_to_vec3(pixel)
-- 
2.43.0


From d3e2d8e2c472c5300841a42fc4708726c3852213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 08/23] fix: tell apart all materials of obj models with many
 materials

Material ids were cut down to eight bits, so models with more than 127
materials got the wrong ones.
---
 src/loader/obj.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 59b4ef5..2ec6b57 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -54,7 +54,7 @@ impl Loader for Obj {
         let materials =
             materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
 
-        let mut mat_map = HashMap::from([(-1, default_material.clone())]);
+        let mut mat_map = HashMap::new();
         for (i, m) in materials.iter().enumerate() {
             let albedo_texture = match &m.diffuse_texture {
                 None => match m.diffuse {
@@ -72,7 +72,7 @@ impl Loader for Obj {
                     Some(texture::load_normal_texture(&bump_texture_path)?)
                 }
             };
-            mat_map.insert(i as i8, Lambertian::new(albedo_texture, normal_texture));
+            mat_map.insert(i, Lambertian::new(albedo_texture, normal_texture));
         }
 
         let mut triangles = Vec::new();
@@ -110,11 +110,7 @@ impl Loader for Obj {
                     )
                 };
 
-                let material_id = match mesh.material_id {
-                    None => -1,
-                    Some(id) => id as i8,
-                };
-                let material = match mat_map.get(&material_id) {
+                let material = match mesh.material_id.and_then(|id| mat_map.get(&id)) {
                     None => default_material.to_owned(),
                     Some(m) => m.to_owned(),
                 };
-- 
2.43.0


From 1a0832943c5b110f41f24003e27acdde01645927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 09/23] fix: measure ray lengths in units of the scene

Ray lengths count in lengths of the ray's direction, which was whatever
came out of the camera or the sampling of lights. So light attenuation
depended on the distance to the look-at point and on how a light was
sampled, and with the smallest ray length growing with the distance to a
light, objects close to the surface did not shade it.
---
 src/camera.rs       | 2 +-
 src/material/mod.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/camera.rs b/src/camera.rs
index 36e9d0c..874d933 100644
--- a/src/camera.rs
+++ b/src/camera.rs
@@ -85,6 +85,6 @@ impl Camera {
         let r_dir = self.lower_left_corner + (self.horizontal * uv.u) + (self.vertical * uv.v)
             - self.origin
             - offset;
-        Ray::new(self.origin + offset, r_dir)
+        Ray::new(self.origin + offset, r_dir.unit())
     }
 }
diff --git a/src/material/mod.rs b/src/material/mod.rs
index f2c0713..a850258 100644
--- a/src/material/mod.rs
+++ b/src/material/mod.rs
@@ -195,7 +195,7 @@ impl Material for Lambertian {
         let light_pdf = ContainerPdf::new(lights, rec.hit_point);
 
         let pdf_direction = mix_generate(&light_pdf, &pdf);
-        let scattered = Ray::new(rec.hit_point, pdf_direction);
+        let scattered = Ray::new(rec.hit_point, pdf_direction.unit());
         let light_pdf_value = mix_value(&light_pdf, &pdf, scattered.direction);
         let scattering_pdf_value = Lambertian::scattering_pdf_value(rec.normal, scattered.direction.unit());
 
@@ -243,7 +243,7 @@ impl Material for Metal {
             color: self.albedo.color(rec.uv),
             ray: Ray::new(
                 rec.hit_point,
-                reflected + random_in_unit_sphere() * self.fuzz,
+                (reflected + random_in_unit_sphere() * self.fuzz).unit(),
             ),
         })
     }
@@ -404,7 +404,7 @@ impl Material for Isotropic {
         let pdf = SpherePdf::new();
         let light_pdf = ContainerPdf::new(lights, rec.hit_point);
         let pdf_direction = mix_generate(&light_pdf, &pdf);
-        let scattered = Ray::new(rec.hit_point, pdf_direction);
+        let scattered = Ray::new(rec.hit_point, pdf_direction.unit());
         let light_pdf_value = mix_value(&light_pdf, &pdf, scattered.direction);
 
         RayScatter::ScatterPdf(ScatterPdf {
-- 
2.43.0


From 0d0b3912b09c50dbf2fa8a256171c065db329f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 10/23] fix: collect albedo and normal colors when post
 processors need them

The condition was the wrong way around, so they were collected only when
nobody needed them and denoising got all zeros.
---
 src/renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index dae8cc3..c2cbd33 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -218,7 +218,7 @@ impl Renderer {
         let pixel_count = image_width * image_height;
         let samples_per_pixel = self.scene.render_config.samples_per_pixel;
         let needs_albedo_and_normal_colors =
-            !self.scene.render_config.needs_albedo_and_normal_colors();
+            self.scene.render_config.needs_albedo_and_normal_colors();
 
         let pixel_colors: Arc<Mutex<Vec<Vec3>>> =
             Arc::new(Mutex::new(vec![ZERO_VECTOR; pixel_count]));
-- 
2.43.0


From 6965d127203291c48773316081f8efddef3eecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 11/23] fix: get the distance between almost parallel rays
 right

When the cross product of parallel directions is not exactly zero because of
rounding, its direction is arbitrary and so was the distance.
---
 src/geo/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 8de7956..59f56e8 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -2,7 +2,7 @@
 use std::ops::{Add, Sub};
 use derive_more::Constructor;
 
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{ALMOST_ZERO, Vec3};
 use crate::util::interval::{combine_intervals, Interval, EMPTY_INTERVAL};
 
 pub mod transformation;
@@ -301,7 +301,7 @@ impl Ray {
         let od = self.origin - ray.origin;
 
         // In case the lines are parallel
-        if n.length() == 0. {
+        if n.length() < ALMOST_ZERO * self.direction.length() * ray.direction.length() {
             self.direction.cross(od).length() / self.direction.length()
         } else {
             od.dot(n) / n.length()
-- 
2.43.0


From 8092c7611869c82967cd31683b587dfa533d152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 12/23] fix: do not lose triangles because they are small

The determinant grows with the area of the triangle, so comparing it with
a fixed limit made all triangles with edges below 0.0001 invisible.
---
 src/hittable/triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index bb05c4e..4a46487 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -129,7 +129,7 @@ impl Hittable for Triangle {
         let det = self.v0v1.dot(p_vec);
 
         // No hit if the ray is parallel to the plane
-        if det.abs() < ALMOST_ZERO {
+        if det.abs() < ALMOST_ZERO * self.area {
             return None;
         }
 
-- 
2.43.0


From a05d6075275f3b047579661332847b5bfb05b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 13/23] fix: return an error when the obj parser panics on a
 malformed model

For example a color with less than three components in a material library
made loading the model panic.
---
 src/loader/obj.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 2ec6b57..43baa37 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -4,9 +4,10 @@
 //! Applies supplied default material if none in model
 use std::collections::HashMap;
 use std::error::Error;
+use std::panic::catch_unwind;
 
 use simple_error::SimpleError;
-use tobj::LoadOptions;
+use tobj::{LoadError, LoadOptions};
 
 use crate::geo::transformation::Transformer;
 use crate::geo::Uv;
@@ -48,7 +49,10 @@ impl Loader for Obj {
         };
 
         let filepath = format!("{}{}", self.path, self.filename);
-        let (models, materials) = tobj::load_obj(&filepath, &load_options).map_err(|_| {
+        // The parser panics on some malformed files
+        let load_result = catch_unwind(|| tobj::load_obj(&filepath, &load_options))
+            .unwrap_or(Err(LoadError::GenericFailure));
+        let (models, materials) = load_result.map_err(|_| {
             SimpleError::new(format!("failed to load obj model from {}", &filepath))
         })?;
         let materials =
-- 
2.43.0


From 22856479999934dd088b1a8165b73c3209d6c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 14/23] fix: report every material library that fails to load

With several material libraries, those that are missing or malformed were
silently ignored if any other could be loaded, and the faces using them got
the default material.
---
 src/loader/obj.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 43baa37..c09104b 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -2,9 +2,13 @@
 //! all triangles. It also read materials from the referred .mat file.
 //! Support for colored and textured lambertian materials.
 //! Applies supplied default material if none in model
+use std::cell::Cell;
 use std::collections::HashMap;
 use std::error::Error;
+use std::fs::File;
+use std::io::BufReader;
 use std::panic::catch_unwind;
+use std::path::Path;
 
 use simple_error::SimpleError;
 use tobj::{LoadError, LoadOptions};
@@ -50,7 +54,7 @@ impl Loader for Obj {
 
         let filepath = format!("{}{}", self.path, self.filename);
         // The parser panics on some malformed files
-        let load_result = catch_unwind(|| tobj::load_obj(&filepath, &load_options))
+        let load_result = catch_unwind(|| load_obj(&filepath, &load_options))
             .unwrap_or(Err(LoadError::GenericFailure));
         let (models, materials) = load_result.map_err(|_| {
             SimpleError::new(format!("failed to load obj model from {}", &filepath))
@@ -136,6 +140,24 @@ impl Loader for Obj {
     }
 }
 
+/// Does the same as [`tobj::load_obj`]. But that ignores material libraries
+/// that fail to load as long as there is any other that can be loaded.
+fn load_obj(filepath: &str, load_options: &LoadOptions) -> tobj::LoadResult {
+    let file = File::open(filepath).map_err(|_| LoadError::OpenFileFailed)?;
+    let mtl_error = Cell::new(None);
+
+    let (models, materials) =
+        tobj::load_obj_buf(&mut BufReader::new(file), load_options, |mtl_path| {
+            let mtl_result = tobj::load_mtl(Path::new(filepath).with_file_name(mtl_path));
+            if let Err(err) = mtl_result {
+                mtl_error.set(Some(err));
+            }
+            mtl_result
+        })?;
+
+    Ok((models, mtl_error.get().map_or(materials, Err)))
+}
+
 fn vec3_from_mesh_vec(positions: &[f32], offset: usize) -> Vec3 {
     Vec3::new(
         positions[offset] as f64,
-- 
2.43.0


From dbd76d9dbf336ac9f8feda055123498ed5fc54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 15/23] Observation points for runtime monitoring, only with
 cfg solstrale_verif

---
 src/lib.rs          |  3 +++
 src/renderer/mod.rs | 12 ++++++++++++
 src/verif.rs        | 21 +++++++++++++++++++++
 3 files changed, 36 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index a30f97c..690c702 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
 //! A multithreaded Monte Carlo path tracing library, that as such has features like:
 //! * Global illumination
 //! * Caustics
@@ -82,6 +83,8 @@ pub mod post;
 pub mod random;
 pub mod renderer;
 pub mod util;
+#[cfg(solstrale_verif)]
+pub mod verif;
 
 /// Executes the ray tracing with the given [`Scene`] and reports [`RenderProgress`] on
 /// the output [`Sender`]. Listens to abort [`Receiver`] for aborting a started ray trace operation
diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index c2cbd33..6c19ecc 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -234,6 +234,8 @@ impl Renderer {
             .expect("Failed to create thread pool");
 
         for sample in 1..=samples_per_pixel {
+            #[cfg(solstrale_verif)]
+            crate::verif::point("sample_start", sample, 0);
             if abort.try_recv().is_ok() {
                 return Ok(());
             }
@@ -246,6 +248,8 @@ impl Renderer {
                     let normal_colors = normal_colors.clone();
 
                     s.spawn(move |_| {
+                        #[cfg(solstrale_verif)]
+                        crate::verif::point("row_start", sample, y);
                         let mut row_pixel_colors: Vec<Vec3> = vec![ZERO_VECTOR; image_width];
                         let mut row_albedo_colors: Vec<Vec3> = if needs_albedo_and_normal_colors {
                             vec![ZERO_VECTOR; image_width]
@@ -273,6 +277,8 @@ impl Renderer {
                             }
                         }
 
+                        #[cfg(solstrale_verif)]
+                        crate::verif::point("row_done", sample, y);
                         add_row_data(yi, &mut pixel_colors.lock().unwrap(), &row_pixel_colors);
                         if needs_albedo_and_normal_colors {
                             add_row_data(
@@ -286,6 +292,8 @@ impl Renderer {
                                 &row_normal_colors,
                             );
                         }
+                        #[cfg(solstrale_verif)]
+                        crate::verif::point("row_merged", sample, y);
                     });
                 }
             });
@@ -341,6 +349,8 @@ impl Renderer {
                     None
                 };
 
+                #[cfg(solstrale_verif)]
+                crate::verif::point("report", sample, 0);
                 output.send(RenderProgress {
                     progress: sample as f64 / samples_per_pixel as f64,
                     fps: Some(calculate_fps(render_start_time, now, sample)),
@@ -353,6 +363,8 @@ impl Renderer {
                     render_image,
                 })?
             }
+            #[cfg(solstrale_verif)]
+            crate::verif::point("reported", sample, 0);
         }
         Ok(())
     }
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7dd2b93
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,21 @@
+//! Observation points for runtime monitoring of the renderer.
+//! Only compiled with the cfg flag `solstrale_verif`
+use std::sync::OnceLock;
+
+/// Called at each observation point with its name, the sample (starting at one) and the row
+/// (zero for points that are not about a row)
+pub type Hook = fn(point: &'static str, sample: u32, row: usize);
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Install the hook that is called at each observation point.
+/// Can only be done once per process
+pub fn install(hook: Hook) -> bool {
+    HOOK.set(hook).is_ok()
+}
+
+pub(crate) fn point(point: &'static str, sample: u32, row: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(point, sample, row);
+    }
+}
-- 
2.43.0


From f74eeea60cc0d13a86e069c16bcdc15d81a9728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 16/23] fix: tell normal maps and height maps apart by the
 vectors that their colors encode

---
 src/material/texture.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 3aca719..514535a 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -70,7 +70,9 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
 
     for pixel in image.pixels() {
         let p = rgb_to_vec3(pixel);
-        if (p.length() - 1.).abs() < 0.05 {
+        // Colors of a normal map describe unit vectors, with components from -1 to 1
+        let normal = Vec3::new(2. * p.x - 1., 2. * p.y - 1., 2. * p.z - 1.);
+        if (normal.length() - 1.).abs() < 0.05 {
             num_normal += 1;
         }
         if (p.x - p.y).abs() < 0.05 && (p.y - p.z).abs() < 0.05 {
@@ -78,7 +80,8 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
         }
     }
 
-    if num_height > num_normal {
+    // Some shades of gray happen to describe unit vectors as well
+    if num_height > 0 && num_height >= num_normal {
         Ok(Height(image))
     } else {
         Ok(Normal(image))
-- 
2.43.0


From a5e5139341d6af6139fa0e2fcaed6117280852a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 17/23] fix: report image textures that are too large for the
 memory as error

---
 src/material/texture.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 514535a..25b3a3b 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -1,8 +1,13 @@
 //! Contains textures to be used by materials
 use std::error::Error;
+use std::fs::File;
+use std::hint::black_box;
+use std::io::BufReader;
 use std::sync::Arc;
 
 use enum_dispatch::enum_dispatch;
+use image::DynamicImage;
+use image::ImageDecoder;
 use image::ImageReader;
 use image::RgbImage;
 use simple_error::SimpleError;
@@ -49,6 +54,21 @@ pub enum BumpMap {
     Height(RgbImage),
 }
 
+/// Decodes an image. Returns an error, instead of aborting, if there is not enough memory for it
+fn decode(reader: ImageReader<BufReader<File>>) -> Result<RgbImage, Box<dyn Error>> {
+    let decoder = reader.into_decoder()?;
+    let (width, height) = decoder.dimensions();
+    // The decoded image and the one that is converted to rgb
+    let size = decoder.total_bytes() as u128 + width as u128 * height as u128 * 3;
+    let mut memory: Vec<u8> = Vec::new();
+    memory.try_reserve_exact(usize::try_from(size)?)?;
+    // Not optimized away
+    black_box(&mut memory);
+    drop(memory);
+
+    Ok(DynamicImage::from_decoder(decoder)?.into_rgb8())
+}
+
 /// Load a bump map image texture and detect if it is a normal or height map
 fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
     let mut reader = ImageReader::open(path).map_err(|err| {
@@ -58,12 +78,9 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
     reader = reader.with_guessed_format().map_err(|err| {
         SimpleError::new(format!("Failed to load bump texture {}: {}", path, err))
     })?;
-    let image = reader
-        .decode()
-        .map_err(|err| {
-            SimpleError::new(format!("Failed to decode bump texture {}: {}", path, err))
-        })?
-        .into_rgb8();
+    let image = decode(reader).map_err(|err| {
+        SimpleError::new(format!("Failed to decode bump texture {}: {}", path, err))
+    })?;
 
     let mut num_normal = 0;
     let mut num_height = 0;
@@ -145,12 +162,9 @@ impl ImageMap {
         reader = reader.with_guessed_format().map_err(|err| {
             SimpleError::new(format!("Failed to load image texture {}: {}", path, err))
         })?;
-        let image = reader
-            .decode()
-            .map_err(|err| {
-                SimpleError::new(format!("Failed to decode image texture {}: {}", path, err))
-            })?
-            .into_rgb8();
+        let image = decode(reader).map_err(|err| {
+            SimpleError::new(format!("Failed to decode image texture {}: {}", path, err))
+        })?;
 
         Ok(Self::new(Arc::new(image)))
     }
-- 
2.43.0


From c58d790a100fb498ce1e9eb674db33ae1b42c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 18/23] fix: report image textures without pixels as error

---
 src/material/texture.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 25b3a3b..03dd6f4 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -54,10 +54,14 @@ pub enum BumpMap {
     Height(RgbImage),
 }
 
-/// Decodes an image. Returns an error, instead of aborting, if there is not enough memory for it
+/// Decodes an image that is not empty.
+/// Returns an error, instead of aborting, if there is not enough memory for it
 fn decode(reader: ImageReader<BufReader<File>>) -> Result<RgbImage, Box<dyn Error>> {
     let decoder = reader.into_decoder()?;
     let (width, height) = decoder.dimensions();
+    if width == 0 || height == 0 {
+        return Err("image is empty".into());
+    }
     // The decoded image and the one that is converted to rgb
     let size = decoder.total_bytes() as u128 + width as u128 * height as u128 * 3;
     let mut memory: Vec<u8> = Vec::new();
-- 
2.43.0


From df516855a878f2ba777a60854ddf04022efc162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 19/23] fix: tell when it is the material library that makes
 the parser panic

---
 src/loader/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index c09104b..abdccb1 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -148,7 +148,10 @@ fn load_obj(filepath: &str, load_options: &LoadOptions) -> tobj::LoadResult {
 
     let (models, materials) =
         tobj::load_obj_buf(&mut BufReader::new(file), load_options, |mtl_path| {
-            let mtl_result = tobj::load_mtl(Path::new(filepath).with_file_name(mtl_path));
+            let mtl_filepath = Path::new(filepath).with_file_name(mtl_path);
+            // The parser panics on some malformed libraries
+            let mtl_result = catch_unwind(|| tobj::load_mtl(&mtl_filepath))
+                .unwrap_or(Err(LoadError::GenericFailure));
             if let Err(err) = mtl_result {
                 mtl_error.set(Some(err));
             }
-- 
2.43.0


From 7ce4872fb3c747ac812c3a628d4e260d856ecb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:07 +0000
Subject: [PATCH 20/23] fix: give the denoiser normals as they are

---
 src/post/oidn.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 8dea516..d96a2a6 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -27,13 +27,13 @@ impl PostProcessor for OidnPostProcessor {
     ) -> Result<image::RgbImage, Box<dyn Error>> {
         let pixel_rgb = to_rgb_vec(pixel_colors, num_samples);
         let albedo_rgb = to_rgb_vec(albedo_colors, num_samples);
-        let normal_rgb = to_rgb_vec(normal_colors, num_samples);
+        let normals = to_normal_vec(normal_colors, num_samples);
         let mut output = vec![0.0f32; pixel_rgb.len()];
 
         let device = oidn::Device::new();
         oidn::RayTracing::new(&device)
             .image_dimensions(width as usize, height as usize)
-            .albedo_normal(&albedo_rgb, &normal_rgb)
+            .albedo_normal(&albedo_rgb, &normals)
             .srgb(true)
             .hdr(false)
             .clean_aux(true)
@@ -136,3 +136,15 @@ fn to_rgb_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
         })
         .collect()
 }
+
+/// Normals are directions, with components that can be negative, and must not be gamma corrected
+#[cfg(feature = "oidn-postprocessor")]
+fn to_normal_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
+    let scale = 1. / num_samples as f64;
+    vec.iter()
+        .flat_map(|v| {
+            let n = *v * scale;
+            vec![n.x as f32, n.y as f32, n.z as f32]
+        })
+        .collect()
+}
-- 
2.43.0


From 6dc3ec5014c7d3c81bc3d6b2e8f37bf4ab2c7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 21/23] fix: draw directions to triangle lights from the
 triangle only

The points were drawn from the parallelogram of the two edges, so that half of
the directions missed the light and matte surfaces got too dark
---
 src/hittable/triangle.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 4a46487..8808869 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -120,7 +120,15 @@ impl Hittable for Triangle {
     }
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
-        let p = self.v0 + self.v0v1 * random_normal_float() + self.v0v2 * random_normal_float();
+        let mut u = random_normal_float();
+        let mut v = random_normal_float();
+
+        // The points of the parallelogram that are outside of the triangle are mirrored into it
+        if u + v > 1. {
+            u = 1. - u;
+            v = 1. - v;
+        }
+        let p = self.v0 + self.v0v1 * u + self.v0v2 * v;
         p - origin
     }
 
-- 
2.43.0


From 64de85c809b905cdff9b9ab9d174436f164a89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 22/23] fix: quads and triangles were missed by rays with short
 direction vectors

---
 src/hittable/quad.rs     | 2 +-
 src/hittable/triangle.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hittable/quad.rs b/src/hittable/quad.rs
index d9e60d1..719edfb 100644
--- a/src/hittable/quad.rs
+++ b/src/hittable/quad.rs
@@ -151,7 +151,7 @@ impl Hittable for Quad {
         let denom = self.normal.dot(r.direction);
 
         // No hit if the ray is parallel to the plane
-        if denom.abs() < ALMOST_ZERO {
+        if denom.abs() < ALMOST_ZERO * r.direction.length() {
             return None;
         }
 
diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 8808869..11941d9 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -137,7 +137,7 @@ impl Hittable for Triangle {
         let det = self.v0v1.dot(p_vec);
 
         // No hit if the ray is parallel to the plane
-        if det.abs() < ALMOST_ZERO * self.area {
+        if det.abs() < ALMOST_ZERO * self.area * r.direction.length() {
             return None;
         }
 
-- 
2.43.0


From d6e387952ad991a9af2cc59e7851083dbbcd5cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 23/23] fix: hits and densities of spheres seen from far away
 were wrong

---
 src/hittable/sphere.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index b66ccd2..c3dd76d 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -52,8 +52,8 @@ impl Hittable for Sphere {
                     return 1. / (4. * PI);
                 }
 
-                let cos_theta_max = (1. - radius_squared / distance_squared).sqrt();
-                let solid_angle = 2. * PI * (1. - cos_theta_max);
+                let solid_angle =
+                    2. * PI * one_minus_cos_theta_max(self.radius, distance_squared);
 
                 1. / solid_angle
             }
@@ -73,9 +73,10 @@ impl Hittable for Sphere {
         let oc = r.origin - self.center;
         let a = r.direction.length_squared();
         let half_b = oc.dot(r.direction);
-        let c = oc.length_squared() - self.radius * self.radius;
 
-        let discriminant = half_b * half_b - a * c;
+        // Same as half_b * half_b - a * c, but is not cancelled out far from the sphere
+        let discriminant =
+            a * self.radius * self.radius - oc.cross(r.direction).length_squared();
         if discriminant < 0. {
             return None;
         }
@@ -153,13 +154,21 @@ fn calculate_sphere_uv(point_on_sphere: Vec3) -> Uv {
     Uv::new(u as f32, v as f32)
 }
 
+/// One minus the cosine of the angle between the center and the edge of a sphere,
+/// that is accurate also for small angles
+fn one_minus_cos_theta_max(radius: f64, distance_squared: f64) -> f64 {
+    let sin_squared = radius * radius / distance_squared;
+    sin_squared / (1. + (1. - sin_squared).sqrt())
+}
+
 fn random_to_sphere(radius: f64, distance_squared: f64) -> Vec3 {
     let r1 = random_normal_float();
     let r2 = random_normal_float();
-    let z = 1. + r2 * ((1. - radius * radius / distance_squared).sqrt() - 1.);
+    let one_minus_z = r2 * one_minus_cos_theta_max(radius, distance_squared);
+    let z = 1. - one_minus_z;
 
     let phi = 2. * PI * r1;
-    let zz = (1. - z * z).sqrt();
+    let zz = (one_minus_z * (1. + z)).sqrt();
     let x = phi.cos() * zz;
     let y = phi.sin() * zz;
 
-- 
2.43.0

