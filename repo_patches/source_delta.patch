From f843000105442bc1d33bc5c0a54af1b64a8867a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 01/74] Add cfg-guarded access for verification harnesses
 (up4_verif, up4_verif_private)

---
 src/comparison.rs            | 34 +++++++++++++++++++++
 src/datamanager.rs           | 58 ++++++++++++++++++++++++++++++++++++
 src/datamanager/utilities.rs | 14 +++++++++
 3 files changed, 106 insertions(+)

diff --git a/src/comparison.rs b/src/comparison.rs
index effe253..56dec9f 100644
--- a/src/comparison.rs
+++ b/src/comparison.rs
@@ -210,3 +210,37 @@ impl Comparer {
         )
     }
 }
+
+/// Access for verification harnesses, compiled with `--cfg up4_verif_private` only.
+#[cfg(up4_verif_private)]
+pub mod verif {
+    use super::*;
+
+    pub fn comparer(
+        data: Box<dyn Manager + Send>,
+        grid: Box<dyn GridFunctions3D>,
+        data2: Box<dyn Manager + Send>,
+        grid2: Box<dyn GridFunctions3D>,
+    ) -> Comparer {
+        Comparer {
+            data,
+            grid,
+            data2,
+            grid2,
+            aligned: false,
+        }
+    }
+
+    pub fn velocityfield(
+        comparer: &mut Comparer,
+        mode: &str,
+        min_velocity: f64,
+        max_velocity: f64,
+    ) -> (Array1<f64>, Array1<f64>) {
+        comparer.velocityfield(mode, min_velocity, max_velocity)
+    }
+
+    pub fn binary_threshold(field: &Array3<f64>, quantile: f64) -> Array3<f64> {
+        super::binary_threshold(field, quantile)
+    }
+}
diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..8de5e6d 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -105,3 +105,61 @@ impl GlobalStats {
         Ok(mid)
     }
 }
+
+/// Constructors for verification harnesses: `Timestep` and `GlobalStats` can otherwise only be
+/// built by the HDF5 readers of this module. Compiled with `--cfg up4_verif` only.
+#[cfg(up4_verif)]
+pub mod verif {
+    use super::*;
+
+    #[allow(clippy::too_many_arguments)]
+    pub fn timestep(
+        time: f64,
+        position: Array1<Position>,
+        velocity: Array2<f64>,
+        radius: Array1<f64>,
+        particleid: Array1<f64>,
+        clouds: Array1<f64>,
+        density: Array1<f64>,
+        ptype: Array1<f64>,
+    ) -> Timestep {
+        Timestep {
+            time,
+            position,
+            velocity,
+            radius,
+            particleid,
+            clouds,
+            density,
+            ptype,
+        }
+    }
+
+    #[allow(clippy::too_many_arguments)]
+    pub fn global_stats(
+        dimensions: Array2<f64>,
+        nparticles: usize,
+        ntimesteps: usize,
+        min_time: f64,
+        max_time: f64,
+        sample_rate: f64,
+        velocity: Array2<f64>,
+        velocity_mag: Array1<f64>,
+        time_array: Array1<f64>,
+    ) -> GlobalStats {
+        GlobalStats {
+            dimensions,
+            nparticles,
+            ntimesteps,
+            min_time,
+            max_time,
+            sample_rate,
+            velocity,
+            velocity_mag,
+            time_array,
+        }
+    }
+}
+
+#[cfg(up4_verif_private)]
+pub use utilities::verif as verif_utilities;
diff --git a/src/datamanager/utilities.rs b/src/datamanager/utilities.rs
index 2e00b95..1d20201 100644
--- a/src/datamanager/utilities.rs
+++ b/src/datamanager/utilities.rs
@@ -122,3 +122,17 @@ fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
     }
     [new_velocity[0], new_velocity[1], new_velocity[2]]
 }
+
+/// Access for verification harnesses, compiled with `--cfg up4_verif_private` only.
+#[cfg(up4_verif_private)]
+pub mod verif {
+    use super::*;
+
+    pub fn rotate_position(position: Position, angles: [f64; 3], anchor: [f64; 3]) -> Position {
+        super::rotate_position(position, angles, anchor)
+    }
+
+    pub fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
+        super::rotate_velocity(velocity, angles)
+    }
+}
-- 
2.43.0


From 7e2105f96d040099de58bed06a72d38fc6b87577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 02/74] fix: CartesianGrid3D::cell_id returned the wrong cell
 for points off the first cell

---
 src/grid/cartesian_grid.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..7d283e9 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -134,12 +134,18 @@ impl GridFunctions3D for CartesianGrid3D {
                 self.limits
             ));
         }
-        let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
-        let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
-        let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
+        // positions on the upper limit belong to the last cell
+        let cell_idx = (((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
+            * self.cells[0] as f64) as usize)
+            .min(self.cells[0] - 1);
+        // positions on the upper limit belong to the last cell
+        let cell_idy = (((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
+            * self.cells[1] as f64) as usize)
+            .min(self.cells[1] - 1);
+        // positions on the upper limit belong to the last cell
+        let cell_idz = (((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
+            * self.cells[2] as f64) as usize)
+            .min(self.cells[2] - 1);
 
         Ok([cell_idx, cell_idy, cell_idz])
     }
-- 
2.43.0


From e7d77ad7c155bfbdec96ac47e7fc94abd7ddbeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 03/74] fix: CartesianGrid3D::slice panicked for the upper
 limit of an axis

---
 src/grid/cartesian_grid.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 7d283e9..b7e5899 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -416,9 +416,11 @@ impl GridFunctions3D for CartesianGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
+        // the upper limit belongs to the last cell
+        let cell_id = (((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
-            * self.cells[axis] as f64) as usize;
+            * self.cells[axis] as f64) as usize)
+            .min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From de03b5365f0ef9096fb6044e7b841aa17400e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 04/74] fix: CylindricalGrid3D::slice ignored the equal-volume
 shells and panicked at upper limits

---
 src/grid/cylindrical_grid.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..dec5753 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -370,9 +370,16 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
-            / (self.limits[axis][1] - self.limits[axis][0])
-            * self.cells[axis] as f64) as usize;
+        let fraction = (position - self.limits[axis][0])
+            / (self.limits[axis][1] - self.limits[axis][0]);
+        // the radial shells have equal volume, not equal width
+        let fraction = if axis == 0 {
+            fraction * fraction
+        } else {
+            fraction
+        };
+        // the upper limit belongs to the last cell
+        let cell_id = ((fraction * self.cells[axis] as f64) as usize).min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From 70a830106bfdfdc5358432ca9c36aa60bb2bcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 05/74] fix: CylindricalGrid3D angular and vertical positions
 were off by half a cell, locating points in the wrong cell

---
 src/grid/cylindrical_grid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index dec5753..de60835 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -46,13 +46,13 @@ impl CylindricalGrid3D {
         let mut opositions = Array::from_elem(cells[1], 0.);
         let mut zpositions = Array::from_elem(cells[2], 0.);
 
-        // positions contain the boundary of the cell
+        // positions contain the midpoint of the cell
         for cellidy in 0..cells[1] {
-            opositions[cellidy] = -PI + cellidy as f64 * ocellsize + ocellsize;
+            opositions[cellidy] = -PI + cellidy as f64 * ocellsize + ocellsize / 2.0;
         }
 
         for cellidz in 0..cells[2] {
-            zpositions[cellidz] = cellidz as f64 * zcellsize + zcellsize + lim[2][0];
+            zpositions[cellidz] = cellidz as f64 * zcellsize + zcellsize / 2.0 + lim[2][0];
         }
         // center in cartesian coords!!!
         let center = [
-- 
2.43.0


From 2db405a0fc35172dd82cb3923334354eb3ca7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 06/74] fix: CylindricalGrid3D::cell_id panicked or returned a
 cell for points outside of the grid

---
 src/grid/cylindrical_grid.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index de60835..7215188 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -187,6 +187,13 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
+        if !self.is_inside(pos) {
+            return Err(anyhow!(
+                "Position {:?} is outside of grid limits {:?}",
+                pos,
+                self.limits
+            ));
+        }
         let pos = &self.to_cylindrical(pos);
         let posr = pos[0];
         let mut cell_idr = None;
@@ -195,12 +202,8 @@ impl GridFunctions3D for CylindricalGrid3D {
                 cell_idr = Some(idx)
             }
         }
-        let cell_idr = cell_idr.unwrap_or_else(|| {
-            panic!(
-                "Unable to find radial cell id \n pos r:{}\nlen {:?}",
-                posr, self.rpositions
-            )
-        });
+        // the accumulated outer radius may be smaller than the grid radius by a rounding error
+        let cell_idr = cell_idr.unwrap_or(self.cells[0] - 1);
         let poso = pos[1];
         let cell_ido = (&self.opositions - poso)
             .iter()
-- 
2.43.0


From d35bbcb196826cc0965cfd06bee5b36059acea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 07/74] fix: VectorGrid::velocity_calculation ignored the
 centre of a cylindrical grid

---
 src/grid/vector_grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..ba3be12 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,6 +36,9 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
+            // position relative to the axis of the grid
+            let center = self.cyl_grid.center();
+            let pos = [pos[0] - center[0], pos[1] - center[1]];
             let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
             let vel_omega =
                 (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
-- 
2.43.0


From 8e300273901daf97a509a81ba0688f7171c4db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 08/74] fix: new_zeros kept the weights of the original grid

---
 src/grid/cartesian_grid.rs   | 1 +
 src/grid/cylindrical_grid.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index b7e5899..f54af65 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -328,6 +328,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 7215188..bb18eb0 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -285,6 +285,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From ea9c8518d902aefb0fb997f6f01a1c1f33b648cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 09/74] fix: vectorfield added to the previous content of the
 given grid

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..6511882 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
-- 
2.43.0


From f3f4ff76b1a765c77dd100f2e62d4dc7cc09b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 10/74] fix: vectorfield averaged NaN velocities into the field

---
 src/functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 6511882..2f8b828 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -76,6 +76,10 @@ pub trait Granular: DataManager {
                     continue;
                 }
                 let velocity = vectorgrid.velocity_calculation(position, velocity);
+                if velocity.iter().any(|v| v.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
 
                 vectorgrid.data[0].add_value(position, velocity[0]);
                 vectorgrid.data[1].add_value(position, velocity[1]);
-- 
2.43.0


From 5a4f9a4045659de6c1748b57dc6c00f798538413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 11/74] fix: dispersion and granular_temperature_field started
 from the previous content of the given grid

---
 src/functions.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 2f8b828..1cab6c5 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -468,13 +468,13 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut num_counts = Array3::<f64>::zeros(grid.get_data().raw_dim());
         let mut dispersion_grid = grid.new_zeros();
         print_debug!("Dispersion: Initiation over, entering time loop");
 
@@ -766,13 +766,13 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut num_counts = Array3::<f64>::zeros(grid.get_data().raw_dim());
         let mut grantemp = grid.new_zeros();
         print_debug!("velocityfield: Initiation over, entering time loop");
         for timestep in 0..=timesteps - 1 {
-- 
2.43.0


From 3f713b288fb4e8417081d60438e3b7d436f629c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 12/74] fix: ParticleSelector judged clouds and density by the
 radius criterion

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From 4061605a2c9ce9e3bfdab313f353bd91375459c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 13/74] fix: outlier_removal mode 2 panicked for outliers on
 the border of the grid

---
 src/grid/cartesian_grid.rs   | 38 ++++++++++++++++++------------------
 src/grid/cylindrical_grid.rs | 38 ++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index f54af65..c772024 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -506,30 +506,30 @@ impl GridFunctions3D for CartesianGrid3D {
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index bb18eb0..a81cfe1 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -471,30 +471,30 @@ impl GridFunctions3D for CylindricalGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
-- 
2.43.0


From 208ac04b74f8e0fa5aac04f0cbc4bff5425273d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 14/74] fix: CylindricalGrid3D::outlier_removal averaged
 neighbouring outliers

---
 src/grid/cylindrical_grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index a81cfe1..1bdf661 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -504,6 +504,9 @@ impl GridFunctions3D for CylindricalGrid3D {
                             && index.1 < self.data.shape()[1]
                             && index.2 < self.data.shape()[2]
                         {
+                            if self.data[[index.0, index.1, index.2]] > threshold {
+                                continue;
+                            }
                             sum += self.data[[index.0, index.1, index.2]];
                             weight_sum += self.weight[[index.0, index.1, index.2]];
                             counter_sum += 1.0;
-- 
2.43.0


From f095b2638e34313e9ecdcd8c1a21566617bdedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 15/74] fix: timestep_at_seconds_closest did not return the
 closest timestep

---
 src/datamanager.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 8de5e6d..ec454a0 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -90,19 +90,21 @@ impl GlobalStats {
         if self.time_array[low] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
-        while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
-                return Ok(mid);
-            } else if self.time_array[mid] < seconds {
-                low = mid + 1;
+        // time_array[low] <= seconds <= time_array[high]
+        while high - low > 1 {
+            let mid = (low + high) / 2;
+            if self.time_array[mid] <= seconds {
+                low = mid;
             } else {
-                high = mid - 1;
+                high = mid;
             }
         }
 
-        Ok(mid)
+        if (self.time_array[high] - seconds).abs() < (self.time_array[low] - seconds).abs() {
+            Ok(high)
+        } else {
+            Ok(low)
+        }
     }
 }
 
-- 
2.43.0


From bbd765ebd5ec55482cb0bf5ef3191c6fc582352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 16/74] fix: occupancyfield underflowed for recordings of fewer
 than three timesteps

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 1cab6c5..cee6efb 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -318,7 +318,7 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps.saturating_sub(3) {
             let timestep_data = self.get_timestep(timestep).clone();
             //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
-- 
2.43.0


From 3043a1410c9349d4fbc41a748e13df4a5819bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 17/74] fix: histogram counted NaN velocities in the first bin
 and dropped the maximum velocity

---
 src/functions.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index cee6efb..9c351ab 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -725,13 +725,14 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
-                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
-                    as usize;
-                // BUG: bin is sometimes out of bounds
-                if bin > bins - 1 {
+                // outside of the edges or NaN
+                if !(velocity_mag >= bin_edges[0] && velocity_mag <= bin_edges[bins]) {
                     continue;
                 }
-                histogram[bin] += 1.0;
+                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
+                    as usize;
+                // the last bin includes its upper edge
+                histogram[bin.min(bins - 1)] += 1.0;
             }
             // checking for kill signals after each timestep
             check_signals!();
-- 
2.43.0


From 444ad13c2ce46b08a011f1145745fc73242610cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 18/74] fix: lacey_mixing panicked if one of the types was
 absent at a timestep

---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..0a068ac 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -44,7 +44,7 @@ pub trait Mixing: DataManager {
             );
             let mut type_a_grid = grid.new_zeros();
             let mut type_b_grid = grid.new_zeros();
-            let mut type_counter: Vec<usize> = Vec::with_capacity(3);
+            let mut type_counter: Vec<usize> = vec![0; type_a.max(type_b) + 1];
             for particle in 0..particles {
                 if !selector.is_valid(
                     rad_array[particle],
-- 
2.43.0


From fe4bdeef43d5bab3fb4c732cf01fd3ac8d24f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 19/74] fix: msd_field returned the squared sum instead of the
 mean of the squared displacements

---
 src/functions/mixing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 0a068ac..b3bd2a4 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -265,11 +265,10 @@ pub trait Mixing: DataManager {
                     continue;
                 }
                 let position_future_particle = position_future[particle];
-                let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
+                let dist_squared = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-                    + (positions[particle][2] - position_future_particle[2]).powi(2))
-                .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                    + (positions[particle][2] - position_future_particle[2]).powi(2);
+                distance.add_value(positions[particle], dist_squared); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -283,7 +282,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From c45e6c63c2f6a39a5ad91e8381673214597efe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 20/74] fix: dispersion and msd_field panicked if a later
 timestep has fewer particles

---
 src/functions.rs        | 4 ++++
 src/functions/mixing.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 9c351ab..a6af178 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -549,6 +549,10 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
+                if particle >= position_future.len() {
+                    // the later timestep has less particles
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index b3bd2a4..177fce4 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -264,6 +264,10 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
+                if particle >= position_future.len() {
+                    // the later timestep has less particles
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 let dist_squared = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-- 
2.43.0


From ae081e2e21284a84fc5e85d00b4525a2eea7fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 21/74] fix: circulation times panicked if a timestep has more
 particles than the previous one

---
 src/functions/conditional.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..6fd15d5 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -56,7 +56,9 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
@@ -145,7 +147,9 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-- 
2.43.0


From 683af32827b9d907b43d687947f0019af6a0f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 22/74] fix: granular_temperature_field returned NaN for cells
 of uniform velocity

---
 src/functions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index a6af178..e7c72f6 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -863,7 +863,8 @@ pub trait Granular: DataManager {
             panic!("Mode {} is not supported", mode);
         }
         temp /= &num_counts;
-        temp.mapv_inplace(|x| x.sqrt());
+        // a vanishing variance may be slightly negative due to rounding, empty cells stay NaN
+        temp.mapv_inplace(|x| if x < 0.0 { 0.0 } else { x.sqrt() });
         grantemp.set_data(temp);
         grantemp.set_weights(num_counts);
         grantemp
-- 
2.43.0


From bcf7025d100e4bc65c56745aa3f62ddafec63452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 23/74] fix: mean velocities ignored the particle selection

---
 src/functions.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index e7c72f6..ba4cc5f 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -422,7 +422,19 @@ pub trait Granular: DataManager {
                 continue;
             }
             let velocities = timestep_data.velocity();
-            for vel in velocities.outer_iter() {
+            let particle_ids = timestep_data.particleid();
+            let rad_array = timestep_data.radius();
+            let clouds = timestep_data.clouds();
+            let density = timestep_data.density();
+            for (particle, vel) in velocities.outer_iter().enumerate() {
+                if !selector.is_valid(
+                    rad_array[particle],
+                    clouds[particle],
+                    density[particle],
+                    particle_ids[particle] as usize,
+                ) {
+                    continue;
+                }
                 let velocity = (vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]).sqrt();
                 if f64::is_nan(velocity) {
                     continue;
@@ -616,9 +628,8 @@ pub trait Granular: DataManager {
     ///’’’
     ///mean_velocity = data.mean_velocity(particleselector)
     ///'''
-    fn mean_velocity(&mut self, _selector: &ParticleSelector) -> f64 {
-        let global_stats = self.global_stats();
-        global_stats.velocity_mag()[1]
+    fn mean_velocity(&mut self, selector: &ParticleSelector) -> f64 {
+        self.mean_velocity_showcase(selector)
     } //end mean velocity
 
     /// Calculate a histogram of a specific property in a region of the system.
-- 
2.43.0


From 4d13cad32ff56e21705a6e60e9a391e5dd54059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 24/74] fix: binary_threshold took the quantile position from
 all cells, panicking on sparse fields

---
 src/comparison.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/comparison.rs b/src/comparison.rs
index 56dec9f..3d01382 100644
--- a/src/comparison.rs
+++ b/src/comparison.rs
@@ -147,13 +147,17 @@ fn binary_threshold(field: &Array3<f64>, quantile: f64) -> Array3<f64> {
     if !(0.0..=1.0).contains(&quantile) {
         panic!("Quantile must be between 0 and 1");
     }
-    let threshold = field
+    let values = field
         .iter()
-        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
         .filter(|x| **x != 0.0)
-        .nth((field.len() as f64 * quantile) as usize)
-        .unwrap();
-    field.mapv(|x| if x > *threshold { 1.0 } else { 0.0 })
+        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
+        .collect::<Vec<_>>();
+    if values.is_empty() {
+        return Array3::zeros(field.raw_dim());
+    }
+    let threshold =
+        *values[((values.len() as f64 * quantile) as usize).min(values.len() - 1)];
+    field.mapv(|x| if x > threshold { 1.0 } else { 0.0 })
 }
 
 fn make_grid(dim: &Array2<f64>, gridtype: &str, cells: [usize; 3]) -> Box<dyn GridFunctions3D> {
-- 
2.43.0


From adfa336ce9191537ef9de4dfcb4ee6183ca98206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 25/74] Small read buffer for verification harnesses, behind
 cfg(up4_verif_small_buffer)

---
 src/datamanager/pdata.rs | 4 ++++
 src/datamanager/tdata.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..17000e4 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -13,7 +13,11 @@ use crate::{print_debug, print_warning};
 use hdf5::filters::blosc_set_nthreads;
 use ndarray::prelude::*;
 use std::time::Instant;
+#[cfg(not(up4_verif_small_buffer))]
 const BUFFERSIZE: usize = 20000;
+/// Small read buffer for verification harnesses, so that short recordings cross its end.
+#[cfg(up4_verif_small_buffer)]
+const BUFFERSIZE: usize = 8;
 
 //#[pyclass]
 pub struct PData {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..cecfa12 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -14,7 +14,11 @@ use crate::{print_debug, print_warning};
 use hdf5::filters::blosc_set_nthreads;
 use ndarray::prelude::*;
 use std::time::Instant;
+#[cfg(not(up4_verif_small_buffer))]
 const BUFFERSIZE: usize = 20000;
+/// Small read buffer for verification harnesses, so that short recordings cross its end.
+#[cfg(up4_verif_small_buffer)]
+const BUFFERSIZE: usize = 8;
 #[pyclass]
 pub struct TData {
     // A data managing system for HDF5 files in the
-- 
2.43.0


From 30d8fbfef65a45423be6ac871a7afe16d1fe4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 26/74] fix: PData::get_timestep_buffer returned steps of the
 main buffer

---
 src/datamanager/pdata.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 17000e4..45df30f 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1117,7 +1117,10 @@ impl DataManager for PData {
             self.range_extra[buffer_id]
         );
         if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+            self.update_extra(
+                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                buffer_id,
+            );
         } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
             && timestep < self.range_extra[buffer_id].0
         {
@@ -1125,10 +1128,13 @@ impl DataManager for PData {
         }
         // If a timestep below the current range is requested, update buffer
         if timestep < self.range_extra[buffer_id].0 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+            self.update_extra(
+                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                buffer_id,
+            );
         }
 
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
-- 
2.43.0


From 3886483d65fc4e2daaa673bd58a589b7c390eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 27/74] fix: TData::get_timestep_buffer compared with the range
 of the main buffer

---
 src/datamanager/tdata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index cecfa12..9567311 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1106,7 +1106,7 @@ impl DataManager for TData {
             self.update_extra((0, BUFFERSIZE), buffer_id);
         }
         // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
+        if timestep < self.range_extra[buffer_id].0 {
             self.update_extra(
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
-- 
2.43.0


From 65bf0b5fb255af15f95710662695486b4e71e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 28/74] fix: get_timestep_buffer took the name of a buffer for
 its position

---
 src/datamanager/pdata.rs | 7 ++++++-
 src/datamanager/tdata.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 45df30f..02e24d7 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1107,7 +1107,12 @@ impl DataManager for PData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(&mut self, timestep: usize, external_buffer_id: usize) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .unwrap_or_else(|| panic!("Buffer {} was not set up", external_buffer_id));
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 9567311..716fea5 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1086,7 +1086,12 @@ impl DataManager for TData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(&mut self, timestep: usize, external_buffer_id: usize) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .unwrap_or_else(|| panic!("Buffer {} was not set up", external_buffer_id));
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
-- 
2.43.0


From 8e59830f5455e6ecce6024512b5cf0ea17fda966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 29/74] fix: PData used zero (or the radius) for a missing
 density instead of one

---
 src/datamanager/pdata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 02e24d7..2a07946 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -282,7 +282,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    1.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -525,7 +525,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
@@ -787,7 +787,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
-- 
2.43.0


From d5fda52b969a590724ded99a1bdc474333c93e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 30/74] fix: unbuffered reads of PData panicked for several
 particles and differed from buffered ones

---
 src/datamanager/pdata.rs | 119 ++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 72 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 2a07946..7006def 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -122,19 +122,7 @@ impl PData {
                     )
                 })
                 .slice(s![timestep, ..])
-                .to_owned()
-                .into_shape((particles, 3))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
-                    )
-                })
-                .axis_iter(Axis(0))
-                .map(|x| [x[0], x[1], x[2]])
-                .collect::<Array1<Position>>();
-            // iter over elements in 2D array. make  it a 1D array of static arrays with 3 elements.
+                .to_owned();
 
             print_debug!("\tParticle {}: Extracting velocity from HDF5.", particle_id);
             let part_vel = self
@@ -166,7 +154,7 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = self
+            let part_rad = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
@@ -177,24 +165,30 @@ impl PData {
                     )
                 })
                 .dataset("radius")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"radius\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"radius\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"radius\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find radius in HDF5 file {}. \
+                        Using zeros instead.",
+                        particle_id,
                         self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
 
-            let part_type = self
+            let part_type = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
@@ -205,49 +199,30 @@ impl PData {
                     )
                 })
                 .dataset("particletype")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"particletype\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"particletype\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-            let part_id = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"particletype\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find particletype in HDF5 file {}. \
+                        Using zeros instead.",
                         particle_id,
                         self.file.filename()
-                    )
-                })
-                .dataset("id")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"id\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"id\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
+            // as in the buffered read, the id of a particle is its number
+            let part_id = particle_id as f64;
 
             //.slice(s![timestep])
 
@@ -315,7 +290,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = [part_pos[0], part_pos[1], part_pos[2]];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
-- 
2.43.0


From e34578aeba678c718d5a7ce21a6602c1963a42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 31/74] fix: get_timestep_buffer went out of bounds when
 stepping back beyond the first buffer

---
 src/datamanager/pdata.rs | 12 ++++--------
 src/datamanager/tdata.rs | 13 +++++--------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 7006def..9cac423 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1101,15 +1101,11 @@ impl DataManager for PData {
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
             );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range_extra[buffer_id].0 {
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // A timestep below the current range is requested
+            let chunck = ((timestep as f64) / (BUFFERSIZE as f64)).floor() as usize;
             self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                (chunck * BUFFERSIZE, (chunck + 1) * BUFFERSIZE),
                 buffer_id,
             );
         }
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 716fea5..c38ddb7 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1105,18 +1105,15 @@ impl DataManager for TData {
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
             );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range_extra[buffer_id].0 {
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // A timestep below the current range is requested
+            let chunck = ((timestep as f64) / (BUFFERSIZE as f64)).floor() as usize;
             self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                (chunck * BUFFERSIZE, (chunck + 1) * BUFFERSIZE),
                 buffer_id,
             );
         }
+
         &self.buffer_extra[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
-- 
2.43.0


From 51c3a5ad7c54f78a2e38f647dc58a874b0257584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 32/74] fix: converters missed the largest velocity or position
 of data that only decreases

---
 src/converter.rs                              | 33 ++++++++++++-------
 src/converter/csv_modes/csv_multi_chain.rs    | 15 ++++++---
 .../csv_modes/csv_multi_file_time_step.rs     |  9 +++--
 src/converter/csv_modes/csv_multi_idline.rs   | 15 ++++++---
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..d73c35b 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -740,7 +745,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -748,7 +754,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -773,7 +780,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1166,7 +1174,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1174,7 +1183,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1197,7 +1207,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..220502b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..1e4484a 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..d2f4713 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
-- 
2.43.0


From d51e8f10594d4e31b9aec078ca10c245d6e2c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 33/74] fix: converters truncated the sample rate to whole
 seconds, csv converters always wrote zero

---
 src/converter.rs                                    | 7 +++----
 src/converter/csv_modes/csv_multi_chain.rs          | 3 +--
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs         | 3 +--
 4 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d73c35b..f0fabc1 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -208,7 +208,6 @@ pub fn csv_converter(
         time_array[line_id - total_failcount] = current_time;
         // resetfailcount. we only dont allow them do be in a row!
         failcount = 0;
-        old_time = current_time;
         let pos_x = line[1];
         let pos_y = line[2];
         let pos_z = line[3];
@@ -354,7 +353,7 @@ pub fn csv_converter(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
@@ -833,7 +832,7 @@ impl XMLVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
@@ -1260,7 +1259,7 @@ impl LegacyVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 220502b..1e0cf22 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -222,7 +222,6 @@ pub fn csv_multi_chain(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -368,7 +367,7 @@ pub fn csv_multi_chain(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 1e4484a..d9f5fef 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -239,7 +239,7 @@ pub fn csv_multi_file_time_step(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index d2f4713..ad1d7ee 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -194,7 +194,6 @@ pub fn csv_multi_idline(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -340,7 +339,7 @@ pub fn csv_multi_idline(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From 1d3d7fbde6d7ef21a4d45bfa37f67022d82dbf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 34/74] fix: csv converters lost sightings at times that are
 not positive

---
 src/converter.rs                            | 6 ++++--
 src/converter/csv_modes/csv_multi_chain.rs  | 6 ++++--
 src/converter/csv_modes/csv_multi_idline.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index f0fabc1..eb4a159 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // Time of the last valid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
@@ -265,7 +265,9 @@ pub fn csv_converter(
         }
         step += 1;
         mean_counter += 1;
-        sample_rate = current_time - old_time;
+        if old_time.is_finite() {
+            sample_rate = current_time - old_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 1e0cf22..385cf54 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,7 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // Time of the last valid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
@@ -279,7 +279,9 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time.is_finite() {
+                sample_rate = current_time - old_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ad1d7ee..29702ad 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,7 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // Time of the last valid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
@@ -252,7 +252,9 @@ pub fn csv_multi_idline(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time.is_finite() {
+                sample_rate = current_time - old_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
-- 
2.43.0


From 961fea8fe96e414f57fe5d7cc2637d2c15f4857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 35/74] fix: csv_converter wrote more ids, radii, clouds and
 types than sightings

---
 src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter.rs b/src/converter.rs
index eb4a159..8db4b3c 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -282,6 +282,10 @@ pub fn csv_converter(
     let time_array = time_array.slice(s![ ..time_array.len() - total_failcount]);
     let pos_array = pos_array.slice(s![ ..pos_array.shape()[0] - total_failcount, ..]);
     let vel_array = vel_array.slice(s![ ..vel_array.shape()[0] - total_failcount, ..]);
+    let particle_id_array = particle_id_array.slice(s![..time_array.len()]);
+    let particle_radius_array = particle_radius_array.slice(s![..time_array.len()]);
+    let ppclouds_array = ppclouds_array.slice(s![..time_array.len()]);
+    let particle_type_array = particle_type_array.slice(s![..time_array.len()]);
     let timesteps = time_array.len();
     
     let builder = make_dataset_builder!(group);
-- 
2.43.0


From 2ed6e9a486420245ad08b4b05eb912427575c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 36/74] fix: csv converters wrote zero for the time of the
 first sighting, and for the last one if it is negative

---
 src/converter.rs                                    | 5 ++++-
 src/converter/csv_modes/csv_multi_chain.rs          | 5 ++++-
 src/converter/csv_modes/csv_multi_file_time_step.rs | 5 ++++-
 src/converter/csv_modes/csv_multi_idline.rs         | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 8db4b3c..68581e3 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -162,7 +162,7 @@ pub fn csv_converter(
     let mut pos_array = Array2::<f64>::zeros((data_length, 3));
     // ######### arrays for Attributes:
     let timesteps: usize = data_length;
-    let mut time: Array1<f64> = Array1::<f64>::zeros(2);
+    let mut time: Array1<f64> = array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     //velocity: [x:[min, mean, max],y:[min,mean,max],z:[min,mean,max]]
     let mut velocity: Array2<f64> = Array2::<f64>::zeros((3, 3));
@@ -268,6 +268,9 @@ pub fn csv_converter(
         if old_time.is_finite() {
             sample_rate = current_time - old_time;
         }
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 385cf54..f3cbb9c 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -171,7 +171,7 @@ pub fn csv_multi_chain(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     for (p_id, data) in particle_data.iter().enumerate() {
@@ -282,6 +282,9 @@ pub fn csv_multi_chain(
             if old_time.is_finite() {
                 sample_rate = current_time - old_time;
             }
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index d9f5fef..c580d59 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -55,7 +55,7 @@ pub fn csv_multi_file_time_step(
     dimensions.slice_mut(ndarray::s![1usize, ..]).fill(f64::MIN);
     let mut nparticles: u64 = 0;
     let timesteps: usize = filenames.len();
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut time_array = Vec::<f64>::new();
     let mut sample_rate: f64 = 0.0;
     let mut old_time = 0.0;
@@ -74,6 +74,9 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 29702ad..0aceea8 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -142,7 +142,7 @@ pub fn csv_multi_idline(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::MAX, f64::MIN];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     bar.inc(10);
@@ -255,6 +255,9 @@ pub fn csv_multi_idline(
             if old_time.is_finite() {
                 sample_rate = current_time - old_time;
             }
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
-- 
2.43.0


From b46f2b8c649a32be6c4881bbfc2562b30f0a00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 37/74] fix: csv_multi_converter dropped the last trajectory of
 a chain

---
 src/converter/csv_modes/csv_multi_chain.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index f3cbb9c..04d25f1 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,7 +84,11 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
-        let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
+        // the last trajectory ends with the file
+        particles += 1;
+        duration.push(old_time);
+        steps_per_particle.push(data.shape()[0] - indx_start[particles - 1]);
+        let max_duration = duration.iter().fold(f64::MIN, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
             .fold(0, |a, &b| if a > b { a } else { b });
-- 
2.43.0


From 8b3a1fcd11e9046e8c6d63b49c15f2418f7f8168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 38/74] fix: csv_multi_converter wrote the types of a chain
 under a name that is not read

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 04d25f1..78f2237 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -322,10 +322,10 @@ pub fn csv_multi_chain(
         let builder = group.new_dataset_builder();
         builder
             .with_data(&particle_type_array)
-            .create("particleid")
+            .create("particletype")
             .unwrap_or_else(|_| {
                 panic!(
-                    "Unable to create dataset \"particleid\" in file {}",
+                    "Unable to create dataset \"particletype\" in file {}",
                     filename
                 )
             });
-- 
2.43.0


From eb4c147183d88cd621c2970089b6fa199d8243a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 39/74] fix: csv_multi_converter always wrote a particle number
 of one

---
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 78f2237..abb5fe2 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -367,7 +367,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 0aceea8..0dd8287 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -335,7 +335,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From 79892985c0fe2b5097374fffd0b9da2527d2b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 40/74] fix: csv_multi_converter wrote zeros in place of the
 lines it skips

---
 src/converter/csv_modes/csv_multi_chain.rs  | 19 ++++++++++++++++---
 src/converter/csv_modes/csv_multi_idline.rs | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index abb5fe2..14092d2 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -181,9 +181,6 @@ pub fn csv_multi_chain(
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         let bar = setup_bar!("Converting", data_length);
         // Attributes
 
@@ -196,6 +193,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut total_failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // Time of the last valid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -208,11 +206,14 @@ pub fn csv_multi_chain(
         }
         // Go through every line of the csv file
         for (line_id, line) in data.outer_iter().enumerate() {
+            // skipped lines leave no gap
+            let line_id = line_id - total_failcount;
             let current_time = line[0];
             if current_time <= old_time {
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -299,6 +300,18 @@ pub fn csv_multi_chain(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // remove what was reserved for the skipped lines
+        let data_length = data_length - total_failcount;
+        if data_length > timesteps {
+            timesteps = data_length;
+        }
+        time_array = time_array.slice(ndarray::s![..data_length]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..data_length]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..data_length]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..data_length]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..data_length]);
+        let vel_array = vel_array.slice(ndarray::s![..data_length, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..data_length, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 0dd8287..800feaf 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -150,9 +150,6 @@ pub fn csv_multi_idline(
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
@@ -164,6 +161,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut total_failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // Time of the last valid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -176,11 +174,14 @@ pub fn csv_multi_idline(
         }
         // Go through every line of the csv file
         for (line_id, line) in data.outer_iter().enumerate() {
+            // skipped lines leave no gap
+            let line_id = line_id - total_failcount;
             let current_time = line[0];
             if current_time <= old_time {
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -267,6 +268,18 @@ pub fn csv_multi_idline(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // remove what was reserved for the skipped lines
+        let data_length = data_length - total_failcount;
+        if data_length > timesteps {
+            timesteps = data_length;
+        }
+        time_array = time_array.slice(ndarray::s![..data_length]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..data_length]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..data_length]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..data_length]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..data_length]);
+        let vel_array = vel_array.slice(ndarray::s![..data_length, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..data_length, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
-- 
2.43.0


From 6de50cfddc22ffe55ec255e7222cd0a5d01d4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 41/74] fix: csv_multi_converter used the wrong samples for the
 velocities of long trajectories

---
 src/converter/csv_modes/csv_multi_chain.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 14092d2..3108dfd 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -140,13 +140,7 @@ pub fn csv_multi_chain(
                         time, x, y, z -position "
                     )
                 }
-                if temp_data.column(0).len() < 200000 {
-                    temp_data = convertertools::velocity_polynom(temp_data, 9, 2);
-                } else {
-                    temp_data = convertertools::velocity_paralell::velocity_polynom_parallel(
-                        temp_data, 9, 2,
-                    );
-                }
+                temp_data = convertertools::velocity_polynom(temp_data, 9, 2);
             }
 
             particle_data.push(temp_data);
-- 
2.43.0


From 0a756da3fabe867f8b14aed99acd4ac6607ac44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 42/74] fix: csv_multi_file_time_step ignored the radius

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index c580d59..499affc 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -127,8 +127,9 @@ pub fn csv_multi_file_time_step(
         //TODO: add a dict to that to read in other columns!
         let builder = group.new_dataset_builder();
         let zero_array = vec![0.0; particle_id.len()];
+        let radius_array = vec![radius; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&radius_array)
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From fcf3e5c21c244b0511fbd7ec6b4ba40d7a82f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 43/74] fix: csv_multi_file_time_step took the particle number
 from the last file

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 499affc..f62af89 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -204,7 +204,7 @@ pub fn csv_multi_file_time_step(
                 panic!("Unable to create dataset \"position\" in file {}", filename)
             });
         mean_counter += particle_id.len();
-        nparticles = particle_id.len() as u64;
+        nparticles = nparticles.max(particle_id.len() as u64);
         sample_rate = current_time - old_time;
         old_time = current_time;
         if id % 10 == 0 {
-- 
2.43.0


From a076d72c95667c57131acb40bda25c3adda0146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 44/74] fix: vtk converters took the largest id for the number
 of particles, panicking on empty files

---
 src/converter.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 68581e3..55c3888 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -674,10 +674,7 @@ impl XMLVTKConverter {
             };
             let sort_list = make_sortlist(&particle_ids);
             let particle_ids = sort_by_array(particle_ids, &sort_list);
-            let max_particle = *particle_ids.iter().max().unwrap();
-            if max_particle > nparticles {
-                nparticles = max_particle
-            }
+            nparticles = nparticles.max(particle_ids.len() as u64);
             let builder = make_dataset_builder!(group);
             builder
                 .with_data(&particle_ids)
@@ -1103,10 +1100,7 @@ impl LegacyVTKConverter {
             };
             let sort_list = make_sortlist(&particle_ids);
             let particle_ids = sort_by_array(particle_ids, &sort_list);
-            let max_particle = *particle_ids.iter().max().unwrap();
-            if max_particle > nparticles {
-                nparticles = max_particle
-            }
+            nparticles = nparticles.max(particle_ids.len() as u64);
             let builder = make_dataset_builder!(group);
             builder
                 .with_data(&particle_ids)
-- 
2.43.0


From b52192e179e94efcc1b529db7e764cf5bbf1dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 45/74] fix: XMLVTKConverter::write_hdf5_from_folder looked for
 legacy files

---
 src/converter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index 55c3888..39113cd 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -549,10 +549,16 @@ impl XMLVTKConverter {
             .unwrap_or_else(|_| {
                 panic!("Unable to convert files in directory {}", system_foldername)
             });
+        let extension = match self.file_type {
+            VTKType::PolyData => ".vtp",
+            VTKType::UnstructuredGrid => ".vtu",
+        };
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            if (filename.ends_with(extension) || filename.ends_with(".vtk"))
+                && !filename.contains("boundingBox")
+            {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From f7f0d495cc0aa25387ea8b4840da12bc0d3e897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 46/74] fix: vtk converters took the number of a directory for
 the step of its files

---
 src/converter.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 39113cd..6224b2d 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -446,6 +446,14 @@ pub fn csv_multi_converter(
     };
 }
 
+/// Last component of a path
+fn file_name(path: &str) -> &str {
+    Path::new(path)
+        .file_name()
+        .and_then(|name| name.to_str())
+        .unwrap_or(path)
+}
+
 /// Converter for modern, xml-based vtk files
 #[derive(Default)]
 pub struct XMLVTKConverter {
@@ -648,7 +656,8 @@ impl XMLVTKConverter {
                 .unwrap_or_else(|_| panic!("Can not create group timestep {}", file_id));
             // Try to get data from filename
             let current_step: i64 = re
-                .captures(filename)
+                .captures(file_name(filename))
+                .or_else(|| re.captures(filename))
                 .unwrap_or_else(|| panic!("Unable to match filename {filename} with filter {filter}"))
                 .get(1)
                 .unwrap_or_else(|| panic!("Unable to find first match of filename {filename} with filter {filter}"))
@@ -1074,7 +1083,8 @@ impl LegacyVTKConverter {
                 .unwrap_or_else(|_| panic!("Can not create group timestep {}", file_id));
             // Try to get data from filename
             let current_step: i64 = re
-                .captures(filename)
+                .captures(file_name(filename))
+                .or_else(|| re.captures(filename))
                 .unwrap_or_else(|| panic!("Unable to match filename {filename} with filter {filter}"))
                 .get(1)
                 .unwrap_or_else(|| panic!("Unable to find first match of filename {filename} with filter {filter}"))
-- 
2.43.0


From e0d58458e2feb748e1d4fdcf3de87c9a16fd659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 47/74] fix: velocities were those of the sample after the one
 they are written for

---
 src/converter/convertertools.rs                   | 9 ++++++---
 src/converter/convertertools/velocity_paralell.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..3f2b131 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -169,22 +169,25 @@ pub fn velocity_polynom(
         let vx: f64 = param_x
             .iter()
             .enumerate()
+            .skip(1)
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
+            .skip(1)
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
+            .skip(1)
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index eb6a3c9..2d48436 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -56,22 +56,25 @@ pub fn velocity_polynom_parallel(
             let vx: f64 = param_x
                 .iter()
                 .enumerate()
+                .skip(1)
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vy: f64 = param_y
                 .iter()
                 .enumerate()
+                .skip(1)
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vz: f64 = param_z
                 .iter()
                 .enumerate()
+                .skip(1)
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             result_array[0] = datasegment[[(sampling_steps - 1) / 2, 0]];
-- 
2.43.0


From 36c05cb3346aa94364aa99c9c710e47b989dfcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 48/74] fix: interpolated positions were not those on the
 trajectory, and the last ones NaN

---
 src/converter/convertertools.rs | 94 ++++++++-------------------------
 1 file changed, 22 insertions(+), 72 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 3f2b131..fc719c2 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -27,10 +27,9 @@ pub fn interpolate(
     let y: ArrayView1<f64> = data.slice(ndarray::s![.., 2_usize]);
     let z: ArrayView1<f64> = data.slice(ndarray::s![.., 3_usize]);
 
-    let maxtime = max_time;
     let timesteps = steps;
-    let dt = maxtime / timesteps as f64;
-    // First timestep:
+    // the first step lies on the first sample, the last one at max_time
+    let dt = (max_time - time[0]) / (timesteps - 1) as f64;
     let mut interp_data = ndarray::Array2::<f64>::zeros((steps, 4));
     // first timestep:
     interp_data[[0, 0]] = time[0];
@@ -43,76 +42,27 @@ pub fn interpolate(
     interp_data[[timesteps - 1, 2]] = y[time.len() - 1];
     interp_data[[timesteps - 1, 3]] = z[time.len() - 1];
     // loop over whole dataset and figure out the location at each timestep
-    let mut real_step = 1;
+    let mut next = 1;
     for step in 1..timesteps - 1 {
-        let time_new = step as f64 * dt;
-        // find the next indx in the real data which may be the old one
-        real_step = {
-            // if the temporal distance between new time and old time is smaller
-            // then distance between new time and next time return old timestep
-            print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
-                let old_time = time[real_step];
-                let new_time = time[real_step + 1];
-                print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
-                }
-            }
-            real_step
-        };
-        print_debug!("Interpolate:  step: {}, real_step: {}, time_new: {}, time[real_step]: {}, time[real_step+1]: {}", step, real_step, time_new, time[real_step], time[real_step+1]);
-
-        if real_step >= data.shape()[0] - 1 {
-            interp_data[[step, 0]] = time_new;
-            interp_data[[step, 1]] = f64::NAN;
-            interp_data[[step, 2]] = f64::NAN;
-            interp_data[[step, 3]] = f64::NAN;
-        } else {
-            if data[[real_step - 1, 0]] == data[[real_step + 1, 0]] {
-                interp_data[[step, 0]] = time_new;
-                interp_data[[step, 1]] = f64::NAN;
-                interp_data[[step, 2]] = f64::NAN;
-                interp_data[[step, 3]] = f64::NAN;
-                continue;
-            }
-            let x_new = interpolate_step(
-                data[[real_step - 1, 0]],
-                data[[real_step + 1, 0]],
-                time_new,
-                data[[real_step - 1, 1]],
-                data[[real_step + 1, 1]],
-            );
-            let y_new = interpolate_step(
-                data[[real_step - 1, 0]],
-                data[[real_step + 1, 0]],
-                time_new,
-                data[[real_step - 1, 2]],
-                data[[real_step + 1, 2]],
-            );
-            let z_new = interpolate_step(
-                data[[real_step - 1, 0]],
-                data[[real_step + 1, 0]],
-                time_new,
-                data[[real_step - 1, 3]],
-                data[[real_step + 1, 3]],
-            );
-            interp_data[[step, 0]] = time_new;
-            interp_data[[step, 1]] = x_new;
-            interp_data[[step, 2]] = y_new;
-            interp_data[[step, 3]] = z_new;
+        let time_new = time[0] + step as f64 * dt;
+        // find the first sample that is not before the new time
+        while next < time.len() && time[next] < time_new {
+            next += 1;
+        }
+        interp_data[[step, 0]] = time_new;
+        for axis in 1..4 {
+            interp_data[[step, axis]] = if next < time.len() {
+                interpolate_step(
+                    time[next - 1],
+                    time[next],
+                    time_new,
+                    data[[next - 1, axis]],
+                    data[[next, axis]],
+                )
+            } else {
+                // the trajectory ends before
+                f64::NAN
+            };
         }
         if step % 20000 == 0 {
             //bar.inc(20000);
-- 
2.43.0


From bc382f70d94eee85569d9d5b0a435763c1d83328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 49/74] fix: csv_multi passed its default delimiter, comment
 and method with quotation marks

---
 src/pylib/libconv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index 291c5d8..f107d11 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -461,13 +461,13 @@ impl PyConverter {
         filename,
         outname,
         columns = vec![0,1,2,3],
-        delimiter = "\",\"",
+        delimiter = ",",
         header = true,
-        comment = "\"#\"",
+        comment = "#",
         vel = false,
         interpolate = false,
         radius = 0.0,
-        method = "\"id_line\""
+        method = "id_line"
     ))]
     #[staticmethod]
     fn csv_multi(
-- 
2.43.0


From 073232744adb8d054f9f1374532e38d91b8319c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 50/74] fix: depth averaged quiver plots of the xz plane placed
 arrows at the y positions

---
 src/plotting/plotting_2d/quiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/plotting_2d/quiver.rs b/src/plotting/plotting_2d/quiver.rs
index 99d5b55..59f7924 100644
--- a/src/plotting/plotting_2d/quiver.rs
+++ b/src/plotting/plotting_2d/quiver.rs
@@ -42,7 +42,7 @@ impl QuiverPlot {
 
     pub fn from_vector_grid_depth_averaged(grid: VectorGrid, axis: usize) -> QuiverPlot {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             grid.get_ypositions().to_owned()
         } else {
             grid.get_xpositions().to_owned()
-- 
2.43.0


From f46fa4f7ddcabae842fc71f075465363292dffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 51/74] fix: parity maps and contours of the xz plane used the
 y positions

---
 src/plotting/plotting_2d/parity_contour.rs | 8 ++++----
 src/plotting/plotting_2d/parity_map.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index d22f355..c577313 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -18,7 +18,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -70,7 +70,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -133,7 +133,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -168,7 +168,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 4c74925..36ae3ad 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -20,7 +20,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -72,7 +72,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -135,7 +135,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -170,7 +170,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
-- 
2.43.0


From e94d6878e911fe8f970dff126fa9a3f70f7b31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 52/74] fix: maps of column-major fields showed the values in
 the wrong cells

---
 src/plotting/plotting_2d/parity_contour.rs | 2 +-
 src/plotting/plotting_2d/parity_map.rs     | 2 +-
 src/plotting/plotting_2d/scalar_map.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index c577313..6cabce2 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -206,7 +206,7 @@ impl ParityContour {
         let heatmap = HeatMap::new(
             self.x.to_owned().into_raw_vec(),
             self.y.to_owned().into_raw_vec(),
-            self.delta.to_owned().into_raw_vec(),
+            self.delta.iter().copied().collect(),
         );
         let traces = vec![heatmap];
 
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 36ae3ad..758d93e 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -208,7 +208,7 @@ impl ParityMap {
         let heatmap = HeatMap::new(
             self.x.to_owned().into_raw_vec(),
             self.y.to_owned().into_raw_vec(),
-            self.delta.to_owned().into_raw_vec(),
+            self.delta.iter().copied().collect(),
         );
         let traces = vec![heatmap];
 
diff --git a/src/plotting/plotting_2d/scalar_map.rs b/src/plotting/plotting_2d/scalar_map.rs
index 5ee1612..a6cf7ae 100644
--- a/src/plotting/plotting_2d/scalar_map.rs
+++ b/src/plotting/plotting_2d/scalar_map.rs
@@ -119,7 +119,7 @@ impl ScalarMap {
         let heatmap = HeatMap::new(
             x.into_raw_vec(),
             y.into_raw_vec(),
-            self.data.to_owned().into_raw_vec(),
+            self.data.iter().copied().collect(),
         ).color_scale(ColorScale::Vector(cmap));
         let trace = vec![heatmap];
         trace
-- 
2.43.0


From 188815a001b3d2d0ef29e9aad9f863fcfc12e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 53/74] fix: arrow heads of scaled unit vectors pointed away
 from the shaft

---
 src/plotting/plotting_2d/unit_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/plotting_2d/unit_vector.rs b/src/plotting/plotting_2d/unit_vector.rs
index 163e901..88423e0 100644
--- a/src/plotting/plotting_2d/unit_vector.rs
+++ b/src/plotting/plotting_2d/unit_vector.rs
@@ -127,7 +127,7 @@ impl UnitVectorPlot {
         let mut barb_angles = Array2::zeros(self.u.dim());
         Zip::from(&mut barb_angles)
             .and(&self.v)
-            .and(&self.u)
+            .and(&u)
             .for_each(|a, &v, &u| {
                 *a = f64::atan2(v, u);
             });
-- 
2.43.0


From 492ce5d60e085f093b352d1d0ebe3cb94502b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 54/74] fix: parity lines of vector fields ignored all but the
 first component

---
 src/plotting/plotting_2d/parity_plot.rs | 60 +++++++++++++++----------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_plot.rs b/src/plotting/plotting_2d/parity_plot.rs
index cf46d35..aa24399 100644
--- a/src/plotting/plotting_2d/parity_plot.rs
+++ b/src/plotting/plotting_2d/parity_plot.rs
@@ -9,6 +9,18 @@ use plotly::Scatter;
 use crate::GridFunctions3D;
 use crate::VectorGrid;
 
+/// Smallest value of all components
+fn vector_min(grid: &VectorGrid) -> f64 {
+    let minima = grid.data.iter().map(|component| *component.get_data().min_skipnan());
+    minima.fold(f64::NAN, f64::min)
+}
+
+/// Largest value of all components
+fn vector_max(grid: &VectorGrid) -> f64 {
+    let maxima = grid.data.iter().map(|component| *component.get_data().max_skipnan());
+    maxima.fold(f64::NAN, f64::max)
+}
+
 // TODO we need to tell off users for unequal inputs
 // BUG the plot is drawn wrong
 pub struct ParityPlot {
@@ -29,14 +41,14 @@ impl ParityPlot {
         let mut reference_data: Vec<f64> = Vec::with_capacity(capacity);
         let mut comparison_data: Vec<f64> = Vec::with_capacity(capacity);
 
-        let xmin_reference = *reference_grid.get_data().min_skipnan();
-        let xmax_reference = *reference_grid.get_data().max_skipnan();
-        let xmin_comparison = *comparison_grid.get_data().min_skipnan();
-        let xmax_comparison = *comparison_grid.get_data().max_skipnan();
-        let ymin_reference = *reference_grid.get_data().min_skipnan();
-        let ymax_reference = *reference_grid.get_data().max_skipnan();
-        let ymin_comparison = *comparison_grid.get_data().min_skipnan();
-        let ymax_comparison = *comparison_grid.get_data().max_skipnan();
+        let xmin_reference = vector_min(&reference_grid);
+        let xmax_reference = vector_max(&reference_grid);
+        let xmin_comparison = vector_min(&comparison_grid);
+        let xmax_comparison = vector_max(&comparison_grid);
+        let ymin_reference = vector_min(&reference_grid);
+        let ymax_reference = vector_max(&reference_grid);
+        let ymin_comparison = vector_min(&comparison_grid);
+        let ymax_comparison = vector_max(&comparison_grid);
 
         let xmin = if xmin_reference < xmin_comparison {
             xmin_reference
@@ -83,14 +95,14 @@ impl ParityPlot {
         comparison_grid: VectorGrid,
         axis: usize,
     ) -> ParityPlot {
-        let xmin_reference = *reference_grid.get_data().min_skipnan();
-        let xmax_reference = *reference_grid.get_data().max_skipnan();
-        let xmin_comparison = *comparison_grid.get_data().min_skipnan();
-        let xmax_comparison = *comparison_grid.get_data().max_skipnan();
-        let ymin_reference = *reference_grid.get_data().min_skipnan();
-        let ymax_reference = *reference_grid.get_data().max_skipnan();
-        let ymin_comparison = *comparison_grid.get_data().min_skipnan();
-        let ymax_comparison = *comparison_grid.get_data().max_skipnan();
+        let xmin_reference = vector_min(&reference_grid);
+        let xmax_reference = vector_max(&reference_grid);
+        let xmin_comparison = vector_min(&comparison_grid);
+        let xmax_comparison = vector_max(&comparison_grid);
+        let ymin_reference = vector_min(&reference_grid);
+        let ymax_reference = vector_max(&reference_grid);
+        let ymin_comparison = vector_min(&comparison_grid);
+        let ymax_comparison = vector_max(&comparison_grid);
 
         let xmin = if xmin_reference < xmin_comparison {
             xmin_reference
@@ -156,14 +168,14 @@ impl ParityPlot {
         axis: usize,
         index: usize,
     ) -> ParityPlot {
-        let xmin_reference = *reference_grid.get_data().min_skipnan();
-        let xmax_reference = *reference_grid.get_data().max_skipnan();
-        let xmin_comparison = *comparison_grid.get_data().min_skipnan();
-        let xmax_comparison = *comparison_grid.get_data().max_skipnan();
-        let ymin_reference = *reference_grid.get_data().min_skipnan();
-        let ymax_reference = *reference_grid.get_data().max_skipnan();
-        let ymin_comparison = *comparison_grid.get_data().min_skipnan();
-        let ymax_comparison = *comparison_grid.get_data().max_skipnan();
+        let xmin_reference = vector_min(&reference_grid);
+        let xmax_reference = vector_max(&reference_grid);
+        let xmin_comparison = vector_min(&comparison_grid);
+        let xmax_comparison = vector_max(&comparison_grid);
+        let ymin_reference = vector_min(&reference_grid);
+        let ymax_reference = vector_max(&reference_grid);
+        let ymin_comparison = vector_min(&comparison_grid);
+        let ymax_comparison = vector_max(&comparison_grid);
 
         let xmin = if xmin_reference < xmin_comparison {
             xmin_reference
-- 
2.43.0


From a65ff25133e8579970c40cbce8e609751bb5747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 55/74] fix: Data[i] raises IndexError for steps that do not
 exist

The extension module panicked instead, so that 'for step in data', which
relies on IndexError to stop, always ended in a PanicException.
---
 src/pylib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylib.rs b/src/pylib.rs
index 03afd11..af9211d 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -833,6 +833,9 @@ impl PyData {
             } else {
                 _idx = index;
             }
+            if _idx < 0 || _idx >= *self.data.global_stats().timesteps() as isize {
+                return Err(pyo3::exceptions::PyIndexError::new_err("timestep index out of range"));
+            }
             // Single index
             let timestep = self.data.get_timestep(_idx as usize);
             // make it an array
@@ -871,6 +874,9 @@ impl PyData {
                 } else {
                     _idx = *index;
                 }
+                if _idx < 0 || _idx >= *self.data.global_stats().timesteps() as isize {
+                    return Err(pyo3::exceptions::PyIndexError::new_err("timestep index out of range"));
+                }
                 let timestep = self.data.get_timestep(_idx as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From 1eab5b51414e85830a1f78a61b86fc2a948ea26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 56/74] fix: Data[a:b:c] returns every selected step

The number of steps was (stop - start) / step rounded down, one short when
the step does not divide the range (a panic), and neither empty nor
negative ranges worked.
---
 src/pylib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index af9211d..a380568 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -903,12 +903,13 @@ impl PyData {
                 "Could not get indices"
             );
             let start = indices.start;
-            let stop = indices.stop;
             let step = indices.step;
+            let count = indices.slicelength as usize;
             let mut result = ndarray::Array3::<f64>::zeros(
-                [((stop - start) / step) as usize, *self.data.global_stats().nparticles(), 7]
+                [count, *self.data.global_stats().nparticles(), 7]
             );
-            for (i, index) in (start..stop).step_by(step as usize).enumerate() {
+            for i in 0..count {
+                let index = start + i as isize * step;
                 let timestep = self.data.get_timestep(index as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From 04fa2cdefc57b6435787a4f8d489209e80bb180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 57/74] fix: Grid with data, limits and cell_size counts its
 cells in the limits

The number of cells came from the extent of the data although the grid
spans the limits, and as floats, which a cartesian grid rejects.
---
 up4/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 29bd6f8..a24f49e 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -14,7 +14,7 @@ from upppp_rust import Data
 
 
 def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
-    if data is not None:
+    if data is not None and limits is None:
         xmin, ymin, zmin = data.min_position()
         xmax, ymax, zmax = data.max_position()
         if xlim is not None:
@@ -30,7 +30,7 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         num_cells = np.zeros(3)
         for i in range(3):
             num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
-        return num_cells
+        return np.array(num_cells, dtype=np.int64)
     elif limits is not None:
         num_cells = np.zeros(3)
         for i in range(3):
-- 
2.43.0


From 3729c2a6d4065e793ca6a8bb19cd9b965781f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 58/74] fix: Grid accepts negative limits

Systems around the origin could not be given as limits, although xlim, ylim
and zlim accept them; the code marked the refusal as a bug.
---
 up4/grid.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index a24f49e..430e542 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -150,11 +150,7 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                # BUG limits can be negative. nobody say they cant
-                if not any(i < 0 for i in limits):
-                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -176,12 +172,7 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cartesian3d(
-                            np.asarray(num_cells), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cartesian3d(np.asarray(num_cells), np.asarray(dim))
@@ -206,12 +197,9 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                if not any(i < 0 for i in limits):
-                    return self.cylindrical3d(
-                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                    )
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cylindrical3d(
+                    np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                )
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -233,12 +221,9 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cylindrical3d(
-                            np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cylindrical3d(
+                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                    )
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cylindrical3d(
-- 
2.43.0


From c6d08b92d4a5c7c443729541001a8fc59525800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 59/74] fix: unit_vector_plot checks max_size, not min_size
 twice

Scaling mode max was refused unless min_size was given, and without
max_size it panicked in the extension module.
---
 up4/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/up4/plotting.py b/up4/plotting.py
index ba0f815..8a4fb3b 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -325,7 +325,7 @@ class Plotter2D:
             index,
             scaling_mode=scaling_mode,
             min_size=min_size,
-            max_size=min_size,
+            max_size=max_size,
             colour_map=colour_map,
         )
         self._plotter._unit_vector_plot(
-- 
2.43.0


From c58574917a56fdeac27054d633ad57054830bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 60/74] fix: Grid with cell_size counts every whole cell

An extent that is a multiple of the cell size came out one cell short
whenever the quotient was rounded below the integer, as in 0.3 / 0.1.
---
 up4/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 430e542..a3d8ea4 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -29,19 +29,19 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         dim = [xmin, xmax, ymin, ymax, zmin, zmax]
         num_cells = np.zeros(3)
         for i in range(3):
-            num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
+            num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i] + 1e-9)
         return np.array(num_cells, dtype=np.int64)
     elif limits is not None:
         num_cells = np.zeros(3)
         for i in range(3):
-            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
+            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i] + 1e-9)
         return np.array(num_cells, dtype=np.int64)
 
     elif xlim is not None and ylim is not None and zlim is not None:
         num_cells = [
-            (xlim[1] - xlim[0]) / cell_size[0],
-            (ylim[1] - ylim[0]) / cell_size[1],
-            (zlim[1] - zlim[0]) / cell_size[2],
+            (xlim[1] - xlim[0]) / cell_size[0] + 1e-9,
+            (ylim[1] - ylim[0]) / cell_size[1] + 1e-9,
+            (zlim[1] - zlim[0]) / cell_size[2] + 1e-9,
         ]
         return np.asarray(num_cells, dtype=np.int64)
     else:
-- 
2.43.0


From d76de5ca86693a2defab617ae5bc62ee55eb6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 61/74] fix: names of colour maps are case-insensitive, as
 documented

Plotter2D refused every name that was not lower case.
---
 src/pylib/libplot.rs | 2 +-
 up4/plotting.py      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index 1329292..a6b8453 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -547,7 +547,7 @@ impl PyPlotter2D {
 impl PyPlotter2D {
     fn get_gradient(&self, colour_map: Option<&str>) -> Option<Gradient> {
         // Once we get reflection, maybe this will look less bad??
-        match colour_map {
+        match colour_map.map(str::to_lowercase).as_deref() {
             Some("turbo") => Some(colorous::TURBO),
             Some("viridis") => Some(colorous::VIRIDIS),
             Some("inferno") => Some(colorous::INFERNO),
diff --git a/up4/plotting.py b/up4/plotting.py
index 8a4fb3b..917731d 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -1021,7 +1021,10 @@ class Plotter2D:
                 'Using scaling mode: "minmax" requires values for `min_size` and '
                 "`max_size` to be set"
             )
-        if colour_map is not None and colour_map not in valid_colour_map_values:
+        if (
+            colour_map is not None
+            and colour_map.lower() not in valid_colour_map_values
+        ):
             raise ValueError(
                 f"Colourmap value: {colour_map} is not valid. Valid values are"
                 f" {valid_colour_map_values}."
-- 
2.43.0


From fb051e48cc05cf4a2f4f3a5548a4df359d38c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 62/74] fix: Grid refuses reversed limits and limits of the
 wrong length, as it does for xlim, ylim and zlim

---
 up4/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/up4/grid.py b/up4/grid.py
index a3d8ea4..ca26173 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -67,6 +67,10 @@ class Grid(RustGrid):
             )
         elif limits is not None:
             limits = np.asarray(limits)
+            if len(limits) != 6:
+                raise ValueError("limits must have length 6")
+            if (limits[::2] > limits[1::2]).any():
+                raise ValueError("the lower limits must be smaller than the upper ones")
         if not isinstance(num_cells, (list, np.ndarray)) and num_cells is not None:
             raise TypeError(
                 "num_cells must be a list or numpy array not a {}".format(
-- 
2.43.0


From f0bc181660bc2367c421accc969d2998bd784207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 63/74] fix: csv_multi_converter merged particles with negative
 ids

---
 src/converter/csv_modes/csv_multi_idline.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 800feaf..130f485 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -393,15 +393,15 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
     let (ids, min_id, max_id, max_steps, max_t) = {
         let n_ids = 0;
         let n_timesteps = 0;
-        let mut min_id = data[[0, 1]] as usize;
-        let mut max_id = data[[0, 1]] as usize;
+        let mut min_id = data[[0, 1]] as i64;
+        let mut max_id = data[[0, 1]] as i64;
         let mut min_t = data[[0, 0]];
         let mut max_t = data[[0, 0]];
         let mut ids = Vec::new();
         let mut ids_timesteps = Vec::new();
         let mut max_steps = 0;
         for i in 0..data.shape()[0] {
-            let id = data[[i, 1]] as usize;
+            let id = data[[i, 1]] as i64;
             let t = data[[i, 0]];
 
             if id < min_id {
@@ -430,7 +430,7 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
             .iter()
             .zip(ids_timesteps.iter())
             .map(|(a, b)| (*a, *b))
-            .collect::<Vec<(usize, usize)>>();
+            .collect::<Vec<(i64, usize)>>();
         ids_and_steps.sort_by(|a, b| a.0.cmp(&b.0));
 
         (ids_and_steps, min_id, max_id, max_steps, max_t)
@@ -445,7 +445,7 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
     // fill array
     let mut last_line_pushed = vec![0; ids.len()];
     for i in 0..data.shape()[0] {
-        let id = data[[i, 1]] as usize;
+        let id = data[[i, 1]] as i64;
         let t = data[[i, 0]];
         let index = ids.iter().position(|&x| x.0 == id).unwrap();
         let line = last_line_pushed[index];
-- 
2.43.0


From 21e337be118bf6efb4427f08a79e81a010bca5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 64/74] fix: the text of a vector field described its first
 component only, and as NaN with an empty cell

---
 src/grid/vector_grid.rs | 31 +++++++------------------------
 src/pylib/libgrid.rs    | 22 ++++++++--------------
 2 files changed, 15 insertions(+), 38 deletions(-)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index ba3be12..41a371b 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -1,5 +1,6 @@
 extern crate ndarray;
 use super::{CellId, GridFunctions3D, Position};
+use crate::utilities::nan_mean;
 use crate::{grid, CylindricalGrid3D};
 use derive_getters::Getters;
 use ndarray::prelude::*;
@@ -60,18 +61,9 @@ impl std::fmt::Debug for VectorGrid {
             self.data[0].get_limits()[0],
             self.data[0].get_limits()[1],
             self.data[0].get_limits()[2],
-            self.data[0]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[1]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[2]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
+            nan_mean(self.data[0].get_data()),
+            nan_mean(self.data[1].get_data()),
+            nan_mean(self.data[2].get_data()),
         )
     }
 }
@@ -87,18 +79,9 @@ impl std::fmt::Display for VectorGrid {
             self.data[0].get_limits()[0],
             self.data[0].get_limits()[1],
             self.data[0].get_limits()[2],
-            self.data[0]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[1]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[2]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
+            nan_mean(self.data[0].get_data()),
+            nan_mean(self.data[1].get_data()),
+            nan_mean(self.data[2].get_data()),
         )
     }
 }
diff --git a/src/pylib/libgrid.rs b/src/pylib/libgrid.rs
index 7482e26..e354c85 100644
--- a/src/pylib/libgrid.rs
+++ b/src/pylib/libgrid.rs
@@ -604,13 +604,10 @@ impl PyVecGrid {
             self.grid.get_limits()[0],
             self.grid.get_limits()[1],
             self.grid.get_limits()[2],
-            self.grid
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.grid.get_data().std(1.),
-            self.grid.get_data().min_skipnan(),
-            self.grid.get_data().max_skipnan()
+            [0, 1, 2].map(|i: usize| nan_mean(self.grid.data[i].get_data())),
+            [0, 1, 2].map(|i: usize| nan_std(self.grid.data[i].get_data())),
+            [0, 1, 2].map(|i: usize| *self.grid.data[i].get_data().min_skipnan()),
+            [0, 1, 2].map(|i: usize| *self.grid.data[i].get_data().max_skipnan())
         ))
     }
     fn __repr__(&self) -> PyResult<String> {
@@ -622,13 +619,10 @@ impl PyVecGrid {
             self.grid.get_limits()[0],
             self.grid.get_limits()[1],
             self.grid.get_limits()[2],
-            self.grid
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.grid.get_data().std(1.),
-            self.grid.get_data().min_skipnan(),
-            self.grid.get_data().max_skipnan()
+            [0, 1, 2].map(|i: usize| nan_mean(self.grid.data[i].get_data())),
+            [0, 1, 2].map(|i: usize| nan_std(self.grid.data[i].get_data())),
+            [0, 1, 2].map(|i: usize| *self.grid.data[i].get_data().min_skipnan()),
+            [0, 1, 2].map(|i: usize| *self.grid.data[i].get_data().max_skipnan())
         ))
     }
 }
-- 
2.43.0


From 73cca58691fd3c8cb72246f22d48215720089c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 65/74] fix: the vtk converters skipped every file of a
 directory named after a bounding box

---
 src/converter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 6224b2d..b3701ec 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -565,7 +565,7 @@ impl XMLVTKConverter {
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
             if (filename.ends_with(extension) || filename.ends_with(".vtk"))
-                && !filename.contains("boundingBox")
+                && !file_name(filename).contains("boundingBox")
             {
                 print_debug!("\t Found file: {}", filename);
             } else {
@@ -996,7 +996,7 @@ impl LegacyVTKConverter {
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            if filename.ends_with(".vtk") && !file_name(filename).contains("boundingBox") {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From 6583f4993d90c3f7138f20ba2b62bc9ff3374f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:26 +0000
Subject: [PATCH 66/74] fix: one unknown later position made a cell's
 dispersion or displacement, and the index, NaN

---
 src/functions.rs        | 4 ++++
 src/functions/mixing.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index ba4cc5f..26ca5d8 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -566,6 +566,10 @@ pub trait Granular: DataManager {
                     continue;
                 }
                 let position_future_particle = position_future[particle];
+                if position_future_particle.iter().any(|x| x.is_nan()) {
+                    // the position at the later timestep is unknown
+                    continue;
+                }
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 177fce4..e68396e 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -269,6 +269,10 @@ pub trait Mixing: DataManager {
                     continue;
                 }
                 let position_future_particle = position_future[particle];
+                if position_future_particle.iter().any(|x| x.is_nan()) {
+                    // the position at the later timestep is unknown
+                    continue;
+                }
                 let dist_squared = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2);
-- 
2.43.0


From 5b7c980f120f08496a11f2a48504fb1d3238e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:26 +0000
Subject: [PATCH 67/74] fix: granular_temperature_field averaged NaN velocities
 into the field

---
 src/functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 26ca5d8..cf3050c 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -845,6 +845,10 @@ pub trait Granular: DataManager {
                     grid.get_zpositions()
                 );
                 let velocity = velocities.slice(s![particle, ..]);
+                if velocity.iter().any(|v| v.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
                 let cell_id = match grid.cell_id(position) {
                     Ok(cell_id) => cell_id,
                     Err(_) => continue,
-- 
2.43.0


From e8586557aeceeba162373b20e6650f7393f8ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:57 +0000
Subject: [PATCH 68/74] fix: the crate did not compile with the feature
 uPPPP_warning

---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index e68396e..af0befe 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -235,7 +235,7 @@ pub trait Mixing: DataManager {
                         print_warning!(
                             "Dispersion: No timestep found for time {}, \n error: {}",
                             current_time + time_for_msd,
-                            message
+                            _message
                         );
                         continue;
                     }
-- 
2.43.0


From 6493263c98dcb9b58748551499601f23982aac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:59 +0000
Subject: [PATCH 69/74] fix: circulation times missed crossings by way of a
 position on the boundary

---
 src/functions/conditional.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 6fd15d5..0b91770 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -65,7 +65,10 @@ pub trait Conditional: DataManager {
                 let pos = positions[particle];
                 let old_pos = old_positions[particle];
                 // check if particle crossed boundary
-                if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0 {
+                // (a particle on the boundary has not crossed it yet)
+                if (pos[axis] > boundary_position && old_pos[axis] <= boundary_position)
+                    || (pos[axis] <= boundary_position && old_pos[axis] > boundary_position)
+                {
                     // check if particle is already in the list
                     if start_flag_array[particle] == 0 {
                         start_flag_array[particle] = 1;
@@ -155,7 +158,7 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
-                if pos > boundary_position.1 && old_pos < boundary_position.1 {
+                if pos > boundary_position.1 && old_pos <= boundary_position.1 {
                     count += 1;
                     //println!("particle inside upper ");
     
@@ -172,7 +175,7 @@ pub trait Conditional: DataManager {
                     }
                 }
                 // particle crosses out of upper border
-                else if pos < boundary_position.1 && old_pos > boundary_position.1 {
+                else if pos <= boundary_position.1 && old_pos > boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -199,7 +202,7 @@ pub trait Conditional: DataManager {
                 //println!("Middle_check done");
                 ///// same vor lower border
                 // particle crosses into low border
-                if pos < boundary_position.0 && old_pos > boundary_position.0 {
+                if pos < boundary_position.0 && old_pos >= boundary_position.0 {
                     //println!("particle in lower");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
                     // if particle before was below
@@ -214,7 +217,7 @@ pub trait Conditional: DataManager {
                     }
                 }
                 // particle crosses out of lower border
-                else if pos > boundary_position.0 && old_pos < boundary_position.0 {
+                else if pos >= boundary_position.0 && old_pos < boundary_position.0 {
                     // if particle before was nowhere
                     if start_flag_array[particle] == 0 {
                         // start clock
-- 
2.43.0


From 12f671e5e2bc784b86e31ecbf61f40a1ef2a6139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 70/74] fix: circulation_time_two_boundary miscounted steps
 that cross both boundaries

---
 src/functions/conditional.rs | 37 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 0b91770..cd204cd 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -158,24 +158,9 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
-                if pos > boundary_position.1 && old_pos <= boundary_position.1 {
-                    count += 1;
-                    //println!("particle inside upper ");
-    
-                    // if particle before was below
-                    if start_flag_array[particle] == 2 {
-                        // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
-                        }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
-                        //up_times.push(current_time - mid_time_flag_array[particle]);
-                        // One more flag to make shure up time only counted once
-                    }
-                }
+                // a particle may cross both borders at once, it leaves one region before it enters the other
                 // particle crosses out of upper border
-                else if pos <= boundary_position.1 && old_pos > boundary_position.1 {
+                if pos <= boundary_position.1 && old_pos > boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -196,7 +181,6 @@ pub trait Conditional: DataManager {
                     } else if start_flag_array[particle] == 2 {
                         mid_time_flag_array[particle] = current_time;
                     }
-                    continue;
                 }
     
                 //println!("Middle_check done");
@@ -236,6 +220,23 @@ pub trait Conditional: DataManager {
                         mid_time_flag_array[particle] = current_time;
                     }
                 }
+                // particle crosses into upper border
+                if pos > boundary_position.1 && old_pos <= boundary_position.1 {
+                    count += 1;
+                    //println!("particle inside upper ");
+    
+                    // if particle before was below
+                    if start_flag_array[particle] == 2 {
+                        // say " particle was in the other region"
+                        if mid_flag_array[particle] == 0 {
+                            //down_times.push(current_time - time_flag_array[particle]);
+                        }
+                        mid_flag_array[particle] = 1;
+                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
+                        //up_times.push(current_time - mid_time_flag_array[particle]);
+                        // One more flag to make shure up time only counted once
+                    }
+                }
                 //println!("check done");
             } // end particle for loop
 
-- 
2.43.0


From cf3d9b1c4cc6ba1b54e3e1de2c803b62dc5aa7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:38 +0000
Subject: [PATCH 71/74] fix: occupancy, dispersion and displacement took
 another particle for the one whose place changed

---
 src/datamanager.rs      | 12 ++++++++++++
 src/functions.rs        | 25 ++++++++++++++-----------
 src/functions/mixing.rs | 11 ++++++-----
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index ec454a0..cf8df96 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -60,6 +60,18 @@ pub struct Timestep {
     ptype: Array1<f64>, // type of particles
 }
 
+impl Timestep {
+    /// The place of the particle with this `id` in the timestep, searched outwards from the place
+    /// it has in another timestep
+    pub fn place_of(&self, id: f64, place: usize) -> Option<usize> {
+        let n = self.particleid.len();
+        let start = place.min(n);
+        (0..=n)
+            .flat_map(|d| [start.wrapping_sub(d), start + d])
+            .find(|i| self.particleid.get(*i) == Some(&id))
+    }
+}
+
 /// Data-struct containing overall stats for a dataset. (e.g system dimensions)
 #[derive(Debug, Default, Getters)]
 pub struct GlobalStats {
diff --git a/src/functions.rs b/src/functions.rs
index cf3050c..ec3af04 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -386,12 +386,14 @@ pub trait Granular: DataManager {
                     print_warning!("Occupyfield: timestep is negative");
                     continue;
                 }
-                //TODO BUG this is not valit code. we must check which particle is at which position
-                if next_positions.len() <= particle {
-                    print_warning!("Occupyfield: next timestep has less particles");
-                    continue;
-                }
-                occupancy_grid.add_trajectory_value(position, next_positions[particle], time_spent);
+                let next_place = match next_timestep_data.place_of(particle_ids[particle], particle) {
+                    Some(x) => x,
+                    None => {
+                        print_warning!("Occupyfield: next timestep does not have this particle");
+                        continue;
+                    }
+                };
+                occupancy_grid.add_trajectory_value(position, next_positions[next_place], time_spent);
                 complete_time += time_spent;
             }
             // checking for kill signals after each timestep
@@ -561,11 +563,12 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
-                if particle >= position_future.len() {
-                    // the later timestep has less particles
-                    continue;
-                }
-                let position_future_particle = position_future[particle];
+                let place_future = match timestep_future.place_of(particle_ids[particle], particle) {
+                    Some(x) => x,
+                    // the later timestep does not have this particle
+                    None => continue,
+                };
+                let position_future_particle = position_future[place_future];
                 if position_future_particle.iter().any(|x| x.is_nan()) {
                     // the position at the later timestep is unknown
                     continue;
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index af0befe..214b6d4 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -264,11 +264,12 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
-                if particle >= position_future.len() {
-                    // the later timestep has less particles
-                    continue;
-                }
-                let position_future_particle = position_future[particle];
+                let place_future = match timestep_future.place_of(particle_ids[particle], particle) {
+                    Some(x) => x,
+                    // the later timestep does not have this particle
+                    None => continue,
+                };
+                let position_future_particle = position_future[place_future];
                 if position_future_particle.iter().any(|x| x.is_nan()) {
                     // the position at the later timestep is unknown
                     continue;
-- 
2.43.0


From daeeb29bfcf4811ddb2e67fdf9746b9bbdd6378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:57 +0000
Subject: [PATCH 72/74] fix: circulation times mixed up particles whose place
 in the timesteps changed

---
 src/functions/conditional.rs | 65 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index cd204cd..ccb6ea8 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::collections::HashMap;
 pub trait Conditional: DataManager {
     fn circulation_time(
         &mut self,
@@ -13,12 +14,12 @@ pub trait Conditional: DataManager {
         if boundary_position > dim[[1, axis]] || boundary_position < dim[[0, axis]] {
             panic!("Boundary position is outside of the system");
         }
-        let particle_number = global_stats.nparticles();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<f64>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        let mut flags = HashMap::<u64, usize>::new();
+        let mut start_flag_array = Vec::<usize>::new();
+        let mut time_flag_array = Vec::<f64>::new();
 
         let mut old_timestep = self.get_timestep(0).to_owned();
         for timestep in 1..timesteps - 1 {
@@ -33,7 +34,6 @@ pub trait Conditional: DataManager {
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-            let old_particle_ids = old_timestep.particleid();
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -56,14 +56,22 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle >= old_particle_ids.len()
-                    || particle_ids[particle] != old_particle_ids[particle]
-                {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
-                }
+                let old_place = match old_timestep.place_of(particle_ids[particle], particle) {
+                    Some(x) => x,
+                    None => {
+                        print_debug!("Particle {} is not valid", particle);
+                        continue;
+                    }
+                };
                 let pos = positions[particle];
-                let old_pos = old_positions[particle];
+                let old_pos = old_positions[old_place];
+                // the flags of a particle are found by its id, its place may change
+                let next_flag = flags.len();
+                let particle = *flags.entry(particle_ids[particle].to_bits()).or_insert(next_flag);
+                if particle == next_flag {
+                    start_flag_array.push(0);
+                    time_flag_array.push(0.0);
+                }
                 // check if particle crossed boundary
                 // (a particle on the boundary has not crossed it yet)
                 if (pos[axis] > boundary_position && old_pos[axis] <= boundary_position)
@@ -104,14 +112,14 @@ pub trait Conditional: DataManager {
         if boundary_position.1 > dim[[1, axis]] || boundary_position.1 < dim[[0, axis]] {
             panic!("Boundary position is outside of the system");
         }
-        let particle_number = global_stats.nparticles();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<(f64,f64)>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut mid_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
-        let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        let mut flags = HashMap::<u64, usize>::new();
+        let mut start_flag_array = Vec::<usize>::new();
+        let mut mid_flag_array = Vec::<usize>::new();
+        let mut time_flag_array = Vec::<f64>::new();
+        let mut mid_time_flag_array = Vec::<f64>::new();
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
@@ -127,7 +135,6 @@ pub trait Conditional: DataManager {
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-            let old_particle_ids = old_timestep.particleid();
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -150,14 +157,24 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle >= old_particle_ids.len()
-                    || particle_ids[particle] != old_particle_ids[particle]
-                {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
-                }
+                let old_place = match old_timestep.place_of(particle_ids[particle], particle) {
+                    Some(x) => x,
+                    None => {
+                        print_debug!("Particle {} is not valid", particle);
+                        continue;
+                    }
+                };
                 let pos = positions[particle][axis];
-                let old_pos = old_positions[particle][axis];
+                let old_pos = old_positions[old_place][axis];
+                // the flags of a particle are found by its id, its place may change
+                let next_flag = flags.len();
+                let particle = *flags.entry(particle_ids[particle].to_bits()).or_insert(next_flag);
+                if particle == next_flag {
+                    start_flag_array.push(0);
+                    mid_flag_array.push(0);
+                    time_flag_array.push(0.0);
+                    mid_time_flag_array.push(0.0);
+                }
                 // a particle may cross both borders at once, it leaves one region before it enters the other
                 // particle crosses out of upper border
                 if pos <= boundary_position.1 && old_pos > boundary_position.1 {
-- 
2.43.0


From cc5f501edf2d504ba1454e279212fac0ba817ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 73/74] fix: circulation times compared the first step of a
 time window with the first of the recording

---
 src/functions/conditional.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index ccb6ea8..ed750c4 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -22,6 +22,7 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Vec::<f64>::new();
 
         let mut old_timestep = self.get_timestep(0).to_owned();
+        let mut old_timestep_valid = selector.timestep_valid(*old_timestep.time());
         for timestep in 1..timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
@@ -31,6 +32,12 @@ pub trait Conditional: DataManager {
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
+            if !old_timestep_valid {
+                // the timeframe starts here, what was before it does not count
+                old_timestep = timestep_data.to_owned();
+                old_timestep_valid = true;
+                continue;
+            }
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
@@ -122,6 +129,7 @@ pub trait Conditional: DataManager {
         let mut mid_time_flag_array = Vec::<f64>::new();
      
         let mut old_timestep = self.get_timestep(0).to_owned();
+        let mut old_timestep_valid = selector.timestep_valid(*old_timestep.time());
         let mut count = 0;
         for timestep in 1..timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
@@ -132,6 +140,12 @@ pub trait Conditional: DataManager {
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
+            if !old_timestep_valid {
+                // the timeframe starts here, what was before it does not count
+                old_timestep = timestep_data.to_owned();
+                old_timestep_valid = true;
+                continue;
+            }
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-- 
2.43.0


From b0330485ba21c859f1424e59d4bcbd5e2a5710da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:56 +0000
Subject: [PATCH 74/74] fix: circulation times merged the crossings of
 particles that share an id

---
 src/functions/conditional.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index ed750c4..3b50eae 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -17,7 +17,7 @@ pub trait Conditional: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<f64>::new();
-        let mut flags = HashMap::<u64, usize>::new();
+        let mut flags = HashMap::<(u64, usize), usize>::new();
         let mut start_flag_array = Vec::<usize>::new();
         let mut time_flag_array = Vec::<f64>::new();
 
@@ -53,7 +53,13 @@ pub trait Conditional: DataManager {
                 particles
             );
 
+            // particles may share an id, they are counted to keep them apart
+            let mut id_counts = HashMap::<u64, usize>::new();
             for particle in 0..particles {
+                let id = particle_ids[particle].to_bits();
+                let id_count = id_counts.entry(id).or_insert(0);
+                let id = (id, *id_count);
+                *id_count += 1;
                 if !selector.is_valid(
                     rad_array[particle],
                     clouds[particle],
@@ -74,7 +80,7 @@ pub trait Conditional: DataManager {
                 let old_pos = old_positions[old_place];
                 // the flags of a particle are found by its id, its place may change
                 let next_flag = flags.len();
-                let particle = *flags.entry(particle_ids[particle].to_bits()).or_insert(next_flag);
+                let particle = *flags.entry(id).or_insert(next_flag);
                 if particle == next_flag {
                     start_flag_array.push(0);
                     time_flag_array.push(0.0);
@@ -122,7 +128,7 @@ pub trait Conditional: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<(f64,f64)>::new();
-        let mut flags = HashMap::<u64, usize>::new();
+        let mut flags = HashMap::<(u64, usize), usize>::new();
         let mut start_flag_array = Vec::<usize>::new();
         let mut mid_flag_array = Vec::<usize>::new();
         let mut time_flag_array = Vec::<f64>::new();
@@ -161,7 +167,13 @@ pub trait Conditional: DataManager {
                 particles
             );
 
+            // particles may share an id, they are counted to keep them apart
+            let mut id_counts = HashMap::<u64, usize>::new();
             for particle in 0..particles {
+                let id = particle_ids[particle].to_bits();
+                let id_count = id_counts.entry(id).or_insert(0);
+                let id = (id, *id_count);
+                *id_count += 1;
                 if !selector.is_valid(
                     rad_array[particle],
                     clouds[particle],
@@ -182,7 +194,7 @@ pub trait Conditional: DataManager {
                 let old_pos = old_positions[old_place][axis];
                 // the flags of a particle are found by its id, its place may change
                 let next_flag = flags.len();
-                let particle = *flags.entry(particle_ids[particle].to_bits()).or_insert(next_flag);
+                let particle = *flags.entry(id).or_insert(next_flag);
                 if particle == next_flag {
                     start_flag_array.push(0);
                     mid_flag_array.push(0);
-- 
2.43.0

