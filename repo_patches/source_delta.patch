From 810d0f86532f418229738e85a0094904d7e5cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 01/46] fix: selector judges cloud and density criteria by
 their own bounds

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From 331636ee3eb01fec9ffaad9679463b85c642d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 02/46] fix: a zeroed grid carries no weights over

---
 src/grid/cartesian_grid.rs   | 1 +
 src/grid/cylindrical_grid.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..950742d 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -322,6 +322,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..68a526e 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -282,6 +282,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From 9488c6e37e8f60635bf5a0af3a44aa85eb3ccf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 03/46] fix: dispersion and granular temperature accumulate
 from zero

---
 src/functions.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..c6fa45e 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -464,13 +464,13 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut num_counts = Array3::<f64>::zeros(grid.get_data().raw_dim());
         let mut dispersion_grid = grid.new_zeros();
         print_debug!("Dispersion: Initiation over, entering time loop");
 
@@ -762,13 +762,13 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut squared_sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_x = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_y = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut sum_z = Array3::<f64>::zeros(grid.get_data().raw_dim());
+        let mut num_counts = Array3::<f64>::zeros(grid.get_data().raw_dim());
         let mut grantemp = grid.new_zeros();
         print_debug!("velocityfield: Initiation over, entering time loop");
         for timestep in 0..=timesteps - 1 {
-- 
2.43.0


From 96e244218000c96bf331957ffdeaab6a100f81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 04/46] fix: vectorfield starts from an empty grid

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index c6fa45e..832140f 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
-- 
2.43.0


From 54095923027a09e616960cb9c898c17f62cff26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 05/46] fix: mixing and circulation analyses include the last
 timestep

---
 src/functions/conditional.rs |  4 ++--
 src/functions/mixing.rs      | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..3c89375 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -21,7 +21,7 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
 
         let mut old_timestep = self.get_timestep(0).to_owned();
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -110,7 +110,7 @@ pub trait Conditional: DataManager {
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..47eea51 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -17,10 +17,10 @@ pub trait Mixing: DataManager {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
-        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps - 1);
-        let mut time = ndarray::Array1::<f64>::zeros(*timesteps - 1);
+        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps);
+        let mut time = ndarray::Array1::<f64>::zeros(*timesteps);
 
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -129,7 +129,7 @@ pub trait Mixing: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         let mut type_a_grid = grid.new_zeros();
         let mut type_b_grid = grid.new_zeros();
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -212,7 +212,7 @@ pub trait Mixing: DataManager {
         print_debug!("Dispersion: Initiation over, entering time loop");
 
         let mut next_timestep;
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep).clone();
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From be2839363bc8e54d81011ff08c4676d1cc6f168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 06/46] fix: histogram skips samples that lie in no bin

---
 src/functions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 832140f..a1e68da 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -721,6 +721,9 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
+                if velocity_mag.is_nan() || velocity_mag < bin_edges[0] {
+                    continue;
+                }
                 let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
                     as usize;
                 // BUG: bin is sometimes out of bounds
-- 
2.43.0


From ab6d8825e5d0bd9dc4a5ee3d2d441f28cd4cee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 07/46] fix: mean velocity counts only particles the selector
 accepts

---
 src/functions.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index a1e68da..2ea88bd 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -418,7 +418,19 @@ pub trait Granular: DataManager {
                 continue;
             }
             let velocities = timestep_data.velocity();
-            for vel in velocities.outer_iter() {
+            let particle_ids = timestep_data.particleid();
+            let rad_array = timestep_data.radius();
+            let clouds = timestep_data.clouds();
+            let density = timestep_data.density();
+            for (particle, vel) in velocities.outer_iter().enumerate() {
+                if !selector.is_valid(
+                    rad_array[particle],
+                    clouds[particle],
+                    density[particle],
+                    particle_ids[particle] as usize,
+                ) {
+                    continue;
+                }
                 let velocity = (vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]).sqrt();
                 if f64::is_nan(velocity) {
                     continue;
-- 
2.43.0


From 2cde251b7c051104633de70b3aa0bc9353345a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 08/46] fix: msd averages squared displacements

---
 src/functions/mixing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 47eea51..4e8f956 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -269,7 +269,7 @@ pub trait Mixing: DataManager {
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2))
                 .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                distance.add_value(positions[particle], dist * dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -283,7 +283,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From 08d893851e16d055864f8a02b3144821aa2277fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 09/46] fix: occupancy field covers every pair of consecutive
 timesteps

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 2ea88bd..98187a6 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -314,7 +314,7 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps - 1 {
             let timestep_data = self.get_timestep(timestep).clone();
             //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
-- 
2.43.0


From 0d8fac88aa005ea67b28dbdf3b1a7b62269e7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 10/46] fix: cell_id finds the Cartesian cell that contains the
 position

---
 src/grid/cartesian_grid.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 950742d..b14a443 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -135,13 +135,18 @@ impl GridFunctions3D for CartesianGrid3D {
             ));
         }
         let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
+            * self.cells[0] as f64) as usize;
         let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
+            * self.cells[1] as f64) as usize;
         let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
-
-        Ok([cell_idx, cell_idy, cell_idz])
+            * self.cells[2] as f64) as usize;
+
+        // the upper limit belongs to the last cell
+        Ok([
+            cell_idx.min(self.cells[0] - 1),
+            cell_idy.min(self.cells[1] - 1),
+            cell_idz.min(self.cells[2] - 1),
+        ])
     }
     #[allow(dead_code, unused_variables, unreachable_code)]
     fn cell_ids_in_trajectory(
-- 
2.43.0


From e8f9f2d26907908b71d1eb4ab70aa1e2243a507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 11/46] fix: cylindrical cell_id finds the containing cell and
 refuses positions outside

---
 src/grid/cylindrical_grid.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 68a526e..c05f055 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -187,6 +187,13 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
+        if !self.is_inside(pos) {
+            return Err(anyhow!(
+                "Position {:?} is outside of grid limits {:?}",
+                pos,
+                self.limits
+            ));
+        }
         let pos = &self.to_cylindrical(pos);
         let posr = pos[0];
         let mut cell_idr = None;
@@ -201,20 +208,13 @@ impl GridFunctions3D for CylindricalGrid3D {
                 posr, self.rpositions
             )
         });
-        let poso = pos[1];
-        let cell_ido = (&self.opositions - poso)
-            .iter()
-            .map(|x| x.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
-        let posz = pos[2];
-        let cell_idz = (&self.zpositions - posz)
-            .iter()
-            .map(|z| z.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
+        // angles and heights are divided evenly, the upper limit belongs to the last cell
+        let cell_ido = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
+            * self.cells[1] as f64) as usize;
+        let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
+            * self.cells[2] as f64) as usize;
+        let cell_ido = cell_ido.min(self.cells[1] - 1);
+        let cell_idz = cell_idz.min(self.cells[2] - 1);
         Ok([cell_idr, cell_ido, cell_idz])
     }
     #[allow(unused_variables)]
-- 
2.43.0


From dd147394bece93337f25b4b613c1760ed25581e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 12/46] fix: slices at a position cut the layer that contains
 it

---
 src/grid/cartesian_grid.rs   |  2 ++
 src/grid/cylindrical_grid.rs | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index b14a443..d2c41a8 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -419,6 +419,8 @@ impl GridFunctions3D for CartesianGrid3D {
         let cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        // the upper limit belongs to the last cell
+        let cell_id = cell_id.min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index c05f055..25d67cc 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -370,10 +370,19 @@ impl GridFunctions3D for CylindricalGrid3D {
     }
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
-        // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
-            / (self.limits[axis][1] - self.limits[axis][0])
-            * self.cells[axis] as f64) as usize;
+        let cell_id = if axis == 0 {
+            // radial cells are not equally wide
+            self.rpositions
+                .iter()
+                .rposition(|radius| position >= radius[0] && position <= radius[1])
+                .unwrap_or_else(|| panic!("Cylindrical Grid: No cell at radius {:?}", position))
+        } else {
+            let cell_id = ((position - self.limits[axis][0])
+                / (self.limits[axis][1] - self.limits[axis][0])
+                * self.cells[axis] as f64) as usize;
+            // the upper limit belongs to the last cell
+            cell_id.min(self.cells[axis] - 1)
+        };
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From d00399dc229cc130239017a800ae3c27c850f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 13/46] fix: cylindrical velocity components are taken around
 the grid's axis

---
 src/grid/vector_grid.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..59604e7 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,9 +36,11 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
-            let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
-            let vel_omega =
-                (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
+            // angle and radius are measured around the axis of the grid
+            let center = self.cyl_grid.center();
+            let (x, y) = (pos[0] - center[0], pos[1] - center[1]);
+            let vel_radial = (x * vel[0] + y * vel[1]) / cyl_pos[0];
+            let vel_omega = (x * vel[1] - y * vel[0]) / (x * x + y * y);
             let vel_z = vel[2];
             vel = [vel_radial, vel_omega, vel_z];
         }
-- 
2.43.0


From 418b129346a2a6bac55ac536c954d57fbca5e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 14/46] fix: outlier removal does not overflow at the edge of
 the grid

---
 src/grid/cartesian_grid.rs   | 38 ++++++++++++++++++------------------
 src/grid/cylindrical_grid.rs | 38 ++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index d2c41a8..4ff42d9 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -505,30 +505,30 @@ impl GridFunctions3D for CartesianGrid3D {
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 25d67cc..34f5074 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -470,30 +470,30 @@ impl GridFunctions3D for CylindricalGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
-- 
2.43.0


From d9c2de5e20658383c817b8d2b44b680aefa5895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 15/46] fix: circulation times compare a timestep with the one
 before it, selected or not

A timestep outside the selector's window was never remembered, so the first selected timestep was
compared with timestep 0 and a crossing long before the window was counted inside it.
---
 src/functions/conditional.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 3c89375..2342e9e 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -27,6 +27,7 @@ pub trait Conditional: DataManager {
             // check if timestep is in the timeframe given
             if !selector.timestep_valid(current_time) {
                 print_debug!("Timestep {} is not valid", timestep);
+                old_timestep = timestep_data.to_owned();
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
@@ -116,6 +117,7 @@ pub trait Conditional: DataManager {
             // check if timestep is in the timeframe given
             if !selector.timestep_valid(current_time) {
                 print_debug!("Timestep {} is not valid", timestep);
+                old_timestep = timestep_data.to_owned();
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
-- 
2.43.0


From ec82938f65d9e3fd14f3e7a1fbdf089c84059030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 16/46] fix: a particle leaves one region before it enters the
 other

A step from above the upper to below the lower boundary lost the entry, and a step from below the
lower to above the upper one was taken as entry first, which closed a circulation that never was.
---
 src/functions/conditional.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 2342e9e..8200daf 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -153,24 +153,8 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
-                if pos > boundary_position.1 && old_pos < boundary_position.1 {
-                    count += 1;
-                    //println!("particle inside upper ");
-    
-                    // if particle before was below
-                    if start_flag_array[particle] == 2 {
-                        // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
-                        }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
-                        //up_times.push(current_time - mid_time_flag_array[particle]);
-                        // One more flag to make shure up time only counted once
-                    }
-                }
                 // particle crosses out of upper border
-                else if pos < boundary_position.1 && old_pos > boundary_position.1 {
+                if pos < boundary_position.1 && old_pos > boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -191,7 +175,6 @@ pub trait Conditional: DataManager {
                     } else if start_flag_array[particle] == 2 {
                         mid_time_flag_array[particle] = current_time;
                     }
-                    continue;
                 }
     
                 //println!("Middle_check done");
@@ -231,6 +214,23 @@ pub trait Conditional: DataManager {
                         mid_time_flag_array[particle] = current_time;
                     }
                 }
+                // only now enter the upper region: a jump out of the lower one comes first
+                if pos > boundary_position.1 && old_pos < boundary_position.1 {
+                    count += 1;
+                    //println!("particle inside upper ");
+    
+                    // if particle before was below
+                    if start_flag_array[particle] == 2 {
+                        // say " particle was in the other region"
+                        if mid_flag_array[particle] == 0 {
+                            //down_times.push(current_time - time_flag_array[particle]);
+                        }
+                        mid_flag_array[particle] = 1;
+                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
+                        //up_times.push(current_time - mid_time_flag_array[particle]);
+                        // One more flag to make shure up time only counted once
+                    }
+                }
                 //println!("check done");
             } // end particle for loop
 
-- 
2.43.0


From 60206fecdb2a1cc98fc602094f30afb17272c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 17/46] fix: the closest timestep to a time is the closest one

The search stopped at any timestep within 0.01 s, however many lay closer, and otherwise returned
whichever neighbour it looked at last.
---
 src/datamanager.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..12d0f6f 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -81,8 +81,8 @@ impl GlobalStats {
         print_warning!("This function is not tested yet!");
         // finding index in ordered list of self.time_array
         // using the binary search algorithm
-        let mut low = 0;
-        let mut high = self.time_array.len() - 1;
+        let low = 0;
+        let high = self.time_array.len() - 1;
 
         if self.time_array[high] < seconds {
             return Err("Timestep is greater than the number of timesteps");
@@ -90,18 +90,12 @@ impl GlobalStats {
         if self.time_array[low] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
-        while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
-                return Ok(mid);
-            } else if self.time_array[mid] < seconds {
-                low = mid + 1;
-            } else {
-                high = mid - 1;
-            }
+        let times = self.time_array.as_slice().unwrap();
+        let after = times.partition_point(|time| *time < seconds);
+        if after > low && seconds - times[after - 1] <= times[after] - seconds {
+            return Ok(after - 1);
         }
 
-        Ok(mid)
+        Ok(after)
     }
 }
-- 
2.43.0


From b8a2be8935ca1454fd6c7674e726d0faf7b1b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 18/46] fix: later positions are those of the same particle

Occupancy, dispersion and mean square displacement took the later position from the same place of
the later timestep, whichever particle was there, and dispersion and displacement panicked when it
had fewer particles.
---
 src/functions.rs        | 13 ++++++++++++-
 src/functions/mixing.rs |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 98187a6..f3fefc6 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -328,6 +328,7 @@ pub trait Granular: DataManager {
             print_debug!("Timestep {} is valid", timestep);
             let positions = timestep_data.position();
             let next_positions = next_timestep_data.position();
+            let next_particle_ids = next_timestep_data.particleid();
             let velocities = timestep_data.velocity();
             let particle_ids = timestep_data.particleid();
             let rad_array = timestep_data.radius();
@@ -382,11 +383,14 @@ pub trait Granular: DataManager {
                     print_warning!("Occupyfield: timestep is negative");
                     continue;
                 }
-                //TODO BUG this is not valit code. we must check which particle is at which position
                 if next_positions.len() <= particle {
                     print_warning!("Occupyfield: next timestep has less particles");
                     continue;
                 }
+                if next_particle_ids[particle] != particle_ids[particle] {
+                    print_warning!("Occupyfield: next timestep has another particle here");
+                    continue;
+                }
                 occupancy_grid.add_trajectory_value(position, next_positions[particle], time_spent);
                 complete_time += time_spent;
             }
@@ -529,6 +533,7 @@ pub trait Granular: DataManager {
             //println!("Next time is {}", *timestep_future.time());
             print_debug!("extracting position");
             let position_future = timestep_future.position();
+            let particle_ids_future = timestep_future.particleid();
             print_debug!("Starting particle loop");
 
             for particle in 0..particles {
@@ -557,6 +562,12 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
+                if position_future.len() <= particle
+                    || particle_ids_future[particle] != particle_ids[particle]
+                {
+                    print_debug!("Particle {} is not in the later timestep", particle);
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 4e8f956..9d1ea6b 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -247,6 +247,7 @@ pub trait Mixing: DataManager {
             let timestep_future = self.get_timestep_buffer(next_timestep, 0);
             print_debug!("extracting position");
             let position_future = timestep_future.position();
+            let particle_ids_future = timestep_future.particleid();
             print_debug!("Starting particle loop");
 
             for particle in 0..particles {
@@ -264,6 +265,12 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
+                if position_future.len() <= particle
+                    || particle_ids_future[particle] != particle_ids[particle]
+                {
+                    print_debug!("Particle {} is not in the later timestep", particle);
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-- 
2.43.0


From bc4a711e4fe98388f9c5929b20e7dd3e65337323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 19/46] fix: planes across the y axis are drawn at x positions

---
 src/plotting/plotting_2d/parity_contour.rs | 8 ++++----
 src/plotting/plotting_2d/parity_map.rs     | 8 ++++----
 src/plotting/plotting_2d/quiver.rs         | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index d22f355..c577313 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -18,7 +18,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -70,7 +70,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -133,7 +133,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -168,7 +168,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 4c74925..36ae3ad 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -20,7 +20,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -72,7 +72,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -135,7 +135,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -170,7 +170,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/quiver.rs b/src/plotting/plotting_2d/quiver.rs
index 99d5b55..59f7924 100644
--- a/src/plotting/plotting_2d/quiver.rs
+++ b/src/plotting/plotting_2d/quiver.rs
@@ -42,7 +42,7 @@ impl QuiverPlot {
 
     pub fn from_vector_grid_depth_averaged(grid: VectorGrid, axis: usize) -> QuiverPlot {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             grid.get_ypositions().to_owned()
         } else {
             grid.get_xpositions().to_owned()
-- 
2.43.0


From 50a9c9d25a16685e0aca096a44e631668a5f3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 20/46] fix: earlier timesteps are found again in extra buffers
 of timestep files

---
 src/datamanager/tdata.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..0f9f6ff 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1096,17 +1096,10 @@ impl DataManager for TData {
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
             );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
-            self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
-                buffer_id,
-            );
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // If a timestep below the current range is requested, update buffer
+            let chunk = (timestep as f64 / BUFFERSIZE as f64).floor() as usize;
+            self.update_extra((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE), buffer_id);
         }
         &self.buffer_extra[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
-- 
2.43.0


From cfaa85cd5c1f25bad5f2824f233f0a4ebae17e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 21/46] fix: extra buffers of particle files return their own
 timesteps

---
 src/datamanager/pdata.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..1f14b2c 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1113,18 +1113,17 @@ impl DataManager for PData {
             self.range_extra[buffer_id]
         );
         if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range_extra[buffer_id].0 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+            self.update_extra(
+                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                buffer_id,
+            );
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // If a timestep below the current range is requested, update buffer
+            let chunk = (timestep as f64 / BUFFERSIZE as f64).floor() as usize;
+            self.update_extra((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE), buffer_id);
         }
 
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
-- 
2.43.0


From ce667f606904a24eafc9f6ca2f355a6bca1cbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 22/46] fix: unbuffered timesteps of particle files hold every
 particle

---
 src/datamanager/pdata.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 1f14b2c..e5c6776 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -119,12 +119,11 @@ impl PData {
                 })
                 .slice(s![timestep, ..])
                 .to_owned()
-                .into_shape((particles, 3))
+                .into_shape((1, 3))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
+                        "Can not shape dataset \"position\" in file {} into a (1, 3) array",
+                        self.file.filename()
                     )
                 })
                 .axis_iter(Axis(0))
@@ -311,7 +310,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = part_pos[0];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
-- 
2.43.0


From 43073aef837bf6e834e22d31b38dee7ffbd3fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 23/46] fix: particle files without densities use ones, as
 announced

---
 src/datamanager/pdata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index e5c6776..8e45537 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -277,7 +277,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    1.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -520,7 +520,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
@@ -782,7 +782,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
-- 
2.43.0


From df303854b52b35136f1e0756a13247716a2f4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 24/46] fix: extra buffers are found by the identifier they
 were set up with

---
 src/datamanager/pdata.rs | 11 ++++++++++-
 src/datamanager/tdata.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 8e45537..a80ae7c 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1102,7 +1102,16 @@ impl DataManager for PData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(
+        &mut self,
+        timestep: usize,
+        external_buffer_id: usize,
+    ) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .expect("Buffer was not set up");
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 0f9f6ff..7e572be 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1082,7 +1082,16 @@ impl DataManager for TData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(
+        &mut self,
+        timestep: usize,
+        external_buffer_id: usize,
+    ) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .expect("Buffer was not set up");
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
-- 
2.43.0


From 7aa24a254f42344bed1dff67a0cfdf2bbe02a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 25/46] fix: index slices of Data by their length, also
 backwards and with steps that do not divide it

---
 src/pylib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index 03afd11..3fc2219 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -896,13 +896,12 @@ impl PyData {
             let indices = slice.indices(*self.data.global_stats().timesteps() as i64).expect(
                 "Could not get indices"
             );
-            let start = indices.start;
-            let stop = indices.stop;
-            let step = indices.step;
+            // the slice may run backwards, and its step need not divide its extent
             let mut result = ndarray::Array3::<f64>::zeros(
-                [((stop - start) / step) as usize, *self.data.global_stats().nparticles(), 7]
+                [indices.slicelength as usize, *self.data.global_stats().nparticles(), 7]
             );
-            for (i, index) in (start..stop).step_by(step as usize).enumerate() {
+            for i in 0..indices.slicelength as usize {
+                let index = indices.start + i as isize * indices.step;
                 let timestep = self.data.get_timestep(index as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From d8dbb8cdcdb7e205220342ff45b381cf38151cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:53 +0000
Subject: [PATCH 26/46] fix: documented defaults of Converter.csv_multi

---
 src/pylib/libconv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index 291c5d8..e19c343 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -461,13 +461,13 @@ impl PyConverter {
         filename,
         outname,
         columns = vec![0,1,2,3],
-        delimiter = "\",\"",
+        delimiter = ",",
         header = true,
-        comment = "\"#\"",
+        comment = "#",
         vel = false,
         interpolate = false,
         radius = 0.0,
-        method = "\"id_line\""
+        method = "chain"
     ))]
     #[staticmethod]
     fn csv_multi(
-- 
2.43.0


From 946f3e0477f3636e799174e978eb69d76a7b123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 27/46] fix: the axis Grid.plot plots along may be left out, as
 documented

---
 src/pylib/libgrid.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pylib/libgrid.rs b/src/pylib/libgrid.rs
index 7482e26..9b931f7 100644
--- a/src/pylib/libgrid.rs
+++ b/src/pylib/libgrid.rs
@@ -241,6 +241,7 @@ impl PyGrid {
     /// -------
     /// None
     ///
+    #[pyo3(signature = (axis = 0))]
     fn plot(&self, axis: usize) {
         let mut plot = Plot::new();
         let vec2d = self
-- 
2.43.0


From 06de07d06e3ebc3fbd95c0b0ba4443c34ebbbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 28/46] fix: folders of modern vtk files are converted

---
 src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..31e9311 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -539,7 +539,10 @@ impl XMLVTKConverter {
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            let is_vtk = filename.ends_with(".vtk")
+                || filename.ends_with(".vtu")
+                || filename.ends_with(".vtp");
+            if is_vtk && !filename.contains("boundingBox") {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From 48256708a4649c603a1e1f60bd10c8d25b81da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 29/46] fix: the largest value of a falling series is recorded
 by converters

---
 src/converter.rs                              | 33 ++++++++++++-------
 src/converter/csv_modes/csv_multi_chain.rs    | 15 ++++++---
 .../csv_modes/csv_multi_file_time_step.rs     |  9 +++--
 src/converter/csv_modes/csv_multi_idline.rs   | 15 ++++++---
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 31e9311..d303cc4 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -743,7 +748,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -751,7 +757,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -776,7 +783,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1169,7 +1177,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1177,7 +1186,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1200,7 +1210,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..220502b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..1e4484a 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..d2f4713 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
-- 
2.43.0


From a57daa646cca5c831ea84689622cf65a2e3df485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 30/46] fix: rows of a csv file at and before time zero are
 kept

---
 src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index d303cc4..c700bba 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
-- 
2.43.0


From e32cb4e0c0c1482de77ab16871a9165b2aeea4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 31/46] fix: every array of a converted csv file has a value
 for each row that was kept

---
 src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index c700bba..09784b5 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -282,7 +282,10 @@ pub fn csv_converter(
     let pos_array = pos_array.slice(s![ ..pos_array.shape()[0] - total_failcount, ..]);
     let vel_array = vel_array.slice(s![ ..vel_array.shape()[0] - total_failcount, ..]);
     let timesteps = time_array.len();
-    
+    let particle_id_array = particle_id_array.slice(s![..timesteps]);
+    let particle_radius_array = particle_radius_array.slice(s![..timesteps]);
+    let ppclouds_array = ppclouds_array.slice(s![..timesteps]);
+    let particle_type_array = particle_type_array.slice(s![..timesteps]);
     let builder = make_dataset_builder!(group);
     builder
         .with_data(&time_array)
-- 
2.43.0


From b345388449a39f28affcf87b1717dacfa76d9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 32/46] fix: derived velocities are those of the time of their
 row

---
 src/converter/convertertools.rs                   | 6 +++---
 src/converter/convertertools/velocity_paralell.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..0d9ca6e 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -170,21 +170,21 @@ pub fn velocity_polynom(
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index eb6a3c9..a1216e1 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -57,21 +57,21 @@ pub fn velocity_polynom_parallel(
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vy: f64 = param_y
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vz: f64 = param_z
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             result_array[0] = datasegment[[(sampling_steps - 1) / 2, 0]];
-- 
2.43.0


From 6a5f5367a56b8f7f2fc4e5d2185138fb93a1f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 33/46] fix: csv_multi_files records the radius given

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 1e4484a..eb38736 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -123,9 +123,10 @@ pub fn csv_multi_file_time_step(
             .unwrap_or_else(|_| panic!("Unable to create dataset \"id\" in file {}", filename));
         //TODO: add a dict to that to read in other columns!
         let builder = group.new_dataset_builder();
+        let radius_array = vec![radius; particle_id.len()];
         let zero_array = vec![0.0; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&radius_array)
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From 83224fc56ef532e62bbdd1a1d9a9ff3f203f38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 34/46] fix: files of several particles say how many, and their
 types, as readers expect

---
 src/converter/csv_modes/csv_multi_chain.rs  | 6 +++---
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 220502b..f4a30cf 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -314,10 +314,10 @@ pub fn csv_multi_chain(
         let builder = group.new_dataset_builder();
         builder
             .with_data(&particle_type_array)
-            .create("particleid")
+            .create("particletype")
             .unwrap_or_else(|_| {
                 panic!(
-                    "Unable to create dataset \"particleid\" in file {}",
+                    "Unable to create dataset \"particletype\" in file {}",
                     filename
                 )
             });
@@ -359,7 +359,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index d2f4713..e87295d 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -331,7 +331,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From e18a148aabc0a198c32515a012ce8593befff61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 35/46] fix: rows of several particles at and before time zero
 are kept

---
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index f4a30cf..f5ffd2c 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,7 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index e87295d..777cafa 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,7 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
-- 
2.43.0


From 7ade46b0048d35eb6fc87bdfabad0d3695f42d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 36/46] fix: interpolated positions are a constant time apart

---
 src/converter/convertertools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 0d9ca6e..bbbdd65 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -29,7 +29,7 @@ pub fn interpolate(
 
     let maxtime = max_time;
     let timesteps = steps;
-    let dt = maxtime / timesteps as f64;
+    let dt = maxtime / (timesteps - 1) as f64;
     // First timestep:
     let mut interp_data = ndarray::Array2::<f64>::zeros((steps, 4));
     // first timestep:
-- 
2.43.0


From 9f7b7bab98647d83641c1d1e79a3e360c6b68730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 37/46] fix: the last particle of a csv file of several
 particles is converted

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index f5ffd2c..a0e3661 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,6 +84,10 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
+        // the last particle ends with the file
+        duration.push(old_time);
+        steps_per_particle.push(data.shape()[0] - indx_start[particles]);
+        particles += 1;
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
-- 
2.43.0


From db04457badebd9e7e23e3dba3e6c892d4202b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:28 +0000
Subject: [PATCH 38/46] fix: csv files of trajectories record when they start

---
 src/converter.rs                                    | 5 +++++
 src/converter/csv_modes/csv_multi_chain.rs          | 5 +++++
 src/converter/csv_modes/csv_multi_file_time_step.rs | 5 +++++
 src/converter/csv_modes/csv_multi_idline.rs         | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/converter.rs b/src/converter.rs
index 09784b5..5249f25 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -163,6 +163,8 @@ pub fn csv_converter(
     // ######### arrays for Attributes:
     let timesteps: usize = data_length;
     let mut time: Array1<f64> = Array1::<f64>::zeros(2);
+    time[0] = f64::MAX;
+    time[1] = f64::MIN;
     let mut sample_rate: f64 = 0.0;
     //velocity: [x:[min, mean, max],y:[min,mean,max],z:[min,mean,max]]
     let mut velocity: Array2<f64> = Array2::<f64>::zeros((3, 3));
@@ -267,6 +269,9 @@ pub fn csv_converter(
         step += 1;
         mean_counter += 1;
         sample_rate = current_time - old_time;
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index a0e3661..671998a 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -176,6 +176,8 @@ pub fn csv_multi_chain(
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
     let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    time[0] = f64::MAX;
+    time[1] = f64::MIN;
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     for (p_id, data) in particle_data.iter().enumerate() {
@@ -285,6 +287,9 @@ pub fn csv_multi_chain(
             //step += 1;
             mean_counter += 1;
             sample_rate = current_time - old_time;
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index eb38736..d65357e 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -56,6 +56,8 @@ pub fn csv_multi_file_time_step(
     let mut nparticles: u64 = 0;
     let timesteps: usize = filenames.len();
     let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    time[0] = f64::MAX;
+    time[1] = f64::MIN;
     let mut time_array = Vec::<f64>::new();
     let mut sample_rate: f64 = 0.0;
     let mut old_time = 0.0;
@@ -74,6 +76,9 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 777cafa..8e07c3d 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -143,6 +143,8 @@ pub fn csv_multi_idline(
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
     let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    time[0] = f64::MAX;
+    time[1] = f64::MIN;
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     bar.inc(10);
@@ -254,6 +256,9 @@ pub fn csv_multi_idline(
             //step += 1;
             mean_counter += 1;
             sample_rate = current_time - old_time;
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
-- 
2.43.0


From d02a3d580f8cd456b3e9906a3406308731b1ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:48 +0000
Subject: [PATCH 39/46] fix: files of several csv files record the most
 particles of any of them

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index d65357e..053c824 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -206,7 +206,7 @@ pub fn csv_multi_file_time_step(
                 panic!("Unable to create dataset \"position\" in file {}", filename)
             });
         mean_counter += particle_id.len();
-        nparticles = particle_id.len() as u64;
+        nparticles = nparticles.max(particle_id.len() as u64);
         sample_rate = current_time - old_time;
         old_time = current_time;
         if id % 10 == 0 {
-- 
2.43.0


From 777b825de7e7cba0553c1d67b65c709b6bc6930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:48 +0000
Subject: [PATCH 40/46] fix: files converted from vtk files record at least as
 many particles as there are

---
 src/converter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 5249f25..928a5a9 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -677,7 +677,8 @@ impl XMLVTKConverter {
             };
             let sort_list = make_sortlist(&particle_ids);
             let particle_ids = sort_by_array(particle_ids, &sort_list);
-            let max_particle = *particle_ids.iter().max().unwrap();
+            // identifiers counted from zero stay below the number of particles
+            let max_particle = (*particle_ids.iter().max().unwrap()).max(particle_ids.len() as u64);
             if max_particle > nparticles {
                 nparticles = max_particle
             }
@@ -1106,7 +1107,8 @@ impl LegacyVTKConverter {
             };
             let sort_list = make_sortlist(&particle_ids);
             let particle_ids = sort_by_array(particle_ids, &sort_list);
-            let max_particle = *particle_ids.iter().max().unwrap();
+            // identifiers counted from zero stay below the number of particles
+            let max_particle = (*particle_ids.iter().max().unwrap()).max(particle_ids.len() as u64);
             if max_particle > nparticles {
                 nparticles = max_particle
             }
-- 
2.43.0


From 72ed2ffee230c9dedc4a05c227938a59b81a8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 41/46] fix: positions are interpolated between the rows around
 their time however dense the rows are

---
 src/converter/convertertools.rs | 35 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index bbbdd65..44c0f50 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -47,32 +47,17 @@ pub fn interpolate(
     for step in 1..timesteps - 1 {
         let time_new = step as f64 * dt;
         // find the next indx in the real data which may be the old one
-        real_step = {
-            // if the temporal distance between new time and old time is smaller
-            // then distance between new time and next time return old timestep
-            print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
-                let old_time = time[real_step];
-                let new_time = time[real_step + 1];
-                print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
-                }
+        // move on until the temporal distance between new time and old time is smaller
+        // than the distance between new time and next time
+        while real_step < time.len() - 1 {
+            let old_time = time[real_step];
+            let new_time = time[real_step + 1];
+            print_debug!("Old time: {} New time: {}", old_time, new_time);
+            if new_time >= old_time && (time_new - old_time).abs() < (time_new - new_time).abs() {
+                break;
             }
-            real_step
-        };
+            real_step += 1;
+        }
         print_debug!("Interpolate:  step: {}, real_step: {}, time_new: {}, time[real_step]: {}, time[real_step+1]: {}", step, real_step, time_new, time[real_step], time[real_step+1]);
 
         if real_step >= data.shape()[0] - 1 {
-- 
2.43.0


From 804e7f97372dad34b5a6094919f159ba0adb30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:41 +0000
Subject: [PATCH 42/46] fix: velocities of long trajectories are derived from
 as many rows as those of short ones

---
 src/converter/convertertools/velocity_paralell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index a1216e1..7694dff 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -19,11 +19,11 @@ pub fn velocity_polynom_parallel(
     }
     //let bar = setup_bar!("Velocity Calc", data.column(0).len());
     let x: Vec<ndarray::Array2<f64>> = data
-        .windows((7, 7))
+        .windows((sampling_steps, data.ncols()))
         .into_iter()
         .map(|x| {
             println!("{:?}", x);
-            x.to_owned().into_shape((7, 7)).unwrap()
+            x.to_owned()
         })
         .collect();
 
-- 
2.43.0


From 0b8cbba7d98b07def270732389907e32ea8e940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:44 +0000
Subject: [PATCH 43/46] fix: every particle of a csv file has an identifier of
 its own

---
 src/converter/csv_modes/csv_multi_chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 671998a..79ebdba 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -191,7 +191,7 @@ pub fn csv_multi_chain(
 
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
-        let particle_id_array = ndarray::Array1::<f64>::ones(data_length);
+        let particle_id_array = ndarray::Array1::from_elem(data_length, p_id as f64);
         let particle_radius_array = ndarray::Array1::from_elem(data_length, radius);
         let ppclouds_array = ndarray::Array1::<f64>::ones(data_length);
         let particle_type_array = ndarray::Array1::<f64>::ones(data_length);
-- 
2.43.0


From 4a02bfb579f4398249fe2dc7650e062cdaa1c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:14 +0000
Subject: [PATCH 44/46] fix: rows left out of csv files of several particles
 leave no gap behind

---
 src/converter/csv_modes/csv_multi_chain.rs  | 30 ++++++++++++++-------
 src/converter/csv_modes/csv_multi_idline.rs | 30 ++++++++++++++-------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 79ebdba..17df184 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -183,9 +183,6 @@ pub fn csv_multi_chain(
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         let bar = setup_bar!("Converting", data_length);
         // Attributes
 
@@ -198,6 +195,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut kept: usize = 0; // lines of this particle that are kept
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -225,7 +223,7 @@ pub fn csv_multi_chain(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            time_array[kept] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             old_time = current_time;
@@ -233,15 +231,15 @@ pub fn csv_multi_chain(
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[kept, 0]] = pos_x;
+            pos_array[[kept, 1]] = pos_y;
+            pos_array[[kept, 2]] = pos_z;
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[kept, 0]] = v_x;
+            vel_array[[kept, 1]] = v_y;
+            vel_array[[kept, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -286,6 +284,7 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
+            kept += 1;
             sample_rate = current_time - old_time;
             if current_time < time[0] {
                 time[0] = current_time;
@@ -299,6 +298,17 @@ pub fn csv_multi_chain(
                 check_signals!();
             }
         } // end filename forloop
+        if kept > timesteps {
+            timesteps = kept;
+        }
+        // lines that were ignored leave no gap behind
+        time_array = time_array.slice(ndarray::s![..kept]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..kept]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..kept]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..kept]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..kept]);
+        let vel_array = vel_array.slice(ndarray::s![..kept, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..kept, ..]);
           // write data into HDF5 file
         let builder = group.new_dataset_builder();
         builder
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 8e07c3d..9639d95 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -152,9 +152,6 @@ pub fn csv_multi_idline(
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
@@ -166,6 +163,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut kept: usize = 0; // lines of this particle that are kept
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -193,7 +191,7 @@ pub fn csv_multi_idline(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            time_array[kept] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             old_time = current_time;
@@ -201,16 +199,16 @@ pub fn csv_multi_idline(
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[kept, 0]] = pos_x;
+            pos_array[[kept, 1]] = pos_y;
+            pos_array[[kept, 2]] = pos_z;
             println!("{:?}", line);
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[kept, 0]] = v_x;
+            vel_array[[kept, 1]] = v_y;
+            vel_array[[kept, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -255,6 +253,7 @@ pub fn csv_multi_idline(
             }
             //step += 1;
             mean_counter += 1;
+            kept += 1;
             sample_rate = current_time - old_time;
             if current_time < time[0] {
                 time[0] = current_time;
@@ -267,6 +266,17 @@ pub fn csv_multi_idline(
                 check_signals!();
             }
         } // end filename forloop
+        if kept > timesteps {
+            timesteps = kept;
+        }
+        // lines that were ignored leave no gap behind
+        time_array = time_array.slice(ndarray::s![..kept]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..kept]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..kept]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..kept]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..kept]);
+        let vel_array = vel_array.slice(ndarray::s![..kept, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..kept, ..]);
           // write data into HDF5 file
         let builder = group.new_dataset_builder();
         builder
-- 
2.43.0


From f363a978fd6c2b83b82fed8e495b9b756c2a70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 45/46] fix: cells of a size asked for fill the limits given,
 not the extents of the data

---
 up4/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 29bd6f8..a24f49e 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -14,7 +14,7 @@ from upppp_rust import Data
 
 
 def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
-    if data is not None:
+    if data is not None and limits is None:
         xmin, ymin, zmin = data.min_position()
         xmax, ymax, zmax = data.max_position()
         if xlim is not None:
@@ -30,7 +30,7 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         num_cells = np.zeros(3)
         for i in range(3):
             num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
-        return num_cells
+        return np.array(num_cells, dtype=np.int64)
     elif limits is not None:
         num_cells = np.zeros(3)
         for i in range(3):
-- 
2.43.0


From 0e1768e305c310fbf9b2179f3cabc3f82a461150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 46/46] fix: unit vector plots check the maximum size given

---
 up4/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/up4/plotting.py b/up4/plotting.py
index ba0f815..8a4fb3b 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -325,7 +325,7 @@ class Plotter2D:
             index,
             scaling_mode=scaling_mode,
             min_size=min_size,
-            max_size=min_size,
+            max_size=max_size,
             colour_map=colour_map,
         )
         self._plotter._unit_vector_plot(
-- 
2.43.0

