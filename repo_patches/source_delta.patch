From dc10af64242a8cfa1f57ac9e7256c2365af38f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 01/59] fix: diff and diff_abs panicked on empty and
 single-element input

---
 src/tools/vector.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tools/vector.rs b/src/tools/vector.rs
index 201202c..3ca96f1 100644
--- a/src/tools/vector.rs
+++ b/src/tools/vector.rs
@@ -17,11 +17,9 @@ pub fn diff<T>(data: &[T]) -> Vec<T>
 where
     T: std::ops::Sub<Output = T> + Copy,
 {
-    let last = data.len() - 1;
-
-    (0..last + 1)
+    (0..data.len())
         .map(|i| match i {
-            0 => data[1] - data[0],
+            0 => data[1.min(data.len() - 1)] - data[0],
             _ => data[i] - data[i - 1],
         })
         .collect()
@@ -29,11 +27,9 @@ where
 
 /// Returns the difference between the arrays n and n+1 items in a new vector with absolute value applied
 pub fn diff_abs(data: &[f64]) -> Vec<f64> {
-    let last = data.len() - 1;
-
-    (0..last + 1)
+    (0..data.len())
         .map(|i| match i {
-            0 => (data[1] - data[0]).abs(),
+            0 => (data[1.min(data.len() - 1)] - data[0]).abs(),
             _ => (data[i] - data[i - 1]).abs(),
         })
         .collect()
-- 
2.43.0


From 6b41833198d143979ff99b57b70b40145fdd2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 02/59] fix: Fahrenheit to Celsius subtracted 32 after scaling
 it

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..a3c5363 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -170,7 +170,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
-- 
2.43.0


From af4d6c233746815387b7a28df7e9aab8e0c21d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 03/59] fix: watershed never reassigned a shed cell whose
 closest neighbour came first in its list

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..7ad75af 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -392,7 +392,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From a72974c07755f61cab543ebe70f08be8062c330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 04/59] fix: nearest_neighbors repeated the bottom neighbour in
 place of the bottom left one

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 7ad75af..57a923e 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From 89b47e3a108a0b730e4ac2a1c742d15a3e0b02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 05/59] fix: watershed left cells of wide sheds in no partition

---
 src/tools/analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 57a923e..682fc2f 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -376,7 +376,8 @@ pub fn watershed(
     // Find nearest neighbor of 0 watershed points and replace
     // use original input to check which group to affiliate with 0
     // Soring changes first in IMD to assure symetry in adjustment.
-    for _ in 0..5 {
+    // A pass reaches one cell further into a watershed, which can be as long as the grid.
+    for _ in 0..count {
         imd = imo.clone();
 
         for jl in 0..count {
-- 
2.43.0


From 013f182b7a66c20235fa8f7997592cef176c5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 06/59] fix: track_partitions gave new partitions ids the first
 step already uses

---
 src/tools/waves.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..f824585 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -271,10 +271,14 @@ pub fn track_partitions(
         return inputs.iter().map(|x| x.1.to_vec()).collect();
     }
 
-    // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
+    // All of the partitions are candidates for tracking in the first time step and keep their
+    // original partition id, so new ids start after the highest of those.
+    let mut partition_count = inputs[0]
+        .1
+        .iter()
+        .filter_map(|s| s.partition)
+        .max()
+        .map_or(0, |id| id + 1);
 
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
-- 
2.43.0


From 34d94afe51cbf3a71c888c46a4b7b88775914e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 07/59] fix: track_partitions measured direction changes across
 north as far apart

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index f824585..e7322a5 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -312,7 +312,7 @@ pub fn track_partitions(
                     .map(|(ipp, prev_p)| {
                         let prev_partition_dir = prev_p.direction.get_value().degrees;
                         let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                            ((partition_dir - prev_partition_dir + 180).rem_euclid(360) - 180).abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
-- 
2.43.0


From 98b5df2d970350089f5018aff80971efa7d17b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 08/59] fix: track_partitions failed after steps without swells
 and on scores that are no number

---
 src/tools/waves.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index e7322a5..d3cc710 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -325,29 +325,24 @@ pub fn track_partitions(
                         .abs();
                         (icp, ipp, score)
                     })
-                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
-            })
-            .sorted_by(|a, b| {
-                a.as_ref()
-                    .unwrap()
-                    .2
-                    .partial_cmp(&b.as_ref().unwrap().2)
-                    .unwrap()
+                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.total_cmp(b))
+                    .map_or((icp, None, 999.99), |(icp, ipp, score)| (icp, Some(ipp), score))
             })
+            .sorted_by(|(_i, __i, a), (_ii, __ii, b)| a.total_cmp(b))
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
-        for m in matches {
-            if let Some((icp, ipp, score)) = m {
-                let (ipp, _) = partition_map[i - 1][ipp];
-                if hit.contains(&ipp) || score > 999.0 {
-                    partition_map[i][icp] = (partition_count, 0.0);
-                    partition_count += 1;
-                } else {
+        for (icp, ipp, score) in matches {
+            match ipp.map(|ipp| partition_map[i - 1][ipp].0) {
+                Some(ipp) if !hit.contains(&ipp) && !(score > 999.0) => {
                     //println!("Hit: {} score {}", ipp, score);
                     partition_map[i][icp] = (ipp, score);
                     hit.insert(ipp);
                 }
+                _ => {
+                    partition_map[i][icp] = (partition_count, 0.0);
+                    partition_count += 1;
+                }
             }
         }
     }
-- 
2.43.0


From 8ed9b957038d60d3024fbc62806fc2beccacd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 09/59] fix: regridding zeroed the lowest source frequency when
 its logarithm rounded down

---
 src/spectra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..8190c85 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -601,8 +601,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if target_freq[ik_tgt] < src_freq_min {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From d6fcf81bfe89636e05509cc97e29d7a98f8883e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 10/59] fix: axis values at whole indices were not a number

---
 src/spectra.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 8190c85..e327701 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -145,7 +145,7 @@ impl Spectra {
     /// Interpolated frequency for a given index
     pub fn ik(&self, f_index: f64) -> f64 {
         let i_lower = f_index.floor();
-        let i_upper = f_index.ceil();
+        let i_upper = i_lower + 1.0;
 
         if i_upper >= self.nk() as f64 {
             return self.frequency[self.frequency.len() - 1];
@@ -164,7 +164,7 @@ impl Spectra {
     /// Used by the contour generator that does smoothing on its own
     pub fn ith(&self, d_index: f64) -> f64 {
         let i_lower = d_index.floor();
-        let i_upper = d_index.ceil();
+        let i_upper = i_lower + 1.0;
 
         if i_upper >= self.nth() as f64 {
             return self.direction[self.direction.len() - 1];
-- 
2.43.0


From 1be54db5dc8df10a5a2d5285320757fe63e43403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 11/59] fix: point queries of spectra looked in the wrong cell
 and across north

---
 src/spectra.rs | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index e327701..8165bc0 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::TAU;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -181,11 +183,10 @@ impl Spectra {
 
     /// Interpolated frequency index bounds for a given frequency
     pub fn closest_k(&self, freq: f64) -> (usize, usize) {
-        let lower = self
-            .frequency
-            .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
+        let lower = match self.frequency.iter().rposition(|f| f.le(&freq)) {
+            Some(lower) => lower,
+            None => return (0, 0),
+        };
 
         if lower == self.frequency.len() - 1 {
             (lower, lower)
@@ -196,14 +197,21 @@ impl Spectra {
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
+        // Direction wraps around cuz its a circle
+        let closest = |offset: &dyn Fn(f64) -> f64| {
+            (0..self.direction.len()).min_by(|a, b| {
+                offset(self.direction[*a]).total_cmp(&offset(self.direction[*b]))
+            })
+        };
 
-        if lower == self.direction.len() - 1 {
-            // Direction wraps around cuz its a circle
-            (lower, 0)
-        } else {
-            (lower, lower + 1)
-        }
+        let lower = closest(&|d| (dir - d).rem_euclid(TAU)).unwrap_or(0);
+        let upper = closest(&|d| match (d - self.direction[lower]).rem_euclid(TAU) {
+            offset if offset > 0.0 => offset,
+            _ => TAU,
+        })
+        .unwrap_or(0);
+
+        (lower, upper)
     }
 
     pub fn energy_indices(&self) -> Vec<(usize, usize)> {
@@ -228,18 +236,23 @@ impl Spectra {
         let (x1, x2) = self.closest_k(freq);
         let (y1, y2) = self.closest_th(dir);
 
-        let f1 = self.frequency[x1];
-        let f2 = self.frequency[x2];
-
-        let d1 = self.direction[y1];
-        let d2 = self.direction[y2];
+        // Fractions of the way across the cell, which may wrap around the directions, or end at
+        // the last frequency
+        let x = match self.frequency[x2] - self.frequency[x1] {
+            width if width > 0.0 => (freq - self.frequency[x1]) / width,
+            _ => 0.0,
+        };
+        let y = match (self.direction[y2] - self.direction[y1]).rem_euclid(TAU) {
+            width if width > 0.0 => (dir - self.direction[y1]).rem_euclid(TAU) / width,
+            _ => 0.0,
+        };
 
         let a = self.energy_at(x1, y1);
         let b = self.energy_at(x2, y1);
         let c = self.energy_at(x1, y2);
         let d = self.energy_at(x2, y2);
 
-        bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &d1, &d2)
+        bilerp(&a, &b, &c, &d, &x, &0.0, &1.0, &y, &0.0, &1.0)
     }
 
     /// One dimensional representation of the energy across the given axis
-- 
2.43.0


From be559c834d23b39e00287e66000b7eb33300c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 12/59] fix: filtering swell components without a direction
 crashed

---
 src/swell.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/swell.rs b/src/swell.rs
index fca73d3..3c04a2d 100644
--- a/src/swell.rs
+++ b/src/swell.rs
@@ -129,19 +129,18 @@ impl SwellSummary {
                 continue;
             }
 
-            let truth_direction = self.components[i_components[0]]
-                .direction
-                .value
-                .as_ref()
-                .unwrap();
+            let truth_direction = match &self.components[i_components[0]].direction.value {
+                Some(direction) => direction,
+                None => continue,
+            };
 
             // Assuming sorted from max to min energy already
             for i in 1..i_components.len() {
                 let idx = i_components[i];
-                if truth_direction
-                    .is_opposite(self.components[idx].direction.value.as_ref().unwrap())
-                {
-                    indexes.push(idx);
+                if let Some(direction) = &self.components[idx].direction.value {
+                    if truth_direction.is_opposite(direction) {
+                        indexes.push(idx);
+                    }
                 }
             }
         }
-- 
2.43.0


From adf8d918c3aeb41f47e6c558b2832e31b41d5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 13/59] fix: swell heights weighed each frequency's energy by
 the bandwidth of the bin below

---
 src/tools/waves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index d3cc710..7deb310 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -420,7 +420,8 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        // sig and dsip start a bin below the first frequency
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
@@ -566,7 +567,7 @@ pub fn pt_mean(
             }
         }
 
-        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len() + 1]);
+        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len()]);
         sume[ip] += sumf[frequency.len() - 1][ip] * fteii;
         sume1[ip] += sumf[frequency.len() - 1][ip] * sig[frequency.len()] * fteii * (0.3333 / 0.25);
         sume2[ip] +=
-- 
2.43.0


From 0d41ad5d9e25821095e3e955ea51d1eef9433390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 14/59] fix: average period and mean direction of wave
 summaries came from the swell and wind direction columns

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..d408035 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -77,12 +77,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From 0e3bd839e0eea34ede6022fe1175641e2f821756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 15/59] fix: the steepness AVERAGE was not recognised as the
 files spell it

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..2a5a1c6 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" | "Average" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From 5636c2cca11872576e50533894f167f505839e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 16/59] fix: damaged rows of wave summaries crashed the reader

---
 src/data/wave_data_record.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index d408035..83c378a 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -31,16 +31,23 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid wave record: not enough columns".into(),
+            ));
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From 87609e5cfd2f3120a0400b889b5c0c14d477a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 17/59] fix: spectral rows with an impossible date crashed the
 reader

---
 src/data/spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..9b2acd8 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -60,7 +60,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
             .single()
-            .unwrap();
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(SpectralWaveDataRecord {
             date,
-- 
2.43.0


From 80c355d1a96546b42222d8db0a1af1f64565bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 18/59] fix: spectral rows cut after a value paired every value
 with its neighbour

---
 src/data/spectral_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index 9b2acd8..456e5d2 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -40,8 +40,11 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
             let index = start_index + i * 2;
 
             values[i] = row[index].parse().map_err(DataRecordParsingError::from)?;
+            // A value where a frequency should be means the row was cut
             freqs[i] = row[index + 1]
-                .replace(&['(', ')'][..], "")
+                .strip_prefix('(')
+                .and_then(|f| f.strip_suffix(')'))
+                .ok_or(DataRecordParsingError::InvalidData)?
                 .parse()
                 .map_err(DataRecordParsingError::from)?;
         }
-- 
2.43.0


From 6d9a396e4f8d9866ecca70895ec08e7b44dcdeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 19/59] fix: short rows of grib indexes crashed the reader

---
 src/data/grib_index_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
-- 
2.43.0


From ca8453a1b3f103d36569de658ffd70f82626c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 20/59] fix: a stray quote in a table swallowed the rows after
 it

---
 src/data/forecast_cbulletin_wave_data_record.rs | 1 +
 src/data/grib_index_record.rs                   | 1 +
 src/data/latest_obs_data_record.rs              | 1 +
 src/data/meteorological_data_record.rs          | 1 +
 src/data/spectral_wave_data_record.rs           | 1 +
 src/data/wave_data_record.rs                    | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..1a79251 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -262,6 +262,7 @@ impl<'a> ForecastCBulletinWaveRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         ForecastCBulletinWaveRecordCollection { data, reader }
diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index 265ee43..b410890 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -65,6 +65,7 @@ impl<'a> GribIndexRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         GribIndexRecordCollection { reader }
diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..1722420 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -184,6 +184,7 @@ impl<'a> LatestObsDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         LatestObsDataRecordCollection { reader }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..bbfac38 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -268,6 +268,7 @@ impl<'a> MeteorologicalDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         MeteorologicalDataRecordCollection { reader }
diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index 456e5d2..94f68de 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -93,6 +93,7 @@ impl<'a> SpectralWaveDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         SpectralWaveDataRecordCollection { reader }
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 83c378a..fc5a928 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -158,6 +158,7 @@ impl<'a> WaveDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         WaveDataRecordCollection { reader }
-- 
2.43.0


From ddb9447aaa6b3c2461c0373fcbbeb72539314818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 21/59] fix: bulletins of December runs crashed at the turn of
 the year

---
 src/data/forecast_cbulletin_wave_data_record.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 1a79251..3dee787 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -152,14 +152,16 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
+        let (year, month) = if model_date.day() <= day {
+            (model_date.year(), model_date.month())
+        } else if model_date.month() < 12 {
+            (model_date.year(), model_date.month() + 1)
         } else {
-            model_date.month()
+            (model_date.year() + 1, 1)
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
             .unwrap();
 
         let significant_wave_height =
-- 
2.43.0


From 7ba2aeb17f1fcd1baf7542a89a3a8c85d0098975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 22/59] fix: bulletin rows with an impossible date crashed the
 reader

---
 src/data/forecast_cbulletin_wave_data_record.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 3dee787..ee77a56 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -162,7 +162,8 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, 0, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
-- 
2.43.0


From 1c25c1b71f525b8e89eeaa59a4529de6e595f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 23/59] fix: short and cut bulletin rows crashed the reader

---
 src/data/forecast_cbulletin_wave_data_record.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index ee77a56..5607f7c 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -139,11 +139,19 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
+        if row.len() < 2 || (row.len() - 2) % 3 != 0 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let timestep = row[0];
-        let day = timestep[0..2].parse::<u32>().map_err(|_| {
+        let (day, hour) = match (timestep.get(0..2), timestep.get(2..)) {
+            (Some(day), Some(hour)) => (day, hour),
+            _ => return Err(DataRecordParsingError::InvalidData),
+        };
+        let day = day.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
-        let hour = timestep[2..].parse::<u32>().map_err(|_| {
+        let hour = hour.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse hour from timestep".into())
         })?;
 
-- 
2.43.0


From 52f8c3abd8565e01e7b71e0dd3b4acad3ef43ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 24/59] fix: bulletins with an impossible cycle crashed the
 reader

---
 src/data/forecast_cbulletin_wave_data_record.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 5607f7c..1342de4 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -107,7 +107,8 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
 
                 let d = Utc
                     .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)?;
                 Ok(d)
             }
             None => Err(DataRecordParsingError::ParseFailure(
-- 
2.43.0


From 79624ce52754e22940d1ac0854ceddc0aafa4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 25/59] fix: the energy of bulletin components took heights in
 feet for meters

---
 src/data/forecast_cbulletin_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 1342de4..13a584c 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -196,7 +196,10 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From cb50e3a7792c099af33442b6d5bdf882b6dbec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 26/59] fix: bulletin rows without swell components crashed
 their summary

---
 src/data/forecast_cbulletin_wave_data_record.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 13a584c..14974c9 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::dimensional_data::DimensionalData;
 use crate::location::Location;
-use crate::swell::{Swell, SwellProvider, SwellSummary};
+use crate::swell::{Swell, SwellProvider, SwellProviderError, SwellSummary};
 use crate::tools::waves::wave_energy;
 use crate::units::{Direction, Unit, UnitConvertible, UnitSystem};
 
@@ -225,7 +225,9 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
     fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+        let dominant = self.swell_components.first().cloned().ok_or_else(|| {
+            SwellProviderError::InsufficientData("no swell components".into())
+        })?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From 391f68c5ac22ea94de35446ec07485e951f516ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 27/59] fix: short lines of point spectra crashed the reader

---
 src/data/forecast_spectral_wave_data_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..48f3571 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -257,6 +257,10 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // First line is the date
+        if line.len() < 13 || !line.is_ascii() {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let year = line[0..4].parse::<i32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
         })?;
-- 
2.43.0


From d166f18ea78573a46792ebc68e90a5610438ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 28/59] fix: point spectra with an impossible date crashed the
 reader

---
 src/data/forecast_spectral_wave_data_record.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 48f3571..33780f1 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -283,7 +283,8 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
-- 
2.43.0


From e224e03dd7166329d986e2c9bc643a13ee6dedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 29/59] fix: point spectra with unreadable or surplus energies
 took in the record after them

---
 src/data/forecast_spectral_wave_data_record.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 33780f1..e639c4b 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -379,11 +379,13 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         while raw_energy.len() < energy_count {
             let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
-            line.split_whitespace().map(f64::from_str).for_each(|v| {
-                if let Ok(v) = v {
-                    raw_energy.push(v);
-                }
-            });
+            for v in line.split_whitespace() {
+                raw_energy.push(v.parse::<f64>()?);
+            }
+        }
+
+        if raw_energy.len() != energy_count {
+            return Err(DataRecordParsingError::InvalidData);
         }
 
         //let mut energy = vec![0.0; raw_energy.len()];
-- 
2.43.0


From 8f296a32b93b69c760fed5487e5aeba24398313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 30/59] fix: point spectra with lines missing took in the
 record after them

---
 .../forecast_spectral_wave_data_record.rs     | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index e639c4b..4e5c6e4 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -228,6 +228,17 @@ impl SwellProvider for ForecastSpectralWaveDataRecord {
     }
 }
 
+fn is_date_line(line: &str) -> bool {
+    match line.trim_end().split_once(' ') {
+        Some((date, time)) => {
+            date.len() == 8
+                && time.len() == 6
+                && date.bytes().chain(time.bytes()).all(|b| b.is_ascii_digit())
+        }
+        None => false,
+    }
+}
+
 pub struct ForecastSpectralWaveRecordIterator<'a> {
     lines: Skip<Lines<'a>>,
     point_regex: Regex,
@@ -253,6 +264,11 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         })
     }
 
+    /// Whether the next line is the one a record starts with, which ends a record that is cut short
+    fn at_date_line(&self) -> bool {
+        self.lines.clone().next().map_or(false, is_date_line)
+    }
+
     fn parse_next(&mut self) -> Result<ForecastSpectralWaveDataRecord, DataRecordParsingError> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
@@ -290,6 +306,10 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
             self.reference_date = Some(date);
         }
 
+        if self.at_date_line() {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // Then the point data
@@ -377,6 +397,10 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
             Vec::with_capacity(self.metadata.frequency.len() * self.metadata.direction.len());
 
         while raw_energy.len() < energy_count {
+            if self.at_date_line() {
+                return Err(DataRecordParsingError::InvalidData);
+            }
+
             let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
             for v in line.split_whitespace() {
-- 
2.43.0


From fc4802ca8a7382f9762dc3da76c0abbf78ebcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 31/59] fix: a point line with an overflowed number was filled
 up by splitting the others

---
 src/data/forecast_spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 4e5c6e4..2437c56 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -251,7 +251,7 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let metadata = ForecastSpectralWaveDataRecordMetadata::from_str(data)?;
         let lines = data.lines().skip(metadata.line_count);
 
-        let point_regex = Regex::new(".{0,12}\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)");
+        let point_regex = Regex::new(".{0,12}\\s*([+-]?[0-9]*[.][0-9]+)\\s*([+-]?[0-9]*[.][0-9]+)\\s*([+-]?[0-9]*[.][0-9]+)\\s*([+-]?[0-9]*[.][0-9]+)\\s*([+-]?[0-9]*[.][0-9]+)\\s*([+-]?[0-9]*[.][0-9]+)\\s*([+-]?[0-9]*[.][0-9]+)");
         let point_regex = point_regex.map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to create point regex: {}", e))
         })?;
-- 
2.43.0


From 32c637ea8c600dbd26e0b5a2e5a5bb6e4f33a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 32/59] fix: point spectra headers with unreadable or surplus
 values were filled up from the lines after them

---
 .../forecast_spectral_wave_data_record.rs     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 2437c56..549f288 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -116,14 +116,9 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
 
             line_count += 1;
 
-            data_line.for_each(|v| {
-                if frequency.len() < frequency_count {
-                    let value = v.parse::<f64>();
-                    if let Ok(value) = value {
-                        frequency.push(value);
-                    }
-                }
-            })
+            for v in data_line {
+                frequency.push(v.parse::<f64>()?);
+            }
         }
 
         while direction.len() < direction_count {
@@ -136,16 +131,18 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
 
             line_count += 1;
 
-            data_line.for_each(|v| {
-                if direction.len() < direction_count {
-                    let value = v.parse::<f64>();
-                    if let Ok(value) = value {
-                        let angle = ((value - (2.5 * PI)) % (2.0 * PI)).abs();
-                        direction.push(Direction::from_radians(angle));
-                        //direction.push(Direction::from_radians(value));
-                    }
-                }
-            })
+            for v in data_line {
+                let value = v.parse::<f64>()?;
+                let angle = ((value - (2.5 * PI)) % (2.0 * PI)).abs();
+                direction.push(Direction::from_radians(angle));
+                //direction.push(Direction::from_radians(value));
+            }
+        }
+
+        if frequency.len() != frequency_count || direction.len() != direction_count {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid data for header metadata".into(),
+            ));
         }
 
         Ok(ForecastSpectralWaveDataRecordMetadata {
-- 
2.43.0


From f1d7dddf89532080ec9e7090f8322b0a0594420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 33/59] fix: point spectra headers with lines missing took in
 the first record

---
 src/data/forecast_spectral_wave_data_record.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 549f288..466cb8f 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -109,6 +109,7 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
         while frequency.len() < frequency_count {
             let data_line = lines
                 .next()
+                .filter(|line| !is_date_line(line))
                 .ok_or(DataRecordParsingError::ParseFailure(
                     "Invalid data for frequency metadata".into(),
                 ))?
@@ -124,6 +125,7 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
         while direction.len() < direction_count {
             let data_line = lines
                 .next()
+                .filter(|line| !is_date_line(line))
                 .ok_or(DataRecordParsingError::ParseFailure(
                     "Invalid data for direction metadata".into(),
                 ))?
-- 
2.43.0


From 3ac729a122b740e27a54f4bd037f69f689e37f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 34/59] fix: distances took the sine of the square in the
 haversine formula, of latitudes shifted half around

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..58c4284 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
         let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
         let dest_lon = other.absolute_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powf(2.0)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powf(2.0);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From 3e5cfae30e28d1176b357e7bb5ce3d474d87b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 35/59] fix: boxes across Greenwich or around the globe
 contained next to nothing

---
 src/location.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 58c4284..dbc8168 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,17 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        // Boxes run eastward from their first to their second longitude, perhaps across Greenwich
+        let west = bbox.0.rem_euclid(360.0);
+        let east = bbox.2.rem_euclid(360.0);
+        let lng = self.longitude.rem_euclid(360.0);
+        let within_lng = if bbox.2 - bbox.0 >= 360.0 {
+            true
+        } else if west <= east {
+            west <= lng && lng <= east
+        } else {
+            west <= lng || lng <= east
+        };
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From b7b636cfd1f1e6dcb4e506d6cb04996ee778c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 36/59] fix: written tide predictions could not be read back

---
 src/data/tidal_data_record.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/tidal_data_record.rs b/src/data/tidal_data_record.rs
index d923728..9bfbb6f 100644
--- a/src/data/tidal_data_record.rs
+++ b/src/data/tidal_data_record.rs
@@ -27,8 +27,11 @@ where
     D: Deserializer<'de>,
 {
     let s: String = Deserialize::deserialize(deserializer)?;
-    let naive = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M").map_err(de::Error::custom)?;
-    Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc))
+    // As the service sends it, or as records are written
+    match NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M") {
+        Ok(naive) => Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc)),
+        Err(e) => s.parse().map_err(|_| de::Error::custom(e)),
+    }
 }
 
 fn tidal_value_f64<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
-- 
2.43.0


From 84de0475c1c4330e0ae0a0466dd6ce6d96628106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 37/59] fix: units did not recognise all of their own
 abbreviations and names

---
 src/units/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a3c5363..2c93a2a 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -90,23 +90,25 @@ impl From<&str> for Unit {
         match value.trim().to_lowercase().as_str() {
             "mm" | "millimeters" | "millimeter" => Unit::Millimeters,
             "m" | "meters" | "meter" | "wmounit:m" => Unit::Meters,
-            "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" => Unit::MetersPerSecond,
-            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
-                Unit::Celsius
+            "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" | "meters per second" => {
+                Unit::MetersPerSecond
             }
+            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "degrees celsius"
+            | "wmounit:degc" => Unit::Celsius,
             "pa" | "pascals" | "pascal" => Unit::Pascal,
-            "hpa" | "hectapascals" | "hectapascal" => Unit::HectaPascal,
+            "hpa" | "hectapascals" | "hectapascal" | "hecta pascal" => Unit::HectaPascal,
             "in" | "inches" | "inch" => Unit::Inches,
             "ft" | "feet" | "foot" => Unit::Feet,
-            "mph" | "m/h" | "mh-1" | "milesperhour" => Unit::MilesPerHour,
-            "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit" => {
-                Unit::Fahrenheit
-            }
-            "inhg" | "inches mercury" => Unit::InchesMercury,
+            "mph" | "m/h" | "mh-1" | "milesperhour" | "miles per hour" => Unit::MilesPerHour,
+            "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit"
+            | "degrees fahrenheit" => Unit::Fahrenheit,
+            "inhg" | "in hg" | "inches mercury" => Unit::InchesMercury,
             "kt" | "kts" | "knots" | "knot" => Unit::Knots,
             "k" | "kelvin" => Unit::Kelvin,
-            "m^2/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
-            "nmi" | "nauticalmiles" | "nauticalmile" => Unit::NauticalMiles,
+            "m^2/hz" | "m²/hz" | "m2hz-1" | "meterssquaredperhertz" | "meters squared per hertz" => {
+                Unit::MetersSquaredPerHertz
+            }
+            "nmi" | "nauticalmiles" | "nauticalmile" | "nautical miles" => Unit::NauticalMiles,
             "°" | "deg" | "degs" | "degrees" | "degree" => Unit::Degrees,
             "s" | "second" | "seconds" => Unit::Seconds,
             "%" | "percent" | "percentage" | "wmounit:percent" => Unit::Percent,
-- 
2.43.0


From 77bbdb04498c6aff3c60f5423bb97f48130c3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 38/59] fix: forecasts failed as a whole or crashed where a
 value was absent or the wind a range

---
 src/data/nws_weather_forecast_data_record.rs | 41 ++++++++++++--------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..195ad08 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -31,7 +31,7 @@ impl NwsGridPointData {
 #[serde(rename_all = "camelCase")]
 struct WMODataField {
     unit_code: String,
-    value: f64,
+    value: Option<f64>,
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -42,14 +42,14 @@ struct NwsWeatherForecastPeriodData {
     start_time: DateTime<Utc>,
     end_time: DateTime<Utc>,
     is_daytime: bool,
-    temperature: f64,
+    temperature: Option<f64>,
     temperature_unit: String,
     temperature_trend: Option<String>,
-    probability_of_precipitation: WMODataField,
-    dewpoint: WMODataField,
-    relative_humidity: WMODataField,
-    wind_speed: String,
-    wind_direction: String,
+    probability_of_precipitation: Option<WMODataField>,
+    dewpoint: Option<WMODataField>,
+    relative_humidity: Option<WMODataField>,
+    wind_speed: Option<String>,
+    wind_direction: Option<String>,
     icon: String,
     short_forecast: String,
     detailed_forecast: String,
@@ -72,34 +72,43 @@ pub struct NwsWeatherForecastDataRecord {
 
 impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
     fn from(data: &NwsWeatherForecastPeriodData) -> Self {
-        let wind_speed_parts = data.wind_speed.split(" ").collect::<Vec<&str>>();
+        // "10 mph" or "5 to 10 mph": the number comes first, the unit last
+        let mut wind_speed_parts = data.wind_speed.as_deref().unwrap_or("").split_whitespace();
+        let wind_speed = wind_speed_parts.next().unwrap_or("");
+        let wind_speed_unit = wind_speed_parts.last().unwrap_or("");
 
         Self {
             start_time: data.start_time,
             end_time: data.end_time,
             is_daytime: data.is_daytime,
             temperature: DimensionalData {
-                value: Some(data.temperature),
+                value: data.temperature,
                 variable_name: "temperature".to_string(),
                 unit: Unit::from(data.temperature_unit.as_str()),
             },
             dewpoint: DimensionalData {
-                value: Some(data.dewpoint.value),
+                value: data.dewpoint.as_ref().and_then(|d| d.value),
                 variable_name: "dewpoint".to_string(),
-                unit: Unit::from(data.dewpoint.unit_code.as_str()),
+                unit: data
+                    .dewpoint
+                    .as_ref()
+                    .map_or(Unit::Celsius, |d| Unit::from(d.unit_code.as_str())),
             },
             humidity: DimensionalData {
-                value: Some(data.relative_humidity.value),
+                value: data.relative_humidity.as_ref().and_then(|h| h.value),
                 variable_name: "humidity".to_string(),
-                unit: Unit::from(data.relative_humidity.unit_code.as_str()),
+                unit: data
+                    .relative_humidity
+                    .as_ref()
+                    .map_or(Unit::Percent, |h| Unit::from(h.unit_code.as_str())),
             },
             wind_speed: DimensionalData::from_raw_data(
-                wind_speed_parts[0],
+                wind_speed,
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                Unit::from(wind_speed_unit),
             ),
             wind_direction: DimensionalData::from_raw_data(
-                &data.wind_direction,
+                data.wind_direction.as_deref().unwrap_or(""),
                 "wind direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From 6136174b89db6f55087c4c1fc57c70b3e1eb0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 39/59] fix: temperatures in C had an unknown unit

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 2c93a2a..8b88cfb 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -93,7 +93,7 @@ impl From<&str> for Unit {
             "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" | "meters per second" => {
                 Unit::MetersPerSecond
             }
-            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "degrees celsius"
+            "°c" | "c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "degrees celsius"
             | "wmounit:degc" => Unit::Celsius,
             "pa" | "pascals" | "pascal" => Unit::Pascal,
             "hpa" | "hectapascals" | "hectapascal" | "hecta pascal" => Unit::HectaPascal,
-- 
2.43.0


From c0a189e0e771fa1dec45ad96fa5f7002ee754077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 40/59] fix: forecasts failed as a whole where a text was
 absent

---
 src/data/nws_weather_forecast_data_record.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index 195ad08..56b845f 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -38,7 +38,7 @@ struct WMODataField {
 #[serde(rename_all = "camelCase")]
 struct NwsWeatherForecastPeriodData {
     number: usize,
-    name: String,
+    name: Option<String>,
     start_time: DateTime<Utc>,
     end_time: DateTime<Utc>,
     is_daytime: bool,
@@ -50,9 +50,9 @@ struct NwsWeatherForecastPeriodData {
     relative_humidity: Option<WMODataField>,
     wind_speed: Option<String>,
     wind_direction: Option<String>,
-    icon: String,
-    short_forecast: String,
-    detailed_forecast: String,
+    icon: Option<String>,
+    short_forecast: Option<String>,
+    detailed_forecast: Option<String>,
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -112,9 +112,9 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 "wind direction".into(),
                 Unit::Degrees,
             ),
-            icon: data.icon.clone(),
-            short_forecast: data.short_forecast.clone(),
-            detailed_forecast: data.detailed_forecast.clone(),
+            icon: data.icon.clone().unwrap_or_default(),
+            short_forecast: data.short_forecast.clone().unwrap_or_default(),
+            detailed_forecast: data.detailed_forecast.clone().unwrap_or_default(),
         }
     }
 }
-- 
2.43.0


From e5ecc2504bf299c611a0c9359ca9f5b4a9b41cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 41/59] fix: contours without a transform were neither
 normalised nor labelled

---
 src/tools/contour.rs | 46 ++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 04cdb81..9b10ad1 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -32,33 +32,29 @@ pub fn compute_contours<C: Fn(&Vec<f64>) -> Vec<f64>, F: Fn(&usize, &f64) -> Str
         .map(|(i, c)| {
             let mut f = c.to_geojson();
 
-            if coordinate_transform.is_none() {
-                return f;
+            if let Some(coordinate_transform) = coordinate_transform.as_ref() {
+                let Some(g) = &f.geometry else {
+                    return f;
+                };
+
+                let geo_value: Value = g.value.clone();
+
+                let Value::MultiPolygon(coords) = geo_value else {
+                    return f;
+                };
+
+                let new_coordinates: Vec<Vec<Vec<Vec<f64>>>> = coords
+                    .iter()
+                    .map(|r| {
+                        r.iter()
+                            .map(|c| c.iter().map(|point| coordinate_transform(point)).collect())
+                            .collect()
+                    })
+                    .collect();
+                let new_polygon = Value::MultiPolygon(new_coordinates);
+                f.geometry = Some(new_polygon.into());
             }
 
-            let coordinate_transform = coordinate_transform.as_ref().unwrap();
-
-            let Some(g) = &f.geometry else {
-                return f;
-            };
-
-            let geo_value: Value = g.value.clone();
-
-            let Value::MultiPolygon(coords) = geo_value else {
-                return f;
-            };
-
-            let new_coordinates: Vec<Vec<Vec<Vec<f64>>>> = coords
-                .iter()
-                .map(|r| {
-                    r.iter()
-                        .map(|c| c.iter().map(|point| coordinate_transform(point)).collect())
-                        .collect()
-                })
-                .collect();
-            let new_polygon = Value::MultiPolygon(new_coordinates);
-            f.geometry = Some(new_polygon.into());
-
             f.set_property(
                 "normalized",
                 (&c.threshold() - thresholds.first().unwrap()) / threshold_range,
-- 
2.43.0


From 5793fe2fcc640cf33415ef7852854f46ede1a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 42/59] fix: contours of calm seas came out in descending order

---
 src/spectra.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 8165bc0..92558b8 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -518,8 +518,10 @@ impl Spectra {
 
     /// Contours
     pub fn contoured(&self) -> Result<GeoJson, ContourError> {
-        let (_min, max) = self.energy_range();
-        let t = linspace(0.10, max, 10).collect::<Vec<f64>>();
+        let (min, max) = self.energy_range();
+        // A calm sea is all below the usual first level
+        let start = if max > 0.10 { 0.10 } else { min };
+        let t = linspace(start, max, 10).collect::<Vec<f64>>();
 
         let features = compute_contours(
             &self.energy,
-- 
2.43.0


From 40c81c3d86a6f07ca51a7e95ecbd387ff1fa0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 43/59] fix: contours strayed across the grid where its
 directions wrap

---
 src/spectra.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 92558b8..ed5c5e0 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -176,9 +176,14 @@ impl Spectra {
             return self.direction[0];
         }
 
+        // The short way, also where the directions wrap from 360 degrees to 0
         let v_lower = self.direction[i_lower as usize];
-        let v_upper = self.direction[i_upper as usize];
-        lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
+        let v_upper = match self.direction[i_upper as usize] {
+            v if v - v_lower > TAU / 2.0 => v - TAU,
+            v if v_lower - v > TAU / 2.0 => v + TAU,
+            v => v,
+        };
+        lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper).rem_euclid(TAU)
     }
 
     /// Interpolated frequency index bounds for a given frequency
-- 
2.43.0


From 672f9ff5c46d39728040d0e296204549c61bfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 44/59] fix: wavelengths did not satisfy the dispersion
 relation

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 7deb310..079e116 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From fe68baaa4111c5b8e532cc38ee8e0b3af8b8a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 45/59] fix: waves arriving at a beach across north were taken
 to come from behind it

---
 src/tools/waves.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 079e116..d4361c9 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -130,8 +130,10 @@ pub fn estimate_breaking_wave_height(
 ) -> Result<f64, Error> {
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
+    // The short way round, which may be across north
+    let swell_angle = swell.direction.value.as_ref().unwrap().degrees as f64;
     let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+        ((swell_angle - beach_angle + 180.0).rem_euclid(360.0) - 180.0).abs() as i32;
 
     if incident_angle > 90 {
         return Err(Error::OutOfRange);
-- 
2.43.0


From d6a2735d9b289bbb115a117841b60c8a3e15d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 46/59] fix: the sun rose and set in 1970 where it does neither

---
 src/solar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solar.rs b/src/solar.rs
index cff9524..da6f6c4 100644
--- a/src/solar.rs
+++ b/src/solar.rs
@@ -26,6 +26,11 @@ pub fn calculate_solar_events(location: &Location, date: &DateTime<Utc>) -> Opti
     let sunrise = solar_day.event_time(SolarEvent::Sunrise);
     let sunset = solar_day.event_time(SolarEvent::Sunset);
 
+    // Both come out the same where the sun stays up or down all day
+    if sunrise >= sunset {
+        return None;
+    }
+
     Some(SolarEvents { sunrise, sunset })
 }
 
-- 
2.43.0


From 2ee3032a0e2e22b79ee0ade99bc199f50609b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 47/59] fix: malformed constraints of OPeNDAP addresses crashed
 the reader

---
 src/tools/dap.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/tools/dap.rs b/src/tools/dap.rs
index 1c87ecf..89163ee 100644
--- a/src/tools/dap.rs
+++ b/src/tools/dap.rs
@@ -26,18 +26,18 @@ impl FromStr for DapConstraint {
         .to_string();
         let ranges = parts
             .map(|range| {
-                let mut parts = range.split(':');
-                let start = parts.next().unwrap().parse::<usize>().unwrap();
-                let step = parts.next().unwrap().parse::<usize>().unwrap();
-                let end = parts
-                    .next()
-                    .unwrap()
-                    .replace("]", "")
-                    .parse::<usize>()
-                    .unwrap();
-                (start, step, end)
+                let bounds = range
+                    .strip_suffix(']')
+                    .ok_or_else(|| format!("Unterminated range in dap constraint: [{range}"))?
+                    .split(':')
+                    .map(|bound| bound.parse::<usize>().map_err(|e| e.to_string()))
+                    .collect::<Result<Vec<usize>, String>>()?;
+                match bounds[..] {
+                    [start, step, end] => Ok((start, step, end)),
+                    _ => Err(format!("Malformed range in dap constraint: [{range}")),
+                }
             })
-            .collect::<Vec<(usize, usize, usize)>>();
+            .collect::<Result<Vec<(usize, usize, usize)>, String>>()?;
         Ok(Self { var, ranges })
     }
 }
-- 
2.43.0


From a1f4c34abdfe955de2d5dc532cd4416804cb10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 48/59] fix: damaged rows of meteorological and latest
 observations crashed the reader

---
 src/data/latest_obs_data_record.rs     | 23 +++++++++++++++--------
 src/data/meteorological_data_record.rs | 19 +++++++++++++------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 1722420..2d075e8 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -50,19 +50,26 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid latest observation record: not enough columns".into(),
+            ));
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
         let date = Utc
             .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
+                row[3].parse()?,
+                row[4].parse()?,
+                row[5].parse()?,
+                row[6].parse()?,
+                row[7].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(LatestObsDataRecord {
             station_id,
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index bbfac38..85a3c16 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -42,16 +42,23 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid meteorological record: not enough columns".into(),
+            ));
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(MeteorologicalDataRecord {
             date,
-- 
2.43.0


From de57234f7d318eff68056665873172085fca7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 49/59] fix: the visibility of observations had no name

---
 src/data/latest_obs_data_record.rs     | 6 +++++-
 src/data/meteorological_data_record.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 2d075e8..f4bab80 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -136,7 +136,11 @@ impl ParseableDataRecord for LatestObsDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[20], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[20],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             tide: DimensionalData::from_raw_data(row[21], "tide".into(), Unit::Feet),
         })
     }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 85a3c16..ffae629 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -113,7 +113,11 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[16], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[16],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             air_pressure_tendency: DimensionalData::from_raw_data(
                 row[17],
                 "air pressure tendency".into(),
-- 
2.43.0


From 4d2811eb792bd98b4e5eaa195a84244a3a461c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 50/59] fix: maps of meteorological records left out the
 pressure tendency

---
 src/data/meteorological_data_record.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index ffae629..17d1dd2 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -196,6 +196,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, DimensionalData<f64>> {
                 m.mean_wave_direction.into(),
             ),
             (m.air_pressure.variable_name.clone(), m.air_pressure),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency,
+            ),
             (m.air_temperature.variable_name.clone(), m.air_temperature),
             (
                 m.water_temperature.variable_name.clone(),
@@ -246,6 +250,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, Option<String>> {
                 m.air_pressure.variable_name.clone(),
                 m.air_pressure.try_string(),
             ),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency.try_string(),
+            ),
             (
                 m.air_temperature.variable_name.clone(),
                 m.air_temperature.try_string(),
-- 
2.43.0


From fdb8379e3edb2e1c25fa8f894c4f8df4e2a029b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 51/59] fix: the meteorological data of listed stations went
 unseen

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..9bfe052 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,7 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(rename = "@met", deserialize_with = "bool_from_simple_str", default)]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From 9a518d9fc540dae385e1daf7e8fbcfa2ca42d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 52/59] fix: stations with tsunami data alone counted as
 inactive

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 9bfe052..3d7c557 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -131,7 +131,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From 7837865ea2dd7ac597b51d286753f351f0ab6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 53/59] fix: station names ran together the words around a
 hyphen

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3d7c557..45808a7 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -319,7 +319,7 @@ impl Station for BuoyStation {
                 _ => true,
             })
             .collect::<Vec<&str>>()
-            .join("");
+            .join(" ");
 
         name = name
             .split_whitespace()
-- 
2.43.0


From a63ca72a1ad2adb4bc217504826336c91f609bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 54/59] fix: places on grids were looked up too far along and
 from the wrong end across the date line

---
 src/model/noaa_model.rs | 60 ++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..25f752e 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -114,6 +114,45 @@ impl ModelTimeOutputResolution {
     }
 }
 
+/// The fractional row and column of a location within the bounds of a regular grid that runs
+/// from its start to its end (latitude, longitude)
+fn grid_position(
+    location: &Location,
+    start: (f64, f64),
+    end: (f64, f64),
+    lat_size: usize,
+    lng_size: usize,
+) -> (f64, f64) {
+    let position = |offset: f64, span: f64, size: usize| {
+        if size < 2 || span == 0.0 {
+            return 0.0;
+        }
+        let last = (size - 1) as f64;
+        (offset / (span / last)).clamp(0.0, last)
+    };
+
+    let lat_span = normalize_latitude(end.0) - normalize_latitude(start.0);
+    let lat_offset = location.relative_latitude() - normalize_latitude(start.0);
+
+    let lng_span = (end.1 - start.1).abs();
+    let lng_offset = if end.1 < start.1 {
+        (start.1 - location.relative_longitude()).rem_euclid(360.0)
+    } else {
+        (location.relative_longitude() - start.1).rem_euclid(360.0)
+    };
+    // Just before the first column
+    let lng_offset = if lng_offset - lng_span > 360.0 - lng_offset {
+        0.0
+    } else {
+        lng_offset
+    };
+
+    (
+        position(lat_offset, lat_span, lat_size),
+        position(lng_offset, lng_span, lng_size),
+    )
+}
+
 pub trait NOAAModel {
     fn id(&self) -> &'static str;
     fn name(&self) -> &'static str;
@@ -203,18 +242,15 @@ pub trait NOAAModel {
 
         // This only works for regular grids.
         let (lat_size, lng_size) = message.grid_dimensions()?;
-        let start = projector.latlng_start();
-        let end = projector.latlng_end();
-
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_index = ((location.relative_longitude() - normalize_longitude(start.1)) / lng_step)
-            .abs()
-            .round() as usize;
-        let lat_index = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step)
-            .abs()
-            .round() as usize;
+        let (row, col) = grid_position(
+            location,
+            projector.latlng_start(),
+            projector.latlng_end(),
+            lat_size,
+            lng_size,
+        );
+        let lng_index = col.round() as usize;
+        let lat_index = row.round() as usize;
 
         let data = message.data()?;
         let latlng_index = lng_index + lng_size * lat_index;
-- 
2.43.0


From 286c7309752605ec1a097290f2d8e35fd1bd34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 55/59] fix: interpolation on grids left the grid or crashed

---
 src/model/noaa_model.rs | 59 +++++++++++++----------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 25f752e..d3f5d91 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -274,30 +274,18 @@ pub trait NOAAModel {
 
         // This only works for regular grids.
         let (lat_size, lng_size) = message.grid_dimensions()?;
-        let start = projector.latlng_start();
-        let end = projector.latlng_end();
-
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_lower_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .floor() as usize;
-        let lng_upper_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .ceil() as usize;
-        let lat_lower_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .floor() as usize;
-        let lat_upper_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .ceil() as usize;
+        let (row, col) = grid_position(
+            location,
+            projector.latlng_start(),
+            projector.latlng_end(),
+            lat_size,
+            lng_size,
+        );
+        let lng_lower_index = col.floor() as usize;
+        let lng_upper_index = col.ceil() as usize;
+        let lat_lower_index = row.floor() as usize;
+        let lat_upper_index = row.ceil() as usize;
 
-        let (lat, lng) = projector.lat_lng();
         let data = message.data()?;
 
         let a = data[lat_lower_index * lng_size + lng_lower_index];
@@ -305,29 +293,20 @@ pub trait NOAAModel {
         let c = data[lat_upper_index * lng_size + lng_lower_index];
         let d = data[lat_upper_index * lng_size + lng_upper_index];
 
-        let x0 = normalize_longitude(lng[lng_lower_index]);
-        let x1 = normalize_longitude(lng[lng_upper_index]);
-        let y0 = normalize_latitude(lat[lat_lower_index * lng_size]);
-        let y1 = normalize_latitude(lat[lat_upper_index * lng_size]);
+        let x0 = lng_lower_index as f64;
+        let x1 = lng_upper_index as f64;
+        let y0 = lat_lower_index as f64;
+        let y1 = lat_upper_index as f64;
 
         let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
             a
         } else if lat_lower_index == lat_upper_index {
-            lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
-            lerp(&a, &c, &location.latitude, &y0, &y1)
+            lerp(&a, &b, &col, &x0, &x1)
+        } else if lng_lower_index == lng_upper_index {
+            lerp(&a, &c, &row, &y0, &y1)
         } else {
             bilerp(
-                &a,
-                &b,
-                &c,
-                &d,
-                &location.longitude,
-                &x0,
-                &x1,
-                &location.latitude,
-                &y0,
-                &y1,
+                &a, &b, &c, &d, &col, &x0, &x1, &row, &y0, &y1,
             )
         };
 
-- 
2.43.0


From 35894e52ba8f780c0e42860f074c4561978dffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 56/59] fix: queries around places at the date line left out
 the far side of it

---
 src/model/noaa_model.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index d3f5d91..b390779 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -200,8 +200,6 @@ pub trait NOAAModel {
 
         let min_lat = location.relative_latitude() - *tolerance;
         let max_lat = location.relative_latitude() + *tolerance;
-        let min_lng = location.relative_longitude() - *tolerance;
-        let max_lng = location.relative_longitude() + *tolerance;
 
         let data = message.data()?;
 
@@ -215,10 +213,13 @@ pub trait NOAAModel {
                 let row = i / lng.len();
                 let col = i % lng.len();
 
+                // The short way around
+                let lng_gap = (lng[col] - location.relative_longitude()).rem_euclid(360.0);
+                let lng_gap = lng_gap.min(360.0 - lng_gap);
+
                 normalize_latitude(lat[row]) >= min_lat
                     && normalize_latitude(lat[row]) <= max_lat
-                    && normalize_longitude(lng[col]) >= min_lng
-                    && normalize_longitude(lng[col]) <= max_lng
+                    && lng_gap <= *tolerance
             })
             .map(|(_, v)| *v)
             .collect();
-- 
2.43.0


From 249d206c230db9e280cbdc36aff0f792a08eaf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:18 +0000
Subject: [PATCH 57/59] fix: places without data got records of no number waves
 from due north

---
 src/data/gfs_wave_grib_point_data_record.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index ec61a95..2a1ce55 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -57,6 +57,8 @@ impl GFSWaveGribPointDataRecord {
             }
 
             match model.query_location_tolerance(location, &tolerance, m) {
+                // Nothing but missing values around the location
+                Ok(value) if value.is_empty() => {}
                 Ok(value) => {
                     let sum: f64 = value.iter().sum();
                     let mean: f64 = sum / value.len() as f64;
-- 
2.43.0


From 4abd07b1f058dc8569f388a2a2c14a34d31be4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:18 +0000
Subject: [PATCH 58/59] fix: directions on either side of north averaged to the
 south

---
 src/data/gfs_wave_grib_point_data_record.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index 2a1ce55..5d5c44c 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -24,6 +24,16 @@ pub struct GFSWaveGribPointDataRecord {
     pub swell_components: Vec<Swell>,
 }
 
+/// The mean of directions in degrees, which may lie on either side of north
+fn mean_direction(directions: &[f64]) -> f64 {
+    let first = directions[0];
+    let sum: f64 = directions
+        .iter()
+        .map(|d| (d - first + 180.0).rem_euclid(360.0) - 180.0)
+        .sum();
+    (first + sum / directions.len() as f64).rem_euclid(360.0)
+}
+
 impl GFSWaveGribPointDataRecord {
     pub fn from_messages(
         model: &impl NOAAModel,
@@ -60,8 +70,12 @@ impl GFSWaveGribPointDataRecord {
                 // Nothing but missing values around the location
                 Ok(value) if value.is_empty() => {}
                 Ok(value) => {
-                    let sum: f64 = value.iter().sum();
-                    let mean: f64 = sum / value.len() as f64;
+                    let mean = if abbrev.contains("DIR") {
+                        mean_direction(&value)
+                    } else {
+                        let sum: f64 = value.iter().sum();
+                        sum / value.len() as f64
+                    };
                     data.insert(abbrev, mean);
                 }
                 Err(err) => println!("{err}"),
-- 
2.43.0


From faa1974ed7b4242245c7f58883156e4affa8f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:05 +0000
Subject: [PATCH 59/59] fix: rows of grib indexes with an empty name or level
 were lost or shifted

---
 src/data/grib_index_record.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index b410890..c0bab6d 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -77,9 +77,12 @@ impl<'a> GribIndexRecordCollection<'a> {
             .map(
                 |result| -> Result<GribIndexRecord, DataRecordParsingError> {
                     if let Ok(record) = result {
-                        let filtered_record: Vec<&str> =
-                            record.iter().filter(|data| !data.is_empty()).collect();
-                        let grib_index = GribIndexRecord::from_data_row(None, &filtered_record)?;
+                        // Every row ends in a separator; other empty fields hold their place
+                        let mut fields: Vec<&str> = record.iter().collect();
+                        if fields.last().map_or(false, |field| field.is_empty()) {
+                            fields.pop();
+                        }
+                        let grib_index = GribIndexRecord::from_data_row(None, &fields)?;
                         return Ok(grib_index);
                     }
                     Err(DataRecordParsingError::InvalidData)
-- 
2.43.0

