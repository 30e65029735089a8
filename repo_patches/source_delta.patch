From 78de46670f5687acd0e144239b029504284c1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 01/39] fix: Particles::is_empty() with only holes left

After all particles of the container were removed one by one, so that only
holes remain, size() was 0 but is_empty() still returned false.
---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From 5d45f973d07283b9e5ababdf255415aae93964ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:53 +0000
Subject: [PATCH 02/39] fix: s_from_Ekin for two beams added the target's mass
 to the projectile

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From ffaa5cc0e2f15bbbe14aa273887dabbd4fad8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:53 +0000
Subject: [PATCH 03/39] fix: s_from_plab for two beams took the momenta for the
 masses

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From bb59415a08cd22276fd3f77faa574cbd0e38abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:53 +0000
Subject: [PATCH 04/39] fix: collision energy from the total energies of two
 beams

---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From 3590ac0bd3047da0a532a29dca768f8052a2a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 05/39] fix: psort ran past the beginning of an array of two
 values

---
 src/include/smash/lowess.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/lowess.h b/src/include/smash/lowess.h
index 295563a..aff9643 100644
--- a/src/include/smash/lowess.h
+++ b/src/include/smash/lowess.h
@@ -118,7 +118,11 @@ void psort(T *x, size_t n, size_t k) {
       if (i <= j) {
         const auto w = x[i];
         x[i++] = x[j];
-        x[j--] = w;
+        x[j] = w;
+        if (j == 0) {
+          break;  // j is unsigned and cannot pass the beginning of the array
+        }
+        j--;
       }
     }
     if (j < k) {
-- 
2.43.0


From 501676f092a69942ae60a58ec1b7f1b81d68a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 06/39] fix: filling a string that is wider than the requested
 width

---
 src/stringfunctions.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stringfunctions.cc b/src/stringfunctions.cc
index 22782dc..8fc33c0 100644
--- a/src/stringfunctions.cc
+++ b/src/stringfunctions.cc
@@ -22,8 +22,8 @@ namespace utf8 {
  * byte.
  *
  * \param[in] s String to be filled.
- * \param[in] width Width (in bytes) to be adjusted.
- * \return Adjusted width.
+ * \param[in] width Width (in characters) to be reached.
+ * \return Number of characters missing, 0 if the string is wide enough.
  */
 inline static size_t adjust(const std::string &s, size_t width) {
   for (unsigned char c : s) {
@@ -42,11 +42,11 @@ inline static size_t adjust(const std::string &s, size_t width) {
       width += 1;
     }
   }
-  return width;
+  return width > s.size() ? width - s.size() : 0;
 }
 
 std::string fill_left(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return std::string(width, fill) + s;
   }
@@ -54,7 +54,7 @@ std::string fill_left(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_right(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return s + std::string(width, fill);
   }
@@ -62,7 +62,7 @@ std::string fill_right(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_both(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     const int l = width / 2;
     const int r = width - l;
-- 
2.43.0


From dd9dc09649b74d1571cac8aca5b7472e6df07cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 07/39] fix: output clock reset to a negative multiple of the
 output interval

---
 src/include/smash/clock.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 0129636..138fcb0 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -321,8 +321,13 @@ class UniformClock : public Clock {
   void reset(double start_time, bool is_output_clock) override {
     double reset_time;
     if (is_output_clock) {
-      auto delta_t = convert(timestep_duration_);
-      reset_time = std::floor(start_time / delta_t) * delta_t;
+      // Integers, as the division of doubles may miss an exact multiple
+      const Representation start = convert(start_time);
+      Representation remainder = start % timestep_duration_;
+      if (remainder < 0) {
+        remainder += timestep_duration_;
+      }
+      reset_time = convert(start - remainder);
     } else {
       reset_time = start_time;
     }
-- 
2.43.0


From 5d9db5769c0ed10a3b5b640ee84d9c61395ddc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 08/39] fix: iterating over neighbors of a point outside of the
 lattice

---
 src/include/smash/lattice.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..93e92a2 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -736,13 +736,23 @@ class RectangularLattice {
   template <typename F>
   void iterate_nearest_neighbors(const ThreeVector& point, F&& func) {
     // get the 3D indices of the cell containing the given point
-    const int ix = numeric_cast<int>(
+    int ix = numeric_cast<int>(
         std::floor((point.x1() - origin_[0]) / cell_sizes_[0]));
-    const int iy = numeric_cast<int>(
+    int iy = numeric_cast<int>(
         std::floor((point.x2() - origin_[1]) / cell_sizes_[1]));
-    const int iz = numeric_cast<int>(
+    int iz = numeric_cast<int>(
         std::floor((point.x3() - origin_[2]) / cell_sizes_[2]));
 
+    // the point can be outside of the lattice
+    if (out_of_bounds(ix, iy, iz)) {
+      return;
+    }
+    if (periodic_) {
+      ix = positive_modulo(ix, n_cells_[0]);
+      iy = positive_modulo(iy, n_cells_[1]);
+      iz = positive_modulo(iz, n_cells_[2]);
+    }
+
     logg[LLattice].debug(
         "Iterating over nearest neighbors of the cell at ix = ", ix,
         ", iy = ", iy, ", iz = ", iz);
-- 
2.43.0


From c6810914153c8d69e584d089a0c848cf36ca90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 09/39] fix: neighbors missing at the lattice edge were
 replaced by the center cell

---
 src/include/smash/lattice.h | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 93e92a2..c66633c 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -761,24 +761,16 @@ class RectangularLattice {
     const int i = index1d(ix, iy, iz);
     func(lattice_[i], i, i);
 
-    // determine the indeces of nearby cells, perform function on them
-    int ileft = index_left(ix, iy, iz);
-    func(lattice_[ileft], ileft, i);
-
-    int iright = index_right(ix, iy, iz);
-    func(lattice_[iright], iright, i);
-
-    int idown = index_down(ix, iy, iz);
-    func(lattice_[idown], idown, i);
-
-    int iup = index_up(ix, iy, iz);
-    func(lattice_[iup], iup, i);
-
-    int ibackward = index_backward(ix, iy, iz);
-    func(lattice_[ibackward], ibackward, i);
-
-    int iforward = index_forward(ix, iy, iz);
-    func(lattice_[iforward], iforward, i);
+    /* determine the indices of nearby cells, perform function on them; on the
+     * edge of a lattice which is not periodic some of them do not exist */
+    for (const int neighbor :
+         {index_left(ix, iy, iz), index_right(ix, iy, iz),
+          index_down(ix, iy, iz), index_up(ix, iy, iz),
+          index_backward(ix, iy, iz), index_forward(ix, iy, iz)}) {
+      if (periodic_ || neighbor != i) {
+        func(lattice_[neighbor], neighbor, i);
+      }
+    }
   }
 
   /**
-- 
2.43.0


From aa8d84f0f836731cbb8302a067b3cca391ecefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 10/39] fix: reset_and_resize with a new number of cells did
 not resize the lattice

---
 src/include/smash/lattice.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index c66633c..88b1024 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -826,6 +826,7 @@ class RectangularLattice {
       origin_ = *new_origin;
     if (new_cells)
       n_cells_ = *new_cells;
+    lattice_.resize(n_cells_[0] * n_cells_[1] * n_cells_[2]);
     cell_sizes_ = {lattice_sizes_[0] / n_cells_[0],
                    lattice_sizes_[1] / n_cells_[1],
                    lattice_sizes_[2] / n_cells_[2]};
-- 
2.43.0


From b9db90bbe8b51e247588e458e249dcad32ad6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 11/39] fix: antiparticles of bottom mesons had no bar in their
 name

The neutral ones had the name of their antiparticle, and both were put into
one isospin multiplet of four states.
---
 src/particletype.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particletype.cc b/src/particletype.cc
index b00ed82..abf9a13 100644
--- a/src/particletype.cc
+++ b/src/particletype.cc
@@ -165,7 +165,7 @@ static std::string antiname(const std::string &name, PdgCode code) {
 
   // baryons & strange mesons: insert a bar
   if (code.baryon_number() != 0 || code.strangeness() != 0 ||
-      code.charmness() != 0 || code.is_neutrino()) {
+      code.charmness() != 0 || code.bottomness() != 0 || code.is_neutrino()) {
     constexpr char bar[] = "\u0305";
     basename.insert(utf8::sequence_length(basename.begin()), bar);
   }
-- 
2.43.0


From b2dd4655451681f253bf7af968ad65b4363b0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 12/39] fix: decays with a small angular momentum were refused

The spins of the daughters can be coupled to any total spin between the
extreme ones, for instance two spins 1 to spin 1, which allows L=0 for a
mother of spin 1.
---
 src/decaymodes.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 61df77e..2a73b3f 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -136,28 +136,25 @@ inline std::size_t find_offset(PdgCode pdg) {
 }  // unnamed namespace
 
 static int min_angular_momentum(int s0, int s1, int s2) {
-  int min_L = std::min(std::abs(s0 - s1 - s2), std::abs(s0 - s1 + s2));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2));
-  if (min_L % 2 != 0) {
+  if ((s0 + s1 + s2) % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
-  return min_L / 2;
+  // distance of s0 to the range of total spins of the daughters
+  const int min_S = std::abs(s1 - s2);
+  const int max_S = s1 + s2;
+  return std::max({0, min_S - s0, s0 - max_S}) / 2;
 }
 
 static int min_angular_momentum(int s0, int s1, int s2, int s3) {
-  int min_L =
-      std::min(std::abs(s0 - s1 + s2 + s3), std::abs(s0 + s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 - s3));
-  if (min_L % 2 != 0) {
+  if ((s0 + s1 + s2 + s3) % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
-  return min_L / 2;
+  // distance of s0 to the range of total spins of the daughters
+  const int max_S = s1 + s2 + s3;
+  const int min_S = std::max(max_S % 2, 2 * std::max({s1, s2, s3}) - max_S);
+  return std::max({0, min_S - s0, s0 - max_S}) / 2;
 }
 
 void DecayModes::load_decaymodes(const std::string &input) {
-- 
2.43.0


From 99da0b8767a5ddcbaf3a198d8a6cf7422cf00e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 13/39] fix: spin of the third daughter in the angular momentum
 check

---
 src/decaymodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 2a73b3f..3ed5e53 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -337,7 +337,7 @@ void DecayModes::load_decaymodes(const std::string &input) {
                      isotype_daughter_3.parity();
             const int s1 = isotype_daughter_1.spin();
             const int s2 = isotype_daughter_2.spin();
-            const int s3 = isotype_daughter_2.spin();
+            const int s3 = isotype_daughter_3.spin();
             min_L = min_angular_momentum(s0, s1, s2, s3);
             max_L = (s0 + s1 + s2 + s3) / 2;
             // loop through multiplets
-- 
2.43.0


From 2b362a66a4dc3b0908551e1830a4c1dd60b8e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 14/39] fix: crash on a decay mode before the first decaying
 particle

---
 src/decaymodes.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 3ed5e53..1ae2088 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -242,6 +242,11 @@ void DecayModes::load_decaymodes(const std::string &input) {
         }
       }
     } else {
+      if (isotype_mother == nullptr) {
+        throw LoadFailure("Decay mode without a decaying particle in " +
+                          ("decaymodes.txt:" + std::to_string(line.number)) +
+                          ": '" + line.text + "'");
+      }
       std::istringstream lineinput(line.text);
       std::vector<std::string> decay_particles;
       decay_particles.reserve(3);
-- 
2.43.0


From c4064f70be1ac60cc00af7864a3f5e475dd48ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 15/39] fix: decay of the psi(3770) into D D violated charge
 conservation

The branching ratios are those of the default decay modes.
---
 input/box/decaymodes.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/input/box/decaymodes.txt b/input/box/decaymodes.txt
index 3690338..3e16453 100644
--- a/input/box/decaymodes.txt
+++ b/input/box/decaymodes.txt
@@ -913,7 +913,8 @@ hc
 0.4 2 φ f₁(1285)
 
 Ψ(3770)
-0.93 1 D D
+0.52 1 D⁰ D̅⁰
+0.41 1 D⁺ D̅⁻
 0.07 1 J/Ψ ρ⁰
 
 ################## charm baryons ######################
-- 
2.43.0


From 97d1585d49205861b363b868d9a3b95511a9686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:22 +0000
Subject: [PATCH 16/39] fix: never sample a negative multiplicity in the
 Gaussian branch of the Bessel sampler

---
 src/random.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 4049abf..d162316 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -72,9 +72,13 @@ random::BesselSampler::BesselSampler(const double poisson_mean1,
 }
 
 std::pair<int, int> random::BesselSampler::sample() {
-  const int N_smaller = numeric_cast<int>(
-      (m_ >= m_switch_method_) ? std::round(random::normal(mu_, sigma_))
-                               : std::floor(dist_()));
+  int N_smaller;
+  do {
+    // The gaussian approximation has a tail of negative multiplicities.
+    N_smaller = numeric_cast<int>((m_ >= m_switch_method_)
+                                      ? std::round(random::normal(mu_, sigma_))
+                                      : std::floor(dist_()));
+  } while (N_smaller < 0);
   return N_is_positive_ ? std::make_pair(N_smaller + N_, N_smaller)
                         : std::make_pair(N_smaller, N_smaller + N_);
 }
-- 
2.43.0


From bbf8f87e4e3229fa8fa3b0d3c2ae074e266be774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 17/39] fix: do not read beyond the labels of keys shorter than
 those taken as maps

---
 src/configuration.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 0325c1f..760376b 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -524,9 +524,9 @@ void adjust_list_of_labels_dealing_with_keys_taken_as_maps(
     std::for_each(list_of_input_key_labels.begin(),
                   list_of_input_key_labels.end(),
                   [&labels](KeyLabels &labels_of_input_key) {
-                    if (std::equal(labels.begin(), labels.end(),
-                                   labels_of_input_key.begin(),
-                                   labels_of_input_key.begin() + labels.size()))
+                    if (labels_of_input_key.size() >= labels.size() &&
+                        std::equal(labels.begin(), labels.end(),
+                                   labels_of_input_key.begin()))
                       labels_of_input_key = labels;
                   });
   }
-- 
2.43.0


From 26015f7243523376754b7bd4ab004cf774a38eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:46 +0000
Subject: [PATCH 18/39] fix: one suppressed species made the energy density of
 the hadron gas vanish

---
 src/hadgas_eos.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadgas_eos.cc b/src/hadgas_eos.cc
index 959ac9b..e14a058 100644
--- a/src/hadgas_eos.cc
+++ b/src/hadgas_eos.cc
@@ -293,7 +293,7 @@ double HadronGasEos::energy_density(double T, double mub, double mus,
     double x = beta * (mub * ptype.baryon_number() + mus * ptype.strangeness() +
                        muq * ptype.charge() - ptype.mass());
     if (x < -500.0) {
-      return 0.0;
+      continue;
     }
     x = std::exp(x);
     const size_t g = ptype.spin() + 1;
-- 
2.43.0


From 69154753b291b5c57098752f536f3b6b16aa2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:46 +0000
Subject: [PATCH 19/39] fix: charge density of a thermalizer cell was not taken
 to its rest frame

---
 src/grandcan_thermalizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grandcan_thermalizer.cc b/src/grandcan_thermalizer.cc
index 7273993..23964b9 100644
--- a/src/grandcan_thermalizer.cc
+++ b/src/grandcan_thermalizer.cc
@@ -54,10 +54,10 @@ void ThermLatticeNode::compute_rest_frame_quantities(HadronGasEos &eos) {
     }
     const double gamma_inv = std::sqrt(1.0 - v_.sqr());
     EosTable::table_element tabulated;
-    eos.from_table(tabulated, e_, gamma_inv * nb_, nq_);
+    eos.from_table(tabulated, e_, gamma_inv * nb_, gamma_inv * nq_);
     if (!eos.is_tabulated() || tabulated.p < 0.0) {
       auto T_mub_mus_muq =
-          eos.solve_eos(e_, gamma_inv * nb_, gamma_inv * ns_, nq_);
+          eos.solve_eos(e_, gamma_inv * nb_, gamma_inv * ns_, gamma_inv * nq_);
       T_ = T_mub_mus_muq[0];
       mub_ = T_mub_mus_muq[1];
       mus_ = T_mub_mus_muq[2];
-- 
2.43.0


From 44e1c1584d344638ba419b9433d74f6c61cb0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:46 +0000
Subject: [PATCH 20/39] fix: Skyrme force had the wrong sign at negative net
 baryon density

---
 src/potentials.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/potentials.cc b/src/potentials.cc
index 4abd3b5..c868a6e 100644
--- a/src/potentials.cc
+++ b/src/potentials.cc
@@ -168,13 +168,13 @@ std::pair<ThreeVector, ThreeVector> Potentials::skyrme_force(
     const ThreeVector curl_vecjB) const {
   ThreeVector E_component(0.0, 0.0, 0.0), B_component(0.0, 0.0, 0.0);
   if (use_skyrme_) {
-    const int sgn = rhoB > 0 ? 1 : -1;
+    // The potential is odd in the density, so its derivative is even
     const double abs_rhoB = std::abs(rhoB);
-    const double dV_drho = sgn *
-                           (skyrme_a_ + skyrme_b_ * skyrme_tau_ *
-                                            std::pow(abs_rhoB / nuclear_density,
-                                                     skyrme_tau_ - 1)) *
-                           mev_to_gev / nuclear_density;
+    const double dV_drho =
+        (skyrme_a_ +
+         skyrme_b_ * skyrme_tau_ *
+             std::pow(abs_rhoB / nuclear_density, skyrme_tau_ - 1)) *
+        mev_to_gev / nuclear_density;
     E_component -= dV_drho * (grad_j0B + dvecjB_dt);
     B_component += dV_drho * curl_vecjB;
   }
-- 
2.43.0


From 46297a3cb7dcc9e345279ce0a22e5599d88b0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 21/39] fix: VDF field did not change sign with the baryon
 current

---
 src/fields.cc     | 6 +-----
 src/potentials.cc | 3 ---
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/fields.cc b/src/fields.cc
index 8ae103e..ac8c6c6 100644
--- a/src/fields.cc
+++ b/src/fields.cc
@@ -56,15 +56,11 @@ void update_fields_lattice(
       abs_rhoB_at_i = very_small_double;
     }
 
-    // this needs to be used in order to prevent trying to calculate something
-    // an expression like (-rhoB)^{3.4}
-    const int sgn = rhoB_at_i > 0 ? 1 : -1;
-
     // field contributions as obtained in the VDF model
     double field_contribution = 0.0;
     for (int j = 0; j < potentials.number_of_terms(); j++) {
       field_contribution +=
-          sgn * potentials.coeffs()[j] *
+          potentials.coeffs()[j] *
           std::pow(abs_rhoB_at_i / rhoB_0, potentials.powers()[j] - 2.0) /
           rhoB_0;
     }
diff --git a/src/potentials.cc b/src/potentials.cc
index c868a6e..3086b9c 100644
--- a/src/potentials.cc
+++ b/src/potentials.cc
@@ -104,7 +104,6 @@ FourVector Potentials::vdf_pot(double rhoB, const FourVector jmuB_net) const {
   // this needs to be used in order to prevent trying to calculate something
   // like
   // (-rho_B)^{3.4}
-  const int sgn = rhoB > 0 ? 1 : -1;
   double abs_rhoB = std::abs(rhoB);
   // to prevent NAN expressions
   if (abs_rhoB < very_small_double) {
@@ -117,7 +116,6 @@ FourVector Potentials::vdf_pot(double rhoB, const FourVector jmuB_net) const {
     F_2 += coeffs_[i] * std::pow(abs_rhoB, powers_[i] - 2.0) /
            std::pow(saturation_density_, powers_[i] - 1.0);
   }
-  F_2 = F_2 * sgn;
   // Return in GeV
   return F_2 * jmuB_net;
 }
@@ -226,7 +224,6 @@ std::pair<ThreeVector, ThreeVector> Potentials::vdf_force(
       F_2 += coeffs_[i] * std::pow(abs_rhoB, powers_[i] - 2.0) /
              std::pow(saturation_density_, powers_[i] - 1.0);
     }
-    F_2 = F_2 * sgn;
 
     E_component -= (F_1 * (grad_rhoB * j0B + drhoB_dt * vecjB) +
                     F_2 * (grad_j0B + dvecjB_dt));
-- 
2.43.0


From ba17ea686045ba941d55d131a2bff61bfcb3d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 22/39] fix: height of the smearing kernel took its width for
 its variance

---
 src/collidermodus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 6e11e33..1dbc771 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -357,7 +357,8 @@ ColliderModus::ColliderModus(Configuration modus_config,
           << max_time << " fm.";
       IC_parameters_->formation_time_fraction = form_time_fraction;
       IC_parameters_->smearing_kernel_at_0 =
-          std::pow(2 * M_PI * params.gaussian_sigma, -1.5);
+          std::pow(2 * M_PI * params.gaussian_sigma * params.gaussian_sigma,
+                   -1.5);
       IC_parameters_->delay_initial_elastic = modus_cfg.take(
           InputKeys::modi_collider_initialConditions_delayInitialElastic);
     }
-- 
2.43.0


From 21c92c75e1dc13c1ce142fe21eb362dfb080af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 23/39] fix: tiny negative numbers cut off the rest of the text
 output

---
 src/include/smash/outputformatter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/outputformatter.h b/src/include/smash/outputformatter.h
index b70339b..05b8bf1 100644
--- a/src/include/smash/outputformatter.h
+++ b/src/include/smash/outputformatter.h
@@ -62,7 +62,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_double(double value) {
-    constexpr size_t kBufferSize = 13;
+    constexpr size_t kBufferSize = 14;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
@@ -85,7 +85,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_precise_double(double value) {
-    constexpr size_t kBufferSize = 16;
+    constexpr size_t kBufferSize = 17;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%.9g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
-- 
2.43.0


From 3ee7dcd83c4c3f04450175ae11847959c1715580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 24/39] fix: VTK output of an empty particle list read beyond
 the list

---
 src/vtkoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index affe14e..984c3b8 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -134,7 +134,7 @@ void VtkOutput::write(const Particles &particles) {
   }
   std::fprintf(file_.get(), "SCALARS is_formed int 1\n");
   std::fprintf(file_.get(), "LOOKUP_TABLE default\n");
-  double current_time = particles.time();
+  const double current_time = particles.is_empty() ? 0.0 : particles.time();
   for (const auto &p : particles) {
     std::fprintf(file_.get(), "%s\n",
                  (p.formation_time() > current_time) ? "0" : "1");
-- 
2.43.0


From 78ff6fb52b412fbdc4d4ead4dbcce880cb7d07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 25/39] fix: thermodynamic output of net densities stopped at
 spacelike currents

---
 src/thermodynamicoutput.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/thermodynamicoutput.cc b/src/thermodynamicoutput.cc
index 87a65bb..f862aac 100644
--- a/src/thermodynamicoutput.cc
+++ b/src/thermodynamicoutput.cc
@@ -185,13 +185,22 @@ void ThermodynamicOutput::at_intermediate_time(
   std::fprintf(file_.get(), "%6.2f ", clock->current_time());
   constexpr bool compute_gradient = false;
   if (out_par_.td_rho_eckart) {
-    FourVector jmu = FourVector();
+    /* The net current might be spacelike, hence positive and negative
+     * contributions are separated as it is done for the lattice. */
+    ParticleList positive, negative;
     for (const Particles &particles : ensembles) {
-      jmu += std::get<1>(current_eckart(
-          out_par_.td_position, particles, dens_param, out_par_.td_dens_type,
-          compute_gradient, out_par_.td_smearing));
+      for (const ParticleData &p : particles) {
+        const double factor = density_factor(p.type(), out_par_.td_dens_type);
+        (factor > 0. ? positive : negative).push_back(p);
+      }
     }
-    std::fprintf(file_.get(), "%15.12f ", jmu.abs());
+    const FourVector jmu_pos = std::get<1>(current_eckart(
+        out_par_.td_position, positive, dens_param, out_par_.td_dens_type,
+        compute_gradient, out_par_.td_smearing));
+    const FourVector jmu_neg = std::get<1>(current_eckart(
+        out_par_.td_position, negative, dens_param, out_par_.td_dens_type,
+        compute_gradient, out_par_.td_smearing));
+    std::fprintf(file_.get(), "%15.12f ", jmu_pos.abs() - jmu_neg.abs());
   }
   if (out_par_.td_tmn || out_par_.td_tmn_landau || out_par_.td_v_landau) {
     EnergyMomentumTensor Tmn;
-- 
2.43.0


From b44ecaef36d17d000e6369e18079b1854fe2eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 26/39] fix: widths and spectral functions no longer depend on
 the order of their first use

The shared integrators were used re-entrantly by nested lazy tabulations, which
overwrote the workspace of the integration in progress.
---
 src/decaytype.cc    | 6 ++++--
 src/particletype.cc | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/decaytype.cc b/src/decaytype.cc
index 7206bc8..141d0db 100644
--- a/src/decaytype.cc
+++ b/src/decaytype.cc
@@ -140,8 +140,6 @@ double TwoBodyDecaySemistable::get_Lambda() {
 
 /// Number of tabulation points.
 constexpr size_t num_tab_pts = 200;
-static /*thread_local (see #3075)*/ Integrator integrate;
-
 double TwoBodyDecaySemistable::rho(double mass) const {
   if (tabulation_ == nullptr) {
     /* TODO(weil): Move this lazy init to a global initialization function,
@@ -150,6 +148,9 @@ double TwoBodyDecaySemistable::rho(double mass) const {
     const double tabulation_interval = std::max(2., 10. * res->width_at_pole());
     const double m_stable = particle_types_[0]->mass();
     const double mres_min = res->min_mass_kinematic();
+    /* Must not be shared, as the integrand may need to integrate, too (to
+     * initialize the spectral function). */
+    Integrator integrate;
 
     tabulation_ = std::make_unique<Tabulation>(
         threshold(), tabulation_interval, num_tab_pts, [&](double sqrts) {
@@ -467,6 +468,7 @@ double ThreeBodyDecayDilepton::width(double, double G0, double m) const {
     // integrate differential width to obtain partial width
     double M0 = mother_->mass();
     double G0tot = mother_->width_at_pole();
+    Integrator integrate;
     tabulation_ = std::make_unique<Tabulation>(
         m_other + 2 * m_l, M0 + 10 * G0tot, num_tab_pts, [&](double m_parent) {
           const double bottom = 2 * m_l;
diff --git a/src/particletype.cc b/src/particletype.cc
index abf9a13..29e4550 100644
--- a/src/particletype.cc
+++ b/src/particletype.cc
@@ -570,8 +570,9 @@ double ParticleType::get_partial_in_width(const double m,
 double ParticleType::spectral_function(double m) const {
   if (norm_factor_ < 0.) {
     /* Initialize the normalization factor
-     * by integrating over the unnormalized spectral function. */
-    static /*thread_local (see #3075)*/ Integrator integrate;
+     * by integrating over the unnormalized spectral function. The integrator
+     * must not be shared, as the integrand may need to integrate, too. */
+    Integrator integrate;
     const double width = width_at_pole();
     const double m_pole = mass();
     // We transform the integral using m = m_min + width_pole * tan(x), to
-- 
2.43.0


From 8c24883b1d7a34484cff4ecbf2420d8c0e094279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 27/39] fix: a custom clock gets its times back when it is
 reset for another event

---
 src/include/smash/clock.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 138fcb0..2fc03a0 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -416,6 +416,7 @@ class CustomClock : public Clock {
    */
   explicit CustomClock(std::vector<double> times) : custom_times_(times) {
     std::sort(custom_times_.begin(), custom_times_.end());
+    configured_times_ = custom_times_;
     counter_ = -1;
   }
 
@@ -456,6 +457,8 @@ class CustomClock : public Clock {
    * \note The second \c bool parameter is irrelevant and unused here.
    */
   void reset(double start_time, bool) override {
+    // The times removed in one event may lie ahead in the next one
+    custom_times_ = configured_times_;
     counter_ = -1;
     start_time_ = start_time;
   }
@@ -501,6 +504,8 @@ class CustomClock : public Clock {
  private:
   /// Vector of times where output is generated
   std::vector<double> custom_times_;
+  /// All times the clock was created with, in ascending order
+  std::vector<double> configured_times_;
   /// Starting time of the simulation
   double start_time_ = 0.;
 };
-- 
2.43.0


From e342d8ce068f3b3a118ad08364550a5e28a735ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 28/39] fix: the fluidization lattice starts every event with
 its initial size

---
 src/collidermodus.cc              | 9 +++++++++
 src/include/smash/collidermodus.h | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 1dbc771..62700b8 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -338,6 +338,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
           InputKeys::modi_collider_initialConditions_fluidProcesses);
 
       double min_size = std::max(min_time, 40.);
+      initial_fluid_lattice_side_ = min_size;
       std::array<double, 3> length{2 * min_size, 2 * min_size, 2 * min_size};
       std::array<double, 3> origin{-min_size, -min_size, -min_size};
       std::array<int, 3> cell_array{cells, cells, cells};
@@ -512,6 +513,14 @@ ColliderModus::create_alphaclustered_nucleus(Configuration &nucleus_cfg,
 
 double ColliderModus::initial_conditions(Particles *particles,
                                          const ExperimentParameters &) {
+  if (fluid_lattice_) {
+    // It may have grown in the previous event
+    const double side = initial_fluid_lattice_side_;
+    fluid_lattice_->reset_and_resize(
+        std::array<double, 3>{2 * side, 2 * side, 2 * side},
+        std::array<double, 3>{-side, -side, -side}, std::nullopt);
+  }
+
   // Populate the nuclei with appropriately distributed nucleons.
   // If deformed, this includes rotating the nucleus.
   projectile_->arrange_nucleons();
diff --git a/src/include/smash/collidermodus.h b/src/include/smash/collidermodus.h
index 4f73577..5824cf8 100644
--- a/src/include/smash/collidermodus.h
+++ b/src/include/smash/collidermodus.h
@@ -314,6 +314,8 @@ class ColliderModus : public ModusDefault {
   /// Energy-momentum tensor lattice for dynamic fluidization
   std::unique_ptr<RectangularLattice<EnergyMomentumTensor>> fluid_lattice_ =
       nullptr;
+  /// Half of the length of the fluidization lattice at the start of an event
+  double initial_fluid_lattice_side_ = 0.0;
   /**
    * Energy density background from hydrodynamic evolution, with particle
    * indices as keys. Useful when using SMASH as a library.
-- 
2.43.0


From d057297ec564bc66b234cf76e583a15bab605152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 29/39] fix: the beam momenta of the previous event are dropped
 before those of the next are stored

---
 src/include/smash/experiment.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 81a1e93..55c4e8c 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2237,8 +2237,9 @@ void Experiment<Modus>::initialize_new_event() {
   /* In the ColliderModus, if Fermi motion is frozen, assign the beam momenta
    * to the nucleons in both the projectile and the target. Every ensemble
    * gets the same beam momenta, so no need to create beam_momenta_ vector
-   * for every ensemble.
+   * for every ensemble. Those of the previous event have to go.
    */
+  beam_momentum_.clear();
   if (modus_.is_collider() && modus_.fermi_motion() == FermiMotion::Frozen) {
     for (ParticleData &particle : ensembles_[0]) {
       const double m = particle.effective_mass();
-- 
2.43.0


From 6ab5a90dde23bbe754c55ea3dae1269b68e51635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 30/39] fix: whether core and corona may interact was decided
 before the type of the process was known

---
 src/include/smash/action.h     |  2 +-
 src/include/smash/experiment.h | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/include/smash/action.h b/src/include/smash/action.h
index e6bbe74..d958803 100644
--- a/src/include/smash/action.h
+++ b/src/include/smash/action.h
@@ -378,7 +378,7 @@ class Action {
   const double time_of_execution_;
 
   /// type of process
-  ProcessType process_type_;
+  ProcessType process_type_ = ProcessType::None;
 
   /**
    * Box length: needed to determine coordinates of collision
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 55c4e8c..f4b73a2 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2268,6 +2268,12 @@ bool Experiment<Modus>::perform_action(Action &action, int i_ensemble,
                             " (discarded: invalid)");
     return false;
   }
+  try {
+    action.generate_final_state();
+  } catch (Action::StochasticBelowEnergyThreshold &) {
+    return false;
+  }
+  // The type of most actions is only known once the final state is generated
   const bool core_in_incoming =
       std::any_of(incoming.begin(), incoming.end(),
                   [](const ParticleData &p) { return p.is_core(); });
@@ -2287,11 +2293,6 @@ bool Experiment<Modus>::perform_action(Action &action, int i_ensemble,
       }
     }
   }
-  try {
-    action.generate_final_state();
-  } catch (Action::StochasticBelowEnergyThreshold &) {
-    return false;
-  }
   logg[LExperiment].debug("Process Type is: ", action.get_type());
   if (include_pauli_blocking && pauli_blocker_ &&
       action.is_pauli_blocked(ensembles_, *pauli_blocker_)) {
-- 
2.43.0


From bff1137165de30d9053e7ae11db43d51056f6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 31/39] fix: the potentials and densities of the previous event
 no longer act on the first time step

---
 src/include/smash/experiment.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index f4b73a2..0f313c1 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2103,6 +2103,13 @@ void Experiment<Modus>::initialize_new_event() {
   for (Particles &particles : ensembles_) {
     modus_.impose_boundary_conditions(&particles, outputs_);
   }
+  // The potentials of the previous event must not act on this one
+  if (UB_lat_) {
+    UB_lat_->reset();
+  }
+  if (UI3_lat_) {
+    UI3_lat_->reset();
+  }
   // Reset the simulation clock
   double timestep = delta_time_startup_;
 
@@ -2178,6 +2185,22 @@ void Experiment<Modus>::initialize_new_event() {
       E_mean_field = calculate_mean_field_energy(*potentials_, *jmu_B_lat_,
                                                  EM_lat_.get(), parameters_);
     }
+    /* The time derivatives of the first timestep are taken with respect to the
+     * values on these lattices, which are still those of the previous event */
+    if (potentials_->use_symmetry() && jmu_I3_lat_ != nullptr) {
+      update_lattice(jmu_I3_lat_.get(), old_jmu_auxiliary_.get(),
+                     new_jmu_auxiliary_.get(), four_gradient_auxiliary_.get(),
+                     LatticeUpdate::EveryTimestep, DensityType::BaryonicIsospin,
+                     density_param_, ensembles_,
+                     parameters_.labclock->timestep_duration(), true);
+    }
+    if (fields_lat_ && jmu_B_lat_) {
+      update_fields_lattice(
+          fields_lat_.get(), old_fields_auxiliary_.get(),
+          new_fields_auxiliary_.get(), fields_four_gradient_auxiliary_.get(),
+          jmu_B_lat_.get(), LatticeUpdate::EveryTimestep, *potentials_,
+          parameters_.labclock->timestep_duration());
+    }
   }
   initial_mean_field_energy_ = E_mean_field;
   logg[LExperiment].info() << format_measurements(
-- 
2.43.0


From ee88025fb12bb9846bdf49127022176163a97aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 32/39] fix: an event of a particle list may end with a line
 that has 'end' as its last word

That is how the documentation shows it, but such events were joined.
---
 src/listmodus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 25a30f9..e75c8ad 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -366,7 +366,8 @@ std::string ListModus::next_event_() {
   const std::string needle = " end ";
   std::string line{};
   while (getline(ifs, line)) {
-    if (line.find(needle) == std::string::npos) {
+    // It may also be the last word of the line
+    if ((line + " ").find(needle) == std::string::npos) {
       event_string += line + "\n";
     } else {
       break;
-- 
2.43.0


From db34ffdd1d05586daee0034e3756586bfaf9b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 33/39] fix: truncated files of tabulations are not used

An interrupted process leaves such files behind; the missing values were zeros.
---
 src/tabulation.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tabulation.cc b/src/tabulation.cc
index 10d49fc..0008d39 100644
--- a/src/tabulation.cc
+++ b/src/tabulation.cc
@@ -98,7 +98,7 @@ static void swrite(std::ofstream& stream, size_t x) {
  * \return Read value.
  */
 static size_t sread_size(std::ifstream& stream) {
-  uint64_t x;
+  uint64_t x = 0;
   stream.read(reinterpret_cast<char*>(&x), sizeof(x));
   if (x > std::numeric_limits<size_t>::max()) {
     throw std::runtime_error("trying to read vector larger than supported");
@@ -129,6 +129,9 @@ static void swrite(std::ofstream& stream, const std::vector<double> x) {
 static std::vector<double> sread_vector(std::ifstream& stream) {
   const size_t n = sread_size(stream);
   std::vector<double> x;
+  if (!stream) {
+    return x;
+  }
   x.resize(n);
   stream.read(reinterpret_cast<char*>(x.data()), sizeof(double) * n);
   return x;
@@ -176,6 +179,10 @@ Tabulation Tabulation::from_file(std::ifstream& stream, sha256::Hash hash) {
   t.x_max_ = sread_double(stream);
   t.inv_dx_ = sread_double(stream);
   t.values_ = sread_vector(stream);
+  if (!stream) {
+    // The file is truncated, e.g. since writing it was interrupted
+    return Tabulation();
+  }
   return t;
 }
 
-- 
2.43.0


From d18302544d029fedfddaa9ca4373c9cb1d4d732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:14 +0000
Subject: [PATCH 34/39] fix: pi+ p total cross section is never negative below
 its first data point

---
 src/parametrizations.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parametrizations.cc b/src/parametrizations.cc
index aa97162..65afef2 100644
--- a/src/parametrizations.cc
+++ b/src/parametrizations.cc
@@ -9,6 +9,7 @@
 
 #include "smash/parametrizations.h"
 
+#include <algorithm>
 #include <cmath>
 #include <initializer_list>
 #include <iostream>
@@ -149,8 +150,9 @@ double piplusp_total(double sqrts) {
         std::make_unique<InterpolateDataLinear<double>>(dedup_x, dedup_y);
   }
   const double last = *(PIPLUSP_TOT_SQRTS.end() - 1);
+  // the extrapolation below the first data point can be negative
   if (sqrts < last)
-    return (*piplusp_total_interpolation)(sqrts);
+    return std::max((*piplusp_total_interpolation)(sqrts), 0.);
   else
     return piplusp_high_energy(sqrts * sqrts);
 }
-- 
2.43.0


From 1d6182dcd6d56c7a19ea0fab02a8802b48112330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:14 +0000
Subject: [PATCH 35/39] fix: respect Decay_Initial_Particles instead of always
 using its default

---
 src/include/smash/decayactionsfinder.h | 12 ++++++++----
 src/include/smash/experiment.h         |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/include/smash/decayactionsfinder.h b/src/include/smash/decayactionsfinder.h
index a41ea05..15eca00 100644
--- a/src/include/smash/decayactionsfinder.h
+++ b/src/include/smash/decayactionsfinder.h
@@ -33,15 +33,20 @@ class DecayActionsFinder : public ActionFinderInterface {
    * \param[in] do_non_strong_decays whether to do non-strong decays at the end
    * \param[in] force_decays_at_end whether to enforce decays at the end
    * \param[in] spin_interaction_type Which type of spin interaction to use
+   * \param[in] decay_initial_particles whether initial-state particles can
+   *                                    decay before their first collision
    */
   explicit DecayActionsFinder(
       double res_lifetime_factor, bool do_non_strong_decays,
       bool force_decays_at_end,
-      SpinInteractionType spin_interaction_type = SpinInteractionType::Off)
+      SpinInteractionType spin_interaction_type = SpinInteractionType::Off,
+      bool decay_initial_particles =
+          InputKeys::collTerm_decayInitial.default_value())
       : res_lifetime_factor_(res_lifetime_factor),
         do_final_non_strong_decays_(do_non_strong_decays),
         find_final_decays_(force_decays_at_end),
-        spin_interaction_type_(spin_interaction_type) {}
+        spin_interaction_type_(spin_interaction_type),
+        decay_initial_particles_(decay_initial_particles) {}
 
   /**
    * Check the whole particle list for decays.
@@ -92,8 +97,7 @@ class DecayActionsFinder : public ActionFinderInterface {
    * Whether to initial state particles can decay. Useful for analyzing
    * interactions involving one or more resonances.
    */
-  const bool decay_initial_particles_ =
-      InputKeys::collTerm_decayInitial.default_value();
+  const bool decay_initial_particles_;
 };
 
 }  // namespace smash
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 0f313c1..f2cbe59 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1056,7 +1056,8 @@ Experiment<Modus>::Experiment(Configuration &config,
     }
     action_finders_.emplace_back(std::make_unique<DecayActionsFinder>(
         parameters_.res_lifetime_factor, parameters_.do_non_strong_decays,
-        force_decays_, parameters_.spin_interaction_type));
+        force_decays_, parameters_.spin_interaction_type,
+        parameters_.decay_initial_particles));
   }
   bool no_coll = config.take(InputKeys::collTerm_noCollisions);
   if ((parameters_.two_to_one || parameters_.included_2to2.any() ||
-- 
2.43.0


From d82dbb07007072994e79117d59b3a109653c0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 36/39] fix: refuse time increments below the resolution of the
 clock

---
 src/include/smash/clock.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 2fc03a0..0a07dab 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -236,7 +236,8 @@ class UniformClock : public Clock {
       : timestep_duration_(convert(dt)),
         reset_time_(convert(time)),
         time_end_(convert(time_end)) {
-    if (dt <= 0.) {
+    // The increment might vanish only in the internal representation
+    if (dt <= 0. || timestep_duration_ == 0) {
       throw std::range_error("Time increment must be positive and non-zero");
     }
     if (reset_time_ >= time_end_) {
@@ -304,7 +305,7 @@ class UniformClock : public Clock {
    * \param[in] dt new time step size
    */
   void set_timestep_duration(double dt) {
-    if (dt <= 0.) {
+    if (dt <= 0. || convert(dt) == 0) {
       throw std::range_error("Time increment must be positive and non-zero!");
     }
     reset_time_ += timestep_duration_ * counter_;
-- 
2.43.0


From b343a874e416f575553663b673d2afcbf86b6ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:44 +0000
Subject: [PATCH 37/39] fix: refuse negative numbers of particles in initial
 conditions

---
 src/boxmodus.cc    | 5 +++++
 src/nucleus.cc     | 6 ++++++
 src/spheremodus.cc | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/boxmodus.cc b/src/boxmodus.cc
index 2b3cf95..5cbffcd 100644
--- a/src/boxmodus.cc
+++ b/src/boxmodus.cc
@@ -11,6 +11,7 @@
 #include <cstdlib>
 #include <list>
 #include <map>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -141,6 +142,10 @@ double BoxModus::initial_conditions(Particles *particles,
     logg[LBox].info("Initial hadron gas charge density ", nq_init);
   } else {
     for (const auto &p : init_multipl_) {
+      if (p.second < 0) {
+        throw std::invalid_argument(
+            "Input Error: Init_Multiplicities must be nonnegative.");
+      }
       particles->create(p.second * parameters.testparticles, p.first);
       logg[LBox].debug("Particle ", p.first, " initial multiplicity ",
                        p.second);
diff --git a/src/nucleus.cc b/src/nucleus.cc
index 2c66eec..060740f 100644
--- a/src/nucleus.cc
+++ b/src/nucleus.cc
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <limits>
 #include <map>
+#include <stdexcept>
 #include <string>
 
 #include "smash/angles.h"
@@ -507,6 +508,11 @@ void Nucleus::fill_from_list(const std::map<PdgCode, int> &particle_list,
                              int testparticles) {
   testparticles_ = testparticles;
   for (auto n = particle_list.cbegin(); n != particle_list.cend(); ++n) {
+    if (n->second < 0) {
+      throw std::invalid_argument(
+          "Input Error: The number of particles in a nucleus must be "
+          "nonnegative.");
+    }
     const ParticleType &current_type = ParticleType::find(n->first);
     double current_mass = current_type.mass();
     for (unsigned int i = 0; i < n->second * testparticles_; i++) {
diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6778a72..f399820 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -14,6 +14,7 @@
 #include <cstdlib>
 #include <list>
 #include <map>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -187,6 +188,10 @@ double SphereModus::initial_conditions(Particles *particles,
     logg[LSphere].info("Initial hadron gas charge density ", nq_init);
   } else {
     for (const auto &p : init_multipl_) {
+      if (p.second < 0) {
+        throw std::invalid_argument(
+            "Input Error: Init_Multiplicities must be nonnegative.");
+      }
       particles->create(p.second * parameters.testparticles, p.first);
       logg[LSphere].debug("Particle ", p.first, " initial multiplicity ",
                           p.second);
-- 
2.43.0


From 67c52cb8c59e636bac41bc170f684ba37eed52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:44 +0000
Subject: [PATCH 38/39] fix: refuse an impact parameter spectrum of fewer than
 two points

---
 src/collidermodus.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 62700b8..b4950e3 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -255,6 +255,11 @@ ColliderModus::ColliderModus(Configuration modus_config,
               "Input Error: Need as many impact parameter values as yields. "
               "Please make sure that Values and Yields have the same length.");
         }
+        if (impacts.size() < 2) {
+          throw std::invalid_argument(
+              "Input Error: Need at least two impact parameter values for "
+              "custom sampling.");
+        }
         impact_interpolation_ = std::make_unique<InterpolateDataLinear<double>>(
             InterpolateDataLinear<double>(impacts, yields));
 
-- 
2.43.0


From 74c91e0ad7dda357884e221d627fc7df7e0fb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:48 +0000
Subject: [PATCH 39/39] fix: refuse boxes whose length is not positive

---
 src/boxmodus.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boxmodus.cc b/src/boxmodus.cc
index 5cbffcd..c581fe9 100644
--- a/src/boxmodus.cc
+++ b/src/boxmodus.cc
@@ -100,6 +100,9 @@ BoxModus::BoxModus(Configuration modus_config,
     throw std::invalid_argument(
         "Resonance lifetime modifier cannot be negative!");
   }
+  if (length_ <= 0.) {
+    throw std::invalid_argument("Input Error: Box length must be positive.");
+  }
   // Check consistency, just in case
   if (std::abs(length_ - parameters.box_length) > really_small) {
     throw std::runtime_error("Box length inconsistency");
-- 
2.43.0

