From f46041a3b3e45ab0dd4c27b1d7b8c83140ba53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:18 +0000
Subject: [PATCH 01/15] fix: keep particles inside the grid when the domain
 expands by a whole cell

remeshFixedCont rounded the expansion factor down (tolerance subtracted), so a
particle exactly one cell beyond the initial extent fell outside the two-cell
margin and its stencil left the grid. Round the expansion up instead.
---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..9815841 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8*dx) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx + 1e-8*dx) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8*dx) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx + 1e-8*dx) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx + 1e-8*dx) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx + 1e-8*dx) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From c8b0ac1608bc0e5d0ecf2baef281d7c982b6c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:18 +0000
Subject: [PATCH 02/15] fix: give periodic ghost particles an internal friction
 value

P2G reads particles.muI for every particle when use_mibf is set, but the
periodic copies had no entry, so it read past the end of the array.
---
 src/simulation/pbc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..a6470ea 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -17,6 +17,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
         particles.x.push_back(part_x-incr);
@@ -24,6 +25,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
     } // end loop over p
@@ -56,6 +58,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -71,6 +74,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
                 particles.F.push_back(particles.F[p]);
                 particles.Bmat.push_back(particles.Bmat[p]);
                 particles.tau.push_back(particles.tau[p]);
+                particles.muI.push_back(particles.muI[p]);
             }
             num_add_pbc_particles++;
             continue; // go directly to next p
@@ -97,6 +101,7 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From d6311dd9a0dfc2aaaa9168a83d421b7fc7758fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:18 +0000
Subject: [PATCH 03/15] fix: create periodic ghost particles sequentially

The parallel loop indexed the particle arrays while other threads were
appending to them (reallocation), and the order of the copies depended on the
schedule.
---
 src/simulation/pbc.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index a6470ea..06c5820 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -42,7 +42,6 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
-    #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
     for(int p = 0; p < Np; p++){
 
         TV part_x = particles.x[p]; // copy
@@ -51,15 +50,12 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = Lx - part_x(0);
         if ( diff < safety_factor*dx && diff > 0){
             part_x(0) = -diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-                particles.muI.push_back(particles.muI[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -67,15 +63,12 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = part_x(0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-                particles.muI.push_back(particles.muI[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
-- 
2.43.0


From c3579f6618d043b01e4ff8d028ac001bf97f6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:18 +0000
Subject: [PATCH 04/15] fix: mirror periodic particles that lie exactly on the
 upper edge

---
 src/simulation/pbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 06c5820..e744012 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -48,7 +48,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             particles.x.push_back(part_x);
             particles.v.push_back(particles.v[p]);
-- 
2.43.0


From a3d7bd6376bcc34ee0efa03b9b8a91f7fad7490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:33 +0000
Subject: [PATCH 05/15] fix: count plastic particles in G2P with a reduction

plastic_count was incremented by all threads without synchronisation.
---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..c29359e 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -16,7 +16,7 @@ void Simulation::G2P(){
     std::fill( particles.flip.begin(), particles.flip.end(), TV::Zero() );
     std::fill( particles.Bmat.begin(), particles.Bmat.end(), TM::Zero() );
 
-    #pragma omp parallel num_threads(n_threads)
+    #pragma omp parallel reduction(+:plastic_count) num_threads(n_threads)
     {
 
         #pragma omp for nowait
-- 
2.43.0


From f79e2fc100e85d29056ded6aba63dcc11c96ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:33 +0000
Subject: [PATCH 06/15] fix: reduce both tangential components of 3D plate
 friction consistently

The second component was computed from the already reduced first one, and a
vanishing component gave 0/0. Scale both by the same factor instead.
---
 src/simulation/boundary_collision.cpp | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..267f6a7 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T scale = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= scale;
+                        vz_rel *= scale;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +137,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T scale = (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= scale;
+                        vz_rel *= scale;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +160,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T scale = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= scale;
+                        vy_rel *= scale;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +192,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        T scale = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= scale;
+                        vz_rel *= scale;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +214,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        T scale = (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= scale;
+                        vz_rel *= scale;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +236,9 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        T scale = (vel_t - fric_vel_n) / vel_t;
+                        vx_rel *= scale;
+                        vy_rel *= scale;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From 8977d4905f93953ebd8ce57c97e3bb96501f55d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 07/15] fix: initialise the third component of the ground
 normal in 3D

---
 src/objects/object_ground.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..97d3c76 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,7 +26,7 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
+        TV n = TV::Zero();
         
         n(0) = 0;
         n(1) = 1;
-- 
2.43.0


From c29d8b38597dce0e4cbdf9eee555175e2391c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 08/15] fix: stress-free state after tensile failure of the
 capped von Mises model

---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..3e156fe 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                hencky.setZero();
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From d8ffb61133f9bdbc365624aed1671f33efbd6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 09/15] fix: no return mapping with an undefined decision when
 the hardening law is invalid

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 3e156fe..f1629b7 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -468,7 +468,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             T q_trial = q_stress;
 
             //////////////////////////////////////////////////////////////////////
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::ExpoExpl){ // Exponential Explicit Hardening
                 p_c = std::max(stress_tolerance, p0 * std::exp(-xi*particles.eps_pl_vol[p]));
@@ -552,7 +552,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (use_mibf)
                 particles.muI[p] = M;
             
-            bool perform_rma;
+            bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
-- 
2.43.0


From aab9648136482caacc5210a26aca21d46f8b17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 10/15] fix: define the consolidation pressure of MCC without
 hardening

---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index f1629b7..54671cb 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -555,6 +555,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             bool perform_rma = false;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
+                p_c = p0;
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
             }
-- 
2.43.0


From 8cd1c94c97b258a7d229a9893ecd931cfad6490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 11/15] fix: reset the plastic strain rate of particles before
 the return mapping in G2P

---
 src/simulation/g2p.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index c29359e..9f93526 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -97,6 +97,7 @@ void Simulation::G2P(){
                 TM Fe_trial = particles.F[p];
                 Fe_trial = Fe_trial + dt * v_grad * Fe_trial;
                 particles.F[p] = Fe_trial;
+                particles.delta_gamma[p] = 0;
 
                 plasticity(p, plastic_count, Fe_trial);
             }
-- 
2.43.0


From 794d60c8d93fe96811a2a0784f6b4752a0be346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:28 +0000
Subject: [PATCH 12/15] fix: keep the pressure inside the yield surface when
 the implicit MCC return mapping stops at its apex

---
 src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp | 1 +
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 46c948f..53a5760 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -68,6 +68,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0);  // the yield surface may be smaller than the tolerance
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
             
             // rescale values
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 3a3fea3..438b759 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -63,6 +63,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0);  // the yield surface may be smaller than the tolerance
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
 
             // rescale values
-- 
2.43.0


From 2e925d52336de9a1c7bda069d9c59735e62c2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 13/15] fix: include the periodic copies in the MUSL
 re-projection

---
 src/simulation/musl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..f2e4afc 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -25,6 +25,10 @@ void Simulation::MUSL(){
     } // end loop over particles
 
 
+    // The periodic copies must be part of the projection, with the updated velocities
+    if (pbc)
+        PBCAddParticles(4);
+
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
     #pragma omp parallel num_threads(n_threads)
@@ -87,6 +91,8 @@ void Simulation::MUSL(){
 
     } // end omp parallel
 
+    if (pbc)
+        PBCDelParticles();
 
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
-- 
2.43.0


From 921412e9df04d9325cd386dc6fb73e7aa4425d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 14/15] fix: keep a spare cell around the periodic mesh for
 copies at the edge of their range

---
 src/simulation/simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 2e2b745..17dda80 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -215,7 +215,7 @@ void Simulation::advanceStep(){
 
     if (pbc){
         if (current_time_step == 0)
-            remeshFixed(4);
+            remeshFixed(5); // copies reach four cells outside, one more cell for rounding
     }
     else{
         if (current_time_step == 0) {
-- 
2.43.0


From d251e25349c22bbd59301c4c64ab9bd560e47423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 15/15] fix: no undefined friction value on grid nodes without
 mass

---
 src/simulation/p2g.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/p2g.cpp b/src/simulation/p2g.cpp
index c06ff3f..1d724d2 100644
--- a/src/simulation/p2g.cpp
+++ b/src/simulation/p2g.cpp
@@ -126,7 +126,7 @@ void Simulation::P2G(){
         else
             grid.v[l].setZero();
         //grid.v[l] = (mi > 0) ? grid.v[l]/mi : TV::Zero(); // condition ? result_if_true : result_if_false
-        if (use_mibf)
+        if (use_mibf && mi > 0)
             grid.friction[l] /= mi;
     }
 
-- 
2.43.0

