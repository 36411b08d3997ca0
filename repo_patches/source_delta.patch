From 3dda1c07e8503bb1bb4d75fa17f298836f73840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 01/82] fix: overlay the corner cells of non-square grids

Grid::overlay_xy indexed the second dimension with the size of the first
one and vice versa, so grids with different sizes in r and z exchanged
wrong cells (or cells outside of the grid).
---
 include/algo/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..ff18a30 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
-- 
2.43.0


From 747f13ad65fa9e7dc3272f269a409a76f1f9b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 02/82] fix: exchange halo corners between anti-diagonal
 neighbour domains

Only the (i, j) - (i + 1, j + 1) corners were overlaid: current, deposited
to the halo corner of the (i + 1, j) - (i, j + 1) neighbours was lost and
fields there were zero.
---
 include/algo/grid.hpp   | 19 +++++++++++++++++++
 include/algo/grid3d.hpp |  7 +++++++
 src/SMB.cpp             | 11 +++++++++++
 3 files changed, 37 insertions(+)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index ff18a30..650dad4 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -150,6 +150,25 @@ public:
     }
   };
 
+  void overlay_xy_anti(Grid<T> rhsgrid)
+  // overlay corners with the grid, located at previous X and next Y
+  {
+    if (x_real_size == rhsgrid.x_real_size && y_real_size == rhsgrid.y_real_size)
+      for (unsigned int d = 0; d < o_s; ++d)
+        for (unsigned int e = 0; e < o_s; ++e)
+        {
+          rhsgrid.grid[x_real_size-2*o_s+d][2*o_s-e-1] += grid[d][y_real_size-1-e];
+          grid[2*o_s-d-1][y_real_size-2*o_s+e] += rhsgrid.grid[x_real_size-1-d][e];
+
+          rhsgrid.grid[x_real_size-1-d][e] = grid[2*o_s-d-1][y_real_size-2*o_s+e];
+          grid[d][y_real_size-1-e] = rhsgrid.grid[x_real_size-2*o_s+d][2*o_s-e-1];
+        }
+    else
+    {
+      LOG_S(FATAL) << "overlay_xy_anti: X or Y sizes of top-left and bottom-right grid are not equal. Can not overlay";
+    }
+  };
+
   void copy(Grid<T> rhs)
   // fully copy rhs grid to current grid element-by-element
   {
diff --git a/include/algo/grid3d.hpp b/include/algo/grid3d.hpp
index b525241..e83b03f 100644
--- a/include/algo/grid3d.hpp
+++ b/include/algo/grid3d.hpp
@@ -61,6 +61,13 @@ public:
     z_component.overlay_xy(trgrid.z_component);
   };
 
+  void overlay_xy_anti(Grid3D<T> brgrid)
+  {
+    r_component.overlay_xy_anti(brgrid.r_component);
+    phi_component.overlay_xy_anti(brgrid.phi_component);
+    z_component.overlay_xy_anti(brgrid.z_component);
+  };
+
   void overlay_set(T value)
   {
     r_component.overlay_set(value);
diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..3322886 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -591,6 +591,9 @@ void SMB::current_overlay ()
           {
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->current->current.overlay_xy(dst_domain->current->current);
+
+            Domain *top_domain = domains(i + 1, j);
+            top_domain->current->current.overlay_xy_anti(domains(i, j + 1)->current->current);
           }
         }
     }
@@ -818,6 +821,11 @@ void SMB::field_h_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
             sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
+
+            Domain *top_domain = domains(i + 1, j);
+            Domain *right_domain = domains(i, j + 1);
+            top_domain->maxwell_solver->field_h.overlay_xy_anti(right_domain->maxwell_solver->field_h);
+            top_domain->maxwell_solver->field_h_at_et.overlay_xy_anti(right_domain->maxwell_solver->field_h_at_et);
           }
         }
     }
@@ -1039,6 +1047,9 @@ void SMB::field_e_overlay ()
           {
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
+
+            Domain *top_domain = domains(i + 1, j);
+            top_domain->maxwell_solver->field_e.overlay_xy_anti(domains(i, j + 1)->maxwell_solver->field_e);
           }
         }
     }
-- 
2.43.0


From 45ef186732f0a355451e0dd012a7eedb71288662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 03/82] fix: data race on particles jumping between domains

Domains (i, j) and (i + 2, j) are processed concurrently and both may push
particles to domain (i + 1, j): the vector of particles could be corrupted
or particles lost, the counters raced as well.
---
 src/SMB.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 3322886..1a50cba 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -216,6 +216,9 @@ void SMB::particles_runaway_collector ()
   Grid<Domain *> __domains = domains;
   Geometry *__geometry = geometry;
 
+  // particles, leaving the domain, and their new species (per source domain)
+  vector< vector< pair<SpecieP *, Particle *> > > jumped (r_domains * z_domains);
+
   for (unsigned int idx = 0; idx < 2; ++idx)
     for (unsigned int idy = 0; idy < 2; ++idy)
     {
@@ -224,13 +227,14 @@ void SMB::particles_runaway_collector ()
         for (unsigned int j = idy; j < z_domains; j+=2)
         {
           Domain *sim_domain = domains(i, j);
+          vector< pair<SpecieP *, Particle *> > &jumped_local = jumped[i * z_domains + j];
 
           for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
           {
             (**ps).particles.erase (
               std::remove_if (
                 (**ps).particles.begin(), (**ps).particles.end(),
-                [ &j_c, &r_c, &ps, &__domains, &sim_domain,
+                [ &jumped_local, &r_c, &ps, &__domains, &sim_domain,
                   &queue_particles_minus, &queue_particles_plus,
                   &i, &j, &__geometry ] ( Particle * & o )
                 {
@@ -254,6 +258,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -291,6 +296,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -312,6 +318,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -319,8 +326,6 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
-                    ++j_c;
-
                     Domain *dst_domain = __domains(i_dst, j_dst);
                     for (auto pd = dst_domain->species_p.begin(); pd != dst_domain->species_p.end(); ++pd)
                       if ((**pd).id == (**ps).id)
@@ -331,7 +336,7 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
-                        (**pd).particles.push_back(o);
+                        jumped_local.push_back(make_pair(*pd, o));
                       }
 
                     res = true;
@@ -343,6 +348,15 @@ void SMB::particles_runaway_collector ()
         }
     }
 
+  // place jumped particles to their new domains, when all of the domains are processed,
+  // because several domains could send particles to the same one
+  for (auto jl = jumped.begin(); jl != jumped.end(); ++jl)
+    for (auto jp = jl->begin(); jp != jl->end(); ++jp)
+    {
+      jp->first->particles.push_back(jp->second);
+      ++j_c;
+    }
+
   if (j_c > 0)
     LOG_S(MAX) << "Amount of particles to jump between OMP domains: " << j_c;
   if (r_c > 0)
-- 
2.43.0


From 0924ae0a9da7f82e1396bd66c1e620a5922a47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 04/82] fix: rotate velocity to the rz pane in the direction of
 the position

back_velocity_to_rz rotated the velocity to the opposite direction to the
one the position has been rotated to, lost the sign of the cosine for
particles which passed the axis and produced NANs for the particle exactly
at the axis. The angular momentum of a free particle was not conserved.
---
 include/specieP.hpp | 4 +++-
 src/SMB.cpp         | 2 +-
 src/specieP.cpp     | 8 +++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/specieP.hpp b/include/specieP.hpp
index 8fe1ec0..28c05b8 100644
--- a/include/specieP.hpp
+++ b/include/specieP.hpp
@@ -63,7 +63,7 @@ using namespace std;
 
 // service variables to correct cartesian to cylindrical geometry
 #define P_SIN(var) var.sin
-#define P_COS(var) algo::common::sq_rt(1 - var.sin * var.sin)
+#define P_COS(var) var.cos
 
 #define P_CELL_R(var) var.cell_r
 #define P_CELL_Z(var) var.cell_z
@@ -88,6 +88,7 @@ typedef struct Particle_struct
 
   double weight;
   double sin;
+  double cos;
 
   size_t cell_r;
   size_t cell_z;
@@ -111,6 +112,7 @@ typedef struct Particle_struct
     vel_z = 0;
     weight = 0;
     sin = 0;
+    cos = 1;
     cell_r = 0;
     cell_z = 0;
     mark = 0;
diff --git a/src/SMB.cpp b/src/SMB.cpp
index 1a50cba..beace3a 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -374,7 +374,7 @@ void SMB::particles_runaway_collector ()
   unsigned int prtls_minus = queue_particles_minus.size();
 
   // create MPI data structure
-  int blocklengths[3] = {11,3,1};
+  int blocklengths[3] = {12,3,1};
   MPI_Datatype types[3] = {MPI_DOUBLE, MPI_SIZE_T, MPI_UNSIGNED_SHORT};
   MPI_Datatype mpi_prtl_type;
   MPI_Aint offsets[3];
diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..63128ad 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -615,7 +615,9 @@ void SpecieP::back_position_to_rz()
     double pos_r = P_POS_R((**p));
     double pos_phi = P_POS_PHI((**p));
     double r = algo::common::sq_rt(pos_r * pos_r + pos_phi * pos_phi);
-    P_SIN((**p)) = pos_phi / r;
+    // particle at the axis is already placed at rz pane
+    P_SIN((**p)) = (r > 0) ? pos_phi / r : 0;
+    P_COS((**p)) = (r > 0) ? pos_r / r : 1;
     P_POS_R((**p)) = r;
     P_POS_PHI((**p)) = 0;
   }
@@ -632,8 +634,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From 084704bc41f78471043ea8e9e2c00af8bef5ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 05/82] fix: reflect particles after velocity is moved back to
 the rz pane

The wall inverts the radial velocity component in the rz pane, but the
component of the not rotated yet velocity was inverted.
---
 src/SMB.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index beace3a..c621069 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1321,10 +1321,11 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
-
+      // velocity should be at the same pane, as position, before reflection
       sim_domain->particles_back_velocity_to_rz();
 
+      sim_domain->reflect();
+
       sim_domain->bind_cell_numbers();
     }
   particles_runaway_collector();
-- 
2.43.0


From 014267b8d6b81418bee9d55757bd2c85345a4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 06/82] fix: reflect particles located exactly at zero local
 coordinate

isnormal(0) is false, so the particle, which came exactly to the wall
(zero coordinate) was not reflected.
---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 63128ad..5303268 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -519,7 +519,7 @@ void SpecieP::reflect ()
     double pos_delta_z = pos_z - pos_old_z;
 
     while ( // catch multiple reflections
-      isnormal(pos_r) && isnormal(pos_z) && // ensure, that position components are not NANs
+      isfinite(pos_r) && isfinite(pos_z) && // ensure, that position components are not NANs
       (
         (pos_r > radius_wall && geometry->walls[2])
         || (pos_z > longitude_wall && geometry->walls[3])
-- 
2.43.0


From 45cddc3f9061115ad7816751c91f58677f06bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 07/82] fix: inject all of the beam bunches in every domain and
 in time

The number of the current bunch was increased only in the domain (0,0), so
outer radial domains injected only the first bunch, and it was increased
after the injection, so the first step of the next bunch might be missed.
---
 src/beamP.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..b825e4a 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -70,6 +70,19 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
 void BeamP::inject()
 {
+  // increase current bunch number after whole bunch injection
+  while (current_bunch_number < bunches_amount
+         && time->current >= start_time
+         + (bunch_length + bunches_distance) / velocity * current_bunch_number
+         + bunch_length / velocity)
+  {
+    if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+        && geometry->cell_dims[0] == 0)
+      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+
+    ++current_bunch_number;
+  }
+
   // check if limit of bunches is reached
   if (current_bunch_number < bunches_amount)
   {
@@ -144,15 +157,6 @@ void BeamP::inject()
         // particles_old.push_back(v_old);
       }
     }
-
-    // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
-    {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
-      ++current_bunch_number;
-    }
   }
 }
 
-- 
2.43.0


From 711b0b5b8d2a139b9f4ac3521be415fd73b9e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 08/82] fix: inject configured amount of beam macroparticles

The fractional amount of macroparticles per step was rounded up every step
and amount of macroparticles per bunch was rounded down, while the weight
of the macroparticle is calculated for the exact amount. So the density of
the injected bunch differed from the configured one.
---
 include/beamP.hpp | 1 +
 src/beamP.cpp     | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/beamP.hpp b/include/beamP.hpp
index 9d967a7..2f98b62 100644
--- a/include/beamP.hpp
+++ b/include/beamP.hpp
@@ -38,6 +38,7 @@ public:
   double bunch_length;
   double bunch_macro_amount;
   double macro_per_step_to_inject;
+  double macro_to_inject; // fractional part is kept for the next step
   double domain_radius;
 
 public:
diff --git a/src/beamP.cpp b/src/beamP.cpp
index b825e4a..82f033e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -63,8 +63,9 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
   double macro_normalizer = domain_radius / radius;
 
-  bunch_macro_amount = macro_amount / bunches_amount * macro_normalizer;
+  bunch_macro_amount = (double)macro_amount / bunches_amount * macro_normalizer;
 
+  macro_to_inject = 0;
   macro_per_step_to_inject = bunch_macro_amount * velocity * time->step / bunch_length;
 }
 
@@ -110,7 +111,9 @@ void BeamP::inject()
       double N_total = PI * radius * radius * bunch_length * bunches_amount * density;
       double n_per_macro_avg = N_total / macro_amount;
 
-      for (unsigned int i = 0; i < macro_per_step_to_inject; ++i)
+      macro_to_inject += macro_per_step_to_inject;
+
+      for (; macro_to_inject >= 1; --macro_to_inject)
       {
         Particle *v = new Particle();
         P_SPECIE_ID((*v)) = id;
-- 
2.43.0


From 858754f66604cc5dcc0d5e74fc5574a58af94482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 09/82] fix: set longitudinal cell number of injected particle
 from its z-position

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index 82f033e..df81155 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -150,7 +150,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From dd99e0aa7938776ff6f73ff9dc6c41073ecf062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 10/82] fix: detect particle moved to more than one cell along
 z

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..0a9b258 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -196,7 +196,7 @@ void CurrentVB::rz_current_distribution()
 
       int res_cell = abs(i_n - i_o) + abs(k_n - k_o);
 
-      if (abs (i_n - i_o) > 1 || abs (i_n - i_o) > 1)
+      if (abs (i_n - i_o) > 1 || abs (k_n - k_o) > 1)
       {
         LOG_S(ERROR) << "rz_current_distribution: can not weight particle's currents. It moved to more than one grid cell. Particle's position (r_old:r_new, z_old:z_new): "
                      << i_o << ":" << i_n << ", "
-- 
2.43.0


From 066688b68985e1b939c48d3e95d2e797ae5db6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 11/82] fix: do not reset radial current of other particles

The particle, moving strictly along z does not create radial current, but
it should not erase current, deposited by other particles.
---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 0a9b258..73144e7 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -543,11 +543,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From d48833509262b632949cc4467782d58b822d0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 12/82] fix: current of the particle crossing cell boundary
 strictly along r

The square of radius should be divided by the radius of the boundary.
---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 73144e7..075fb37 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -665,7 +665,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -706,7 +706,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From 682d5751d088f7c31384738171189a9a1ba24368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 13/82] fix: deposit current of the particle, passing exactly
 through the grid node

Such particle left the cell through its corner and deposited no current at all.
---
 src/current/currentVB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 075fb37..4ba1287 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -301,7 +301,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>k_n * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -325,7 +325,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -354,7 +354,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>(k_n) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
@@ -380,7 +380,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
-- 
2.43.0


From d8a416ded60ed0d943884e87596f54859ff90f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 14/82] fix: deposit current of the particle, moving inside
 from the cell boundary

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 4ba1287..24e1680 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -224,7 +224,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (P_POS_OLD_R((**i)) >= (i_n + 1) * dr)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
-- 
2.43.0


From 8a2e690520f6ffc55f862fe66d56c7deb8865485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 15/82] fix: do not erase azimuthal current, deposited to the
 halo

rz_current_distribution() reset the halo of all the current components after
the azimuthal current was deposited there, so the part of the azimuthal
current, which belongs to neighbour domains was lost.
---
 src/current/currentVB.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 24e1680..9b7c499 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From 2e78be3f06f7803aae50287d545e121e8a0bf304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 16/82] fix: weight azimuthal current to the nodes around the
 weighted position

The position at the middle of the step was weighted to the nodes of the
cell at the end of the step: for the particle, which crossed the cell
boundary some weights were negative and other ones were above one.
---
 src/current/currentVB.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 9b7c499..ef7fd07 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -410,9 +410,12 @@ void CurrentVB::azimuthal_current_distribution()
       double rho = 0; // charge density in cell
       double wj; // j_phi in cell
 
-      // finding number of i and k cell
-      int r_i = P_CELL_R((**i));
-      int z_k = P_CELL_Z((**i));
+      double pos_r = (P_POS_R((**i)) + P_POS_OLD_R((**i))) / 2;
+      double pos_z = (P_POS_Z((**i)) + P_POS_OLD_Z((**i))) / 2;
+
+      // finding number of i and k cell, the current is weighted from
+      int r_i = CELL_NUMBER(pos_r, dr);
+      int z_k = CELL_NUMBER(pos_z, dz);
 
       double v_1 = CELL_VOLUME(r_i, dr, dz);  // volume of [i][k] cell
       double v_2 = CELL_VOLUME(r_i + 1, dr, dz);  // volume of [i + 1][k] cell
@@ -423,8 +426,6 @@ void CurrentVB::azimuthal_current_distribution()
       int r_i_shift = r_i - geometry->cell_dims[0];
       int z_k_shift = z_k - geometry->cell_dims[1];
 
-      double pos_r = (P_POS_R((**i)) + P_POS_OLD_R((**i))) / 2;
-      double pos_z = (P_POS_Z((**i)) + P_POS_OLD_Z((**i))) / 2;;
       // in first cell other alg. of ro_v calc
       if(pos_r > dr)
       {
-- 
2.43.0


From f87c7731dca4adcd18833569252a2beaea54c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 17/82] fix: normalize zigzag weights to the cell size

The weights are fractions of the cell, but the distances in meters were
used, so almost all of the current was deposited to the lower nodes.
---
 src/current/currentZigZag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..d51d2e1 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = (r_pos_old + r_relay_pos) / 2 / dr - i_o;
+      double W_r2 = (r_pos_new + r_relay_pos) / 2 / dr - i_n;
+      double W_z1 = (z_pos_old + z_relay_pos) / 2 / dz - k_o;
+      double W_z2 = (z_pos_new + z_relay_pos) / 2 / dz - k_n;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
-- 
2.43.0


From dfdde2d5fdc0b657b8d92d01c66290c6aac09ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 18/82] fix: zigzag weight of the azimuthal current at the
 upper z node

---
 src/current/currentZigZag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index d51d2e1..db24fa3 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From 5ddabce647ff1463ec74f5d78326684bc2835207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 19/82] fix: missing bracket in the check for P12 collisions

---
 include/domain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
-- 
2.43.0


From c89f6df9c66efcc6262df22b9ce9ea2f60526434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 20/82] fix: weight E_phi from the upper node to the azimuthal
 component

It was added to the longitudinal component of the electric field.
---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From 428f12f3ddb042ed82b8c1bdbff2c8edb9655f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 21/82] fix: uninitialized relativistic flag of the adaptive
 boris pusher

---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From 373b988dd219dfdbf7d1fd3c3663439a8dfb1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 22/82] fix: rotation matrix of the Higuera-Cary pusher

The matrix was not a rotation, so magnetic field changed the energy of particle.
---
 src/pusher/pusherHC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..5209dff 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From cfacaddcc526b051ca22ad21b27257bfe58c9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 23/82] fix: normalize momentum to the light velocity in the
 Higuera-Cary pusher

The lorentz factor is calculated from the momentum in SI units.
---
 src/pusher/pusherHC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 5209dff..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
-- 
2.43.0


From 09171fcf7136efc0c20e8543dccd658d6b018e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 24/82] fix: normalize momentum to the light velocity in the
 Vay pusher

The lorentz factor is calculated from the momentum in SI units.
---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From 56d26f0255bcdc4900ed6eb315d3cbd54f13434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 25/82] fix: use relativistic momentum above the relativistic
 limit

The comparison was inverted: the lorentz factor was used for slow particles only.
---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 5303268..ef2e02f 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -731,7 +731,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -763,7 +763,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From d5e394d20d8d680dd2ae3156022b987bb836e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 26/82] fix: calculate absolute momentum for the temperature
 map

The map of absolute momentum was never updated (and initialized) before
calculation of the temperature.
---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index ef2e02f..4ecdc18 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -685,7 +685,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From a0e5cdd72ef37fa89910408562a1a4d55431a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 27/82] fix: call collisions by the operator, defined for it

---
 src/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From 124513008075132d2de99a5ae95dc96e0aa789e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 28/82] fix: do not attach probes to domains, that only touch
 them

---
 src/outController.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..219a846 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,23 +89,23 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3]
+               && prb_size[3] < domain_size[3]
             )
           || ( prb->shape == 2                    // condition for row
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
             )
           || ( prb->shape == 3                      // condition for dot
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3] )
+               && prb_size[3] < domain_size[3] )
           )
         {
           // calculate effective probe size
-- 
2.43.0


From 93f6a39a68e0e2c7548d74c9d78fb679838ab37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 29/82] fix: out of bounds access with no probes configured

---
 src/outController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 219a846..6eac0d0 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -35,7 +35,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
 // write metadata
 #ifdef ENABLE_HDF5
   hdf5_file = _file;
-  OutEngineHDF5 engine (hdf5_file, _probes[0].path, {0,0}, {0,0}, true, false);
+  OutEngineHDF5 engine (hdf5_file, _probes.empty() ? "" : _probes[0].path, {0,0}, {0,0}, true, false);
 #endif // end of ENABLE_HDF5
 
   engine.write_metadata( _metadata );
-- 
2.43.0


From e6ab4fbafbb531aced8f0ae6097f1f2241ee36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 30/82] fix: do not run writer of unknown component with
 uninitialized values

---
 src/outController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 6eac0d0..36f0902 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -294,7 +294,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           }
 //////////////////////////////////////////////////////////////////////
           else
-            LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''";
+            LOG_S(FATAL) << "Unknown probe component ``" << prb->component << "''";
 
           // create and push out writer
           OutWriter writer (hdf5_file, prb->path, prb->shape,
-- 
2.43.0


From a052188e0bbedca40445b9a833566a050bff7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 31/82] fix: do not skip and duplicate frames because of time
 rounding error

---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index 36f0902..8248aab 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From 77394b651cc848eb37879ace74bbdbf1a9631392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 32/82] fix: overlay density map corners and density map
 recalculated by other probes

---
 src/outController.cpp | 48 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 8248aab..daac31c 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -407,6 +407,15 @@ void OutController::init_datasets()
             speciep->calc_momentum();
         }
 
+      // density map is recalculated for every specie-based component
+      bool is_specie_component =
+        prb->component.compare("density") == 0
+        || prb->component.compare("temperature") == 0
+        || prb->component.compare("energy") == 0
+        || prb->component.compare("momentum/r") == 0
+        || prb->component.compare("momentum/phi") == 0
+        || prb->component.compare("momentum/z") == 0;
+
       // overlay domains before dump
       for (unsigned int i=0; i < geometry->domains_amount[0]; i++)
         for (unsigned int j = 0; j < geometry->domains_amount[1]; j++)
@@ -443,9 +452,10 @@ void OutController::init_datasets()
                            << prb->specie
                            << "'' in destination domain, while overlaying for probe dump. Exiting";
 
-            if (prb->component.compare("density") == 0)
+            if (is_specie_component)
               speciep->density_map.overlay_x(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
+
+            if (prb->component.compare("temperature") == 0)
               speciep->temperature_map.overlay_x(speciep_dst->temperature_map);
             else if (prb->component.compare("energy") == 0)
               speciep->energy_map.overlay_x(speciep_dst->energy_map);
@@ -477,17 +487,37 @@ void OutController::init_datasets()
                            << prb->specie
                            << "'' in destination domain, while overlaying for probe dump. Exiting";
 
-            if (prb->component.compare("density") == 0)
+            if (is_specie_component)
               speciep->density_map.overlay_y(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
+
+            if (prb->component.compare("temperature") == 0)
               speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
           }
 
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
+          // overlay corners of the density map
+          if (is_specie_component
+              && i < geometry->domains_amount[0] - 1
+              && j < geometry->domains_amount[1] - 1)
+          {
+            SpecieP *speciep_top = NULL;
+            SpecieP *speciep_next = NULL;
+            SpecieP *speciep_diag = NULL;
+
+            for (auto ps : smb->domains(i + 1, j)->species_p)
+              if (prb->specie.compare(ps->name) == 0) speciep_top = ps;
+            for (auto ps : smb->domains(i, j + 1)->species_p)
+              if (prb->specie.compare(ps->name) == 0) speciep_next = ps;
+            for (auto ps : smb->domains(i + 1, j + 1)->species_p)
+              if (prb->specie.compare(ps->name) == 0) speciep_diag = ps;
+
+            if (!speciep_top || !speciep_next || !speciep_diag)
+              LOG_S(FATAL) << "There is no particles specie ``"
+                           << prb->specie
+                           << "'' in destination domain, while overlaying for probe dump. Exiting";
+
+            speciep->density_map.overlay_xy(speciep_diag->density_map);
+            speciep_top->density_map.overlay_xy_anti(speciep_next->density_map);
+          }
         }
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
-- 
2.43.0


From 28b8868a9402ec8f1bdb9f8e460d820bb01eef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 33/82] fix: place several probes to the same group of data
 file

---
 src/outEngine/outEngineHDF5.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 446e415..ece8f76 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -118,14 +118,11 @@ void OutEngineHDF5::write_dot(size_t _num, double data)
 
 void OutEngineHDF5::create_dataset()
 {
-  string group_name = path.substr(0, path.find_last_of("\\/"));
+  // several probes could be placed to the same group
+  create_path();
 
   try
   {
-    LOG_S(MAX) << "Creating group ``" << group_name << "''";
-    Group group_instance = data_file->createGroup('/' + group_name);
-    LOG_S(MAX) << "Group ``" << group_name << "'' created";
-
     std::vector<size_t> dims_init = {1};
     std::vector<size_t> dims_final = {DataSpace::UNLIMITED};
     for (unsigned int i=0; i < size.size(); ++i)
-- 
2.43.0


From f2a0c7423b88051318a902d1bd389affb8bd95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 34/82] fix: write to empty vector for col, row and dot probes

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..10c6594 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -257,6 +257,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
+      p_p.dims.assign(4, 0);
       p_p.dims[0] = 0;
       p_p.dims[2] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -270,6 +271,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
+      p_p.dims.assign(4, 0);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[1] = 0;
@@ -283,6 +285,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
+      p_p.dims.assign(4, 0);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
-- 
2.43.0


From 79fb65ef47c1345c5544d1e765a1fe2a84fdafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 35/82] fix: reject probes with zero schedule, empty or placed
 out of simulation domain

---
 src/cfg.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 10c6594..77af033 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -303,19 +303,26 @@ void Cfg::init_probes ()
 
     p_p.schedule = (int)o["schedule"].get<double>();
 
-    if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3])
+    if (p_p.schedule == 0)
+      LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape
+                   << " schedule. Must be 1 or more";
+
+    if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3]
+        || (p_p.shape == 0 && (p_p.dims[0] == p_p.dims[2] || p_p.dims[1] == p_p.dims[3])))
     {
       LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape << " shape: ["
                    << p_p.dims[0] << "," << p_p.dims[2] << ","
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
-    else if (p_p.dims[2] > geometry->cell_amount[0])
+    else if (p_p.dims[2] > geometry->cell_amount[0]
+             || (p_p.dims[2] == geometry->cell_amount[0] && (p_p.shape == 2 || p_p.shape == 3)))
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
                    << geometry->cell_amount[0];
     }
-    else if (p_p.dims[3] > geometry->cell_amount[1])
+    else if (p_p.dims[3] > geometry->cell_amount[1]
+             || (p_p.dims[3] == geometry->cell_amount[1] && (p_p.shape == 1 || p_p.shape == 3)))
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
-- 
2.43.0


From 8dfef7811fc6c30ca9fab2d68befed162cb59d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 36/82] fix: do not truncate schedule of probe in output writer

---
 include/outWriter.hpp | 6 +++---
 src/outWriter.cpp     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 401e7fa..52179a1 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -37,7 +37,7 @@ private:
 #endif // end of ENABLE_HDF5
 
   TimeSim *time;
-  unsigned short schedule;
+  unsigned int schedule;
   unsigned short shape; // 0 - cube; 1 - rec; 2 - vec; 3 - dot
   std::vector<short> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
   Grid<double> *values;
@@ -47,13 +47,13 @@ public:
   OutWriter () {};
   OutWriter ( std::string _path, unsigned short _shape,
               std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 
 #ifdef ENABLE_HDF5
   OutWriter ( HighFive::File* _file, std::string _path, unsigned short _shape,
               std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 #endif // ENABLE_HDF5
 
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 78b0d9a..b81a2dc 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -21,7 +21,7 @@ using namespace std;
 
 OutWriter::OutWriter ( string _path, unsigned short _shape,
                        vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : time(_time)
 {
@@ -35,7 +35,7 @@ OutWriter::OutWriter ( string _path, unsigned short _shape,
 #ifdef ENABLE_HDF5
 OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shape,
                        vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : OutWriter ( _path, _shape, _position, _engine_offset, _schedule,
                 _append, _compress, _time, _values)
-- 
2.43.0


From 5ef7be1dcf2f927d02669bec37ddc24b9f81b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 37/82] fix: reject grid, that could not be divided to the same
 domains

---
 src/cfg.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 77af033..15e2e8b 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -594,6 +594,13 @@ bool Cfg::method_limitations_check ()
       LOG_S(FATAL) << "Amount of domains should be multiple of 2, or 1";
     }
 
+  if (geometry->domains_amount[0] == 0 || geometry->domains_amount[1] == 0
+      || geometry->cell_amount[0] % geometry->domains_amount[0] != 0
+      || geometry->cell_amount[1] % geometry->domains_amount[1] != 0)
+    {
+      LOG_S(FATAL) << "Grid size should be multiple of domains amount";
+    }
+
   // if (geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_GRID_AMOUNT)
   //   {
   //     LOG_S(FATAL) << "Too small domain size by r. Must be ``" << MIN_DOMAIN_GRID_AMOUNT << "'' cells or more", 1);
-- 
2.43.0


From 120450b855bf06f5b4582bc892b49611702d3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 38/82] fix: reject species and beams with the same ID

---
 src/cfg.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 15e2e8b..24601e0 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -182,6 +182,11 @@ void Cfg::init_particles()
 
     unsigned short current_specie_id = algo::common::hash_from_string(specie_name, SPECIE_HASH_SALT);
 
+    for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+      if (sp->id == current_specie_id)
+        LOG_S(FATAL) << "Particles specie ``" << specie_name << "'' has the same ID, as ``"
+                     << sp->name << "''. Rename one of them";
+
     LOG_S(MAX) << "Specie ID is ``" << current_specie_id << "'' for ``" << specie_name << "''";
 
     p_s.id = current_specie_id;
@@ -359,6 +364,16 @@ void Cfg::init_beam()
       // ! calculate current beam ID from its name:
       unsigned int current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
 
+      for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+        if (sp->id == current_beam_id)
+          LOG_S(FATAL) << "Beam ``" << o["name"].get<string>() << "'' has the same ID, as specie ``"
+                       << sp->name << "''. Rename one of them";
+
+      for (auto bm = particle_beams.begin(); bm != particle_beams.end(); ++bm)
+        if (bm->id == current_beam_id)
+          LOG_S(FATAL) << "Beam ``" << o["name"].get<string>() << "'' has the same ID, as ``"
+                       << bm->name << "''. Rename one of them";
+
       LOG_S(MAX) << "Beam ID is ``" << current_beam_id << "'' for ``" << beam_name << "''";
 
       p_b.id = current_beam_id;
-- 
2.43.0


From 78df8f64c591a8bf15f46c5f07d417aef7ff33fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 39/82] fix: order of temperatures for debye length

---
 include/phys/plasma.hpp | 2 +-
 src/cfg.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phys/plasma.hpp b/include/phys/plasma.hpp
index 405c1c5..d80e166 100644
--- a/include/phys/plasma.hpp
+++ b/include/phys/plasma.hpp
@@ -25,7 +25,7 @@
 namespace phys::plasma
 {
   double debye_length (double density_el, double density_ion,
-                       double temperature_ion, double temperature_el);
+                       double temperature_el, double temperature_ion);
 
   double plasma_frequency (double density);
 
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 24601e0..e0b4027 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -683,7 +683,7 @@ bool Cfg::method_limitations_check ()
 
   // cell size d{r,z} < \lambda debye
 
-  double debye_length = phys::plasma::debye_length (electron_density, ion_density, ion_temperature, electron_temperature);
+  double debye_length = phys::plasma::debye_length (electron_density, ion_density, electron_temperature, ion_temperature);
   unsigned int debye_multiplicator = 100;
 
   if ( electron_temperature != 0)
-- 
2.43.0


From f8c563d6c2cacc68e1a8349bb3552fcf82e7d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 40/82] fix: global cell amount decreased because of rounding
 error

---
 include/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..71af372 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -68,7 +68,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back((size_t)(global_size[i] / cell_size[i] + 0.5));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From fcd2ad39fad091a98976fac271336ea5f6cde572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 41/82] fix: data race on random number generator

---
 src/math/rand.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..8216a2d 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,28 +21,29 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // generator is used concurrently by domains
+  thread_local std::random_device device;
+  thread_local std::mt19937 gen(device());
 
-  std::uniform_real_distribution<double> uniform_distribution(0., 1.);
+  thread_local std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
   {
     return uniform_distribution(gen);
   }
 
-  std::uniform_real_distribution<double> uniform_distribution1(0., 1.-1e-11);
+  thread_local std::uniform_real_distribution<double> uniform_distribution1(0., 1.-1e-11);
   double uniform1()
   {
     return uniform_distribution1(gen);
   }
 
-  std::uniform_real_distribution<double> uniform_distribution2(-1., 1.);
+  thread_local std::uniform_real_distribution<double> uniform_distribution2(-1., 1.);
   double uniform2()
   {
     return uniform_distribution2(gen);
   }
 
-  std::uniform_real_distribution<double> uniform_distribution_angle(0., 2*constant::PI);
+  thread_local std::uniform_real_distribution<double> uniform_distribution_angle(0., 2*constant::PI);
   double uniform_angle()
   {
     return uniform_distribution_angle(gen);
-- 
2.43.0


From a3dd09648ab0ccb606f366da87461ebbca2a667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:41 +0000
Subject: [PATCH 42/82] fix: buffer overflow in the simulation duration message

---
 src/algo/common.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..9c57081 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -66,35 +66,35 @@ namespace algo::common
 
     int d, hr, min;
     double sec;
-    char* the_time = new char;
+    char the_time[64];
 
     int sec_in_min = 60;
     int sec_in_hr = 3600;
     int sec_in_day = 86400;
 
-    if (time_sec > sec_in_min && time_sec < sec_in_hr)
+    if (time_sec >= sec_in_min && time_sec < sec_in_hr)
     {
       min = (int)time_sec / sec_in_min;
       sec = time_sec - min * sec_in_min;
-      sprintf(the_time, "%dm %.0fs", min, sec);
+      snprintf(the_time, sizeof(the_time), "%dm %.0fs", min, sec);
     }
-    else if (time_sec > sec_in_hr && time_sec < sec_in_day)
+    else if (time_sec >= sec_in_hr && time_sec < sec_in_day)
     {
       hr = (int)time_sec / sec_in_hr;
       min = (int)((time_sec - hr * sec_in_hr) / sec_in_min);
       sec = time_sec - hr * sec_in_hr - min * sec_in_min;
-      sprintf(the_time, "%dh %dm %.0fs", hr, min, sec);
+      snprintf(the_time, sizeof(the_time), "%dh %dm %.0fs", hr, min, sec);
     }
-    else if (time_sec > sec_in_day)
+    else if (time_sec >= sec_in_day)
     {
       d = (int)time_sec / sec_in_day;
       hr = (int)((time_sec - d * sec_in_day) / sec_in_hr);
       min = (int)((time_sec - d * sec_in_day - hr * sec_in_hr) / sec_in_min);
       sec = time_sec - d * sec_in_day - hr * sec_in_hr - min * sec_in_min;
-      sprintf(the_time, "%dd %dh %dm %.0fs", d, hr, min, sec);
+      snprintf(the_time, sizeof(the_time), "%dd %dh %dm %.0fs", d, hr, min, sec);
     }
     else
-      sprintf(the_time, "%.0fs", time_sec);
+      snprintf(the_time, sizeof(the_time), "%.0fs", time_sec);
 
     return (std::string)the_time;
   }
-- 
2.43.0


From a4da995559073f3a7cec11b013b2c1f12eaacc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 43/82] fix: sample energies for all of the placed particles

---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 4ecdc18..23cb1f1 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -346,7 +346,7 @@ void SpecieP::velocity_distribution ()
 void SpecieP::thermal_velocity_distribution ()
 {
   // Sample the energies in the MJ distribution
-  vector<double> energies = math::maxwell_juettner::maxwellJuettner(macro_amount, temperature);
+  vector<double> energies = math::maxwell_juettner::maxwellJuettner(particles.size(), temperature);
 
   unsigned int macro_count = 0;
 
-- 
2.43.0


From 2f6086e2114b91b383d9be1e143261e03e597142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 44/82] fix: close and reopen data file between the steps only
 on pause and resume

---
 include/outController.hpp |  4 +++
 include/outWriter.hpp     |  6 ++++
 src/PiCoPiC.cpp           | 59 +++++++++++++++++++--------------------
 src/outController.cpp     | 15 ++++++++++
 4 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/include/outController.hpp b/include/outController.hpp
index f00dd41..dda2547 100644
--- a/include/outController.hpp
+++ b/include/outController.hpp
@@ -62,6 +62,10 @@ public:
 #endif
   ~OutController() {};
 
+#ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file); // pass reopened file to all of the writers
+#endif // ENABLE_HDF5
+
   void operator()(); // launch writers on all domains of all SMBs
 
 private:
diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 52179a1..205149a 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -61,6 +61,12 @@ public:
 
 #ifdef ENABLE_HDF5
   HighFive::File *hdf5_file;
+
+  void set_file(HighFive::File *_file)
+  {
+    hdf5_file = _file;
+    engine.data_file = _file;
+  };
 #endif
 };
 
diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 23ddffe..6100f2b 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -53,27 +53,29 @@ string hdf5_filepath;
 
 // using namespace HighFive;
 
-HighFive::File *file;
+HighFive::File *file = NULL;
+
+void close_data_file()
+{
+  // file should be closed only once
+  HighFive::File *f = file;
+  file = NULL;
+  delete f;
+}
 #endif // ENABLE_HDF5
 
 void signal_handler( int signum )
 {
 #ifdef ENABLE_HDF5
+  // data file could be in use now, so it should be
+  // closed and reopened by the main loop only
   if (signum == SIGUSR1 && !lock_)
   {
-    LOG_S(INFO) << "Pause calculation";
-    LOG_S(INFO) << "Unlocking data file...";
-    delete file;
+    recreate_writers_.store(false, std::memory_order_relaxed);
     lock_.store(true, std::memory_order_relaxed);
-    LOG_S(INFO) << "Unlocked";
-    cout << "Waiting for ``USR2'' OS signal to continue" << flush;
   }
   else if (signum == SIGUSR2 && lock_) // reopen
-  {
-    cout << endl;
-    LOG_S(INFO) << "Continue calculation";
     recreate_writers_.store(true, std::memory_order_relaxed);
-  }
 #endif // ENABLE_HDF5
 
   // exit
@@ -89,7 +91,7 @@ void signal_handler( int signum )
        || signum == SIGSEGV )
   {
 #ifdef ENABLE_HDF5
-    delete file;
+    close_data_file();
 #endif // ENABLE_HDF5
 
     const char * sigstr = strsignal(signum);
@@ -351,13 +353,24 @@ int main(int argc, char **argv)
 #ifdef ENABLE_HDF5
       while (lock_)
       {
+        if (file)
+        {
+          LOG_S(INFO) << "Pause calculation";
+          LOG_S(INFO) << "Unlocking data file...";
+          close_data_file();
+          LOG_S(INFO) << "Unlocked";
+          cout << "Waiting for ``USR2'' OS signal to continue" << flush;
+        }
+
         if (recreate_writers_)
         {
+          cout << endl;
+          LOG_S(INFO) << "Continue calculation";
           // reopen HDF file initially
           try
           {
             LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite | HighFive::File::Excl);
+            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
             LOG_S(INFO) << "Locked";
           }
           catch (const HighFive::Exception&)
@@ -365,25 +378,11 @@ int main(int argc, char **argv)
             LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
           }
 
-          // recreate all of the writers
-          // data_writers.clear();
-
-          // for (auto i = cfg.probes.begin(); i != cfg.probes.end(); ++i)
-          // {
-          //   int probe_size[4] = {i->dims[0], i->dims[1], i->dims[2], i->dims[3]};
-
-          //   DataWriter writer (cfg.output_data->data_root, i->component,
-          //                      i->specie, i->shape, probe_size, i->schedule,
-          //                      cfg.output_data->compress, cfg.output_data->compress_level,
-          //                      geometry_global, sim_time_clock, domains, cfg.cfg2str());
+          // pass reopened file to all of the writers
+          out_controller.set_file(file);
 
-          //   writer.hdf5_file = file; // pass pointer to opened HDF5 file to outEngineHDF5's object
-          //   writer.hdf5_init(cfg.cfg2str());
-
-          //   data_writers.push_back(writer);
-          // }
-          lock_.store(false, std::memory_order_relaxed);
           recreate_writers_.store(false, std::memory_order_relaxed);
+          lock_.store(false, std::memory_order_relaxed);
         }
         else
         {
@@ -395,7 +394,7 @@ int main(int argc, char **argv)
     }
 
 #ifdef ENABLE_HDF5
-    delete file;
+    close_data_file();
 #endif
     if (print_progress_table)
       msg::print_final();
diff --git a/src/outController.cpp b/src/outController.cpp
index daac31c..e273697 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -525,6 +525,21 @@ void OutController::init_datasets()
   }
 }
 
+#ifdef ENABLE_HDF5
+void OutController::set_file(HighFive::File *_file)
+{
+  hdf5_file = _file;
+
+  for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+    for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+    {
+      Domain *dmn = smb->domains(r, z);
+      for (auto w = dmn->out_writers.begin(); w != dmn->out_writers.end(); ++w)
+        w->set_file(_file);
+    }
+}
+#endif // ENABLE_HDF5
+
 void OutController::operator()()
 {
   init_datasets();
-- 
2.43.0


From a09fc445b213792b2557c1c3dfcb2fd1d5fff2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 45/82] fix: paths of col, row and dot datasets in the reader

---
 lib/python/picopic/h5_reader.py | 4 ++--
 lib/python/picopic/reader.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 07e9778..860226a 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -99,7 +99,7 @@ class H5Reader (Reader):
     def col(self, p_component, z, number): # longitude and number by time
         '''get column by number.'''
         p_type = 'col'
-        shape = [0, 0, z, 0]
+        shape = [0, 0, 0, z]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
@@ -116,7 +116,7 @@ class H5Reader (Reader):
     def row(self, p_component, r, number): # latitude and number by time
         '''get row by number'''
         p_type = 'row'
-        shape = [0, 0, 0, r]
+        shape = [0, 0, r, 0]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 6efe75b..4b62f73 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -253,7 +253,7 @@ class Reader:
     def dot_range(self, p_component, r, z, start_number=0, end_number=None):
         '''get dot from rectangle range, using "rec" method'''
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'dot', [0, 0, r, z])
+            end_number = self.__ds_range__(p_component, 'dot', [0, 0, z, r])
         drange = end_number - start_number
         dots = np.zeros((drange))
 
-- 
2.43.0


From 995cab76438d1c524b531dc6df3fb1cae010bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 46/82] fix: ranges of datasets in the reader

---
 lib/python/picopic/h5_reader.py |  4 ++--
 lib/python/picopic/reader.py    | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 860226a..4f69676 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -71,7 +71,7 @@ class H5Reader (Reader):
 
     def __ds_range__(self, p_component, p_type, shape):
         path = self.__path__(p_component, p_type, shape)
-        frange = len(self.file[path].keys())
+        frange = len(self.file[path])
 
         return frange
 
@@ -140,7 +140,7 @@ class H5Reader (Reader):
             sys.stdout.write("Loading data set {}/{}_{}..."
                              .format(p_component, p_type, r, z))
             sys.stdout.flush()
-        dot = self.file[path][number]
+        dot = self.file[path][number][0]
         if self.__verbose__:
             sys.stdout.write('done\n')
 
diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 4b62f73..74e3b77 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -227,11 +227,11 @@ class Reader:
         csize = self.meta.geometry_grid[0]
         if end_number == None:
             end_number = self.__ds_range__(p_component, 'col', [0, 0, 0, z])
-        crange = start_number - end_number
+        crange = end_number - start_number
         cols = np.zeros((crange, csize))
 
         for i in range(start_number, end_number):
-            cols[i-start_number] = self.col(p_component, [0, 0, csize, z], i)
+            cols[i-start_number] = self.col(p_component, z, i)
 
         return(cols)
 
@@ -265,9 +265,9 @@ class Reader:
 
     def col_rec_range(self, p_component, z, rec_shape, start_number=0, end_number=None):
         '''get column range from rec range'''
-        rsize = self.meta.geometry_grid[0]
+        rsize = self.__rec_size__(rec_shape)[0]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         crange = end_number - start_number
         recs = np.zeros((crange, rsize))
         for i in range(start_number, end_number):
@@ -279,9 +279,9 @@ class Reader:
 
     def row_rec_range(self, p_component, r, rec_shape, start_number=0, end_number=None):
         '''get row range from rec range'''
-        rsize = self.meta.geometry_grid[1]
+        rsize = self.__rec_size__(rec_shape)[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         rrange = end_number - start_number
         recs = np.zeros((rrange, rsize))
         for i in range(start_number, end_number):
@@ -295,7 +295,7 @@ class Reader:
         '''get dot range from rec range'''
         dsize = self.meta.geometry_grid[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         drange = end_number - start_number
         recs = np.zeros((drange))
         for i in range(start_number, end_number):
-- 
2.43.0


From 47c90794da2dc6a11beb24c179399e514d1d42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 47/82] fix: context manager and missing file error of the
 reader

---
 lib/python/picopic/h5_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 4f69676..53d5c51 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -17,7 +17,7 @@ GNU General Public License for more details.
 You should have received a copy of the GNU General Public License
 along with this program.  If not, see <http://www.gnu.org/licenses/>.
 """
-import os, sys, re
+import os, sys, re, errno
 
 import json
 import h5py
@@ -65,7 +65,7 @@ class H5Reader (Reader):
         return self
 
 
-    def __exit__(self):
+    def __exit__(self, exc_type, exc_value, traceback):
         self.__del__()
 
 
-- 
2.43.0


From 8f3e198fce5814de9d23ef00fb2d9dd72c4a8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:54 +0000
Subject: [PATCH 48/82] fix: do not extend left PML layer by rounding error of
 the cell position

---
 src/maxwellSolver/maxwellSolverYee.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index bb9345d..73e9a9e 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -89,7 +89,7 @@ void MaxwellSolverYee::set_pml()
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
         // z=0 wall
-        if (cell_size_z * k + longitudinal_cell_offset < lenght_sigma_left)
+        if (k + geometry->cell_dims[1] < geometry->pml_size[1])
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_left, 2)
-- 
2.43.0


From e5fca38154e101ff9c8001fedfd4d727c92a585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:03 +0000
Subject: [PATCH 49/82] fix: sample thermal velocities with temperature in
 units of the rest energy

---
 src/specieP.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 23cb1f1..ed68d8a 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -345,21 +345,19 @@ void SpecieP::velocity_distribution ()
 
 void SpecieP::thermal_velocity_distribution ()
 {
-  // Sample the energies in the MJ distribution
-  vector<double> energies = math::maxwell_juettner::maxwellJuettner(particles.size(), temperature);
+  // Sample the energies in the MJ distribution (temperature and energies are in units of the rest energy)
+  double rest_energy = mass * LIGHT_VEL_POW_2 / EL_CHARGE; // '/ EL_CHARGE' - convert J to eV
+  vector<double> energies = math::maxwell_juettner::maxwellJuettner(particles.size(), temperature / rest_energy);
 
   unsigned int macro_count = 0;
 
   double two_over_mass = 2 * EL_CHARGE / mass; // '* EL_CHARGE' - convert eV to J
   double mc_inv = EL_CHARGE / (mass * LIGHT_VEL); // 'EL_CHARGE /' - convert eV to J
 
-  // normalize to 1 / sqrt(2).
-  // TODO: I don't know, why, but it returns temperature correct values
-  const double norm = 0.7071067811865475;
-
   for (auto p = particles.begin(); p != particles.end(); ++p)
   {
-    double therm_vel_cmp = energies[macro_count] * mc_inv;
+    double energy = energies[macro_count] * rest_energy;
+    double therm_vel_cmp = energy * mc_inv;
 
     if (therm_vel_cmp > REL_LIMIT)
     {
@@ -367,9 +365,7 @@ void SpecieP::thermal_velocity_distribution ()
       therm_vel_cmp *= gamma_inv;
     }
     else
-      therm_vel_cmp = algo::common::sq_rt(energies[macro_count] * two_over_mass);
-
-    therm_vel_cmp *= norm;
+      therm_vel_cmp = algo::common::sq_rt(energy * two_over_mass);
 
     double rnd_0 = math::random::uniform2();
     double rnd_1 = math::random::uniform2();
-- 
2.43.0


From c5acfeb0bdb91b560df26d5ada45bb4cc839fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:03 +0000
Subject: [PATCH 50/82] fix: thermal velocities above the speed of light

---
 src/specieP.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index ed68d8a..66f4a3d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -367,13 +367,14 @@ void SpecieP::thermal_velocity_distribution ()
     else
       therm_vel_cmp = algo::common::sq_rt(energy * two_over_mass);
 
-    double rnd_0 = math::random::uniform2();
-    double rnd_1 = math::random::uniform2();
-    double rnd_2 = math::random::uniform2();
-
-    P_VEL_R((**p)) = rnd_0 * therm_vel_cmp;
-    P_VEL_PHI((**p)) = rnd_1 * therm_vel_cmp;
-    P_VEL_Z((**p)) = rnd_2 * therm_vel_cmp;
+    // random direction, so that particle is never faster, than its energy allows
+    double cos_theta = math::random::uniform2();
+    double sin_theta = algo::common::sq_rt(1 - cos_theta * cos_theta);
+    double angle = math::random::uniform_angle();
+
+    P_VEL_R((**p)) = sin_theta * cos(angle) * therm_vel_cmp;
+    P_VEL_PHI((**p)) = sin_theta * sin(angle) * therm_vel_cmp;
+    P_VEL_Z((**p)) = cos_theta * therm_vel_cmp;
 
     ++macro_count;
   }
-- 
2.43.0


From 2f943b63044c0f3d848653fd9d3be198103d497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:24 +0000
Subject: [PATCH 51/82] fix: macroparticles amount lost because of rounding
 error with regular and centered placement

---
 src/specieP.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 66f4a3d..7efb135 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -45,12 +45,8 @@ SpecieP::SpecieP (unsigned int p_id,
 /// spatial distributions
 #if defined(SWITCH_PLASMA_SPATIAL_REGULAR) || defined(SWITCH_PLASMA_SPATIAL_CENTERED)
   LOG_S(MAX) << "Correcting domain plasma particles macro amount to satisfy spatial distribution";
-  double r_size = geometry->size[0];
-  double z_size = geometry->size[1];
-  double dr = geometry->cell_size[0];
-  double dz = geometry->cell_size[1];
-
-  macro_amount = algo::common::nearest_divide(p_macro_amount, r_size / dr * z_size / dz);
+  // integer numbers of cells are used to avoid rounding error of sizes ratio
+  macro_amount = algo::common::nearest_divide(p_macro_amount, geometry->cell_amount[0] * geometry->cell_amount[1]);
 #else
   macro_amount = p_macro_amount;
 #endif // WITH_PLASMA_SPATIAL
-- 
2.43.0


From a1beaa425654d80bcf048d93fd49aca4e22e5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:32 +0000
Subject: [PATCH 52/82] fix: reject repeated probes, that overwrite frames of
 each other

---
 src/cfg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e0b4027..e1049fa 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -312,6 +312,11 @@ void Cfg::init_probes ()
       LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape
                    << " schedule. Must be 1 or more";
 
+    // probes with the same path would overwrite frames of each other
+    for (auto prb = probes.begin(); prb != probes.end(); ++prb)
+      if (prb->path.compare(p_p.path) == 0)
+        LOG_S(FATAL) << "Probe ``" << p_p.path << "'' already exists. Probes should be unique";
+
     if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3]
         || (p_p.shape == 0 && (p_p.dims[0] == p_p.dims[2] || p_p.dims[1] == p_p.dims[3])))
     {
-- 
2.43.0


From e77fa205b8af49538943de34a6d49115908e0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 53/82] fix: reject probes with negative schedule

---
 src/cfg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e1049fa..2639e43 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -308,7 +308,7 @@ void Cfg::init_probes ()
 
     p_p.schedule = (int)o["schedule"].get<double>();
 
-    if (p_p.schedule == 0)
+    if ((int)p_p.schedule <= 0)
       LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape
                    << " schedule. Must be 1 or more";
 
-- 
2.43.0


From 22f92d91547d554c93f56679e7a4db0f26e61636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 54/82] fix: reject empty simulation area and time step, that
 never ends the simulation

---
 src/cfg.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 2639e43..8296095 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -419,6 +419,11 @@ void Cfg::init_geometry ()
   size_t n_grid_r = (size_t)json_root_grid["radius"].get<double>();
   size_t n_grid_z = (size_t)json_root_grid["longitude"].get<double>();
 
+  if (!(radius > 0) || !(longitude > 0)
+      || !(json_root_grid["radius"].get<double>() >= 1)
+      || !(json_root_grid["longitude"].get<double>() >= 1))
+    LOG_S(FATAL) << "Size of the simulation area and amount of grid cells should be positive";
+
   vector<double> _size = {radius, longitude};
   vector<size_t> _dims = {0, 0, n_grid_r, n_grid_z};
   vector<bool> _walls = {true, true, true, true};
@@ -466,6 +471,9 @@ void Cfg::init_time ()
   time->end = json_root["end"].get<double>();
   time->step = json_root["step"].get<double>();
   time->current = 0;
+
+  if (!(time->step > 0))
+    LOG_S(FATAL) << "Time step should be positive";
 }
 
 void Cfg::init_output_data()
-- 
2.43.0


From cf40b2f320107f5c4c85d40583f48324e9052f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:00 +0000
Subject: [PATCH 55/82] fix: do not crash after creation of data file, when
 configuration has no comment

---
 src/outEngine/outEngineHDF5.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index ece8f76..6a18a55 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -367,7 +367,10 @@ void OutEngineHDF5::write_metadata(picojson::value _metadata)
     plasma_spatial_distribution_a.write(plasma_spatial_distribution);
 
     // comment
-    std::string comment = _metadata.get<picojson::object>()["comment"].get<std::string>();
+    std::string comment;
+    // comment is optional
+    if (_metadata.get<picojson::object>()["comment"].is<std::string>())
+      comment = _metadata.get<picojson::object>()["comment"].get<std::string>();
     Attribute comment_a = group
       .createAttribute<std::string>("comment",
                                     DataSpace::From(comment));
-- 
2.43.0


From ce36a50b5aaac7b9fd778e9c919c938168147f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:05 +0000
Subject: [PATCH 56/82] fix: do not lose request to pause, which follows
 request to continue

---
 src/PiCoPiC.cpp | 52 ++++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 6100f2b..4815749 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -47,7 +47,6 @@ using namespace std;
 #define HDF5_DATA_FILE "data.h5"
 
 std::atomic<bool> lock_(false);
-std::atomic<bool> recreate_writers_(false);
 
 string hdf5_filepath;
 
@@ -69,13 +68,10 @@ void signal_handler( int signum )
 #ifdef ENABLE_HDF5
   // data file could be in use now, so it should be
   // closed and reopened by the main loop only
-  if (signum == SIGUSR1 && !lock_)
-  {
-    recreate_writers_.store(false, std::memory_order_relaxed);
+  if (signum == SIGUSR1)
     lock_.store(true, std::memory_order_relaxed);
-  }
-  else if (signum == SIGUSR2 && lock_) // reopen
-    recreate_writers_.store(true, std::memory_order_relaxed);
+  else if (signum == SIGUSR2) // reopen
+    lock_.store(false, std::memory_order_relaxed);
 #endif // ENABLE_HDF5
 
   // exit
@@ -134,7 +130,6 @@ int main(int argc, char **argv)
 {
 #ifdef ENABLE_HDF5
   lock_.store(false, std::memory_order_relaxed);
-  recreate_writers_.store(false, std::memory_order_relaxed);
 #endif
 
   // handle signals
@@ -362,33 +357,28 @@ int main(int argc, char **argv)
           cout << "Waiting for ``USR2'' OS signal to continue" << flush;
         }
 
-        if (recreate_writers_)
+        cout << "." << flush;
+        sleep(1);
+      }
+
+      if (!file)
+      {
+        cout << endl;
+        LOG_S(INFO) << "Continue calculation";
+        // reopen HDF file initially
+        try
         {
-          cout << endl;
-          LOG_S(INFO) << "Continue calculation";
-          // reopen HDF file initially
-          try
-          {
-            LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
-            LOG_S(INFO) << "Locked";
-          }
-          catch (const HighFive::Exception&)
-          {
-            LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
-          }
-
-          // pass reopened file to all of the writers
-          out_controller.set_file(file);
-
-          recreate_writers_.store(false, std::memory_order_relaxed);
-          lock_.store(false, std::memory_order_relaxed);
+          LOG_S(INFO) << "Locking data file...";
+          file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
+          LOG_S(INFO) << "Locked";
         }
-        else
+        catch (const HighFive::Exception&)
         {
-          cout << "." << flush;
+          LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
         }
-        sleep(1);
+
+        // pass reopened file to all of the writers
+        out_controller.set_file(file);
       }
 #endif
     }
-- 
2.43.0


From ec9ae1b5e816c644b5fa6ee66ea4dc04a093ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:48 +0000
Subject: [PATCH 57/82] fix: create data directory, when its path has doubled
 slash

---
 src/algo/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 9c57081..1d33c1d 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -147,7 +147,8 @@ namespace algo::common
 #ifdef _WIN32
     return 0 == _mkdir(path.c_str());
 #else
-    return 0 == mkdir(path.c_str(), mode);
+    // it could be created with its parent, if path has doubled slash
+    return 0 == mkdir(path.c_str(), mode) || directory_exists(path);
 #endif
 
     case EEXIST:
-- 
2.43.0


From 7e68401843c4ce58c8b0dfad60698912b52db768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 58/82] fix: do not skip collisions in rest of row, when there
 are no particles in cell

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..308a999 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -348,10 +348,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..f72f81a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -258,10 +258,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..d599eb8 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From 831bdafaa873decfee1fadc877ea799997ec6fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 59/82] fix: volume of cell for collisions in shifted domain

---
 src/collisions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index acf076d..8147b4b 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -166,7 +166,7 @@ double Collisions::geometry_cell_volume(int i)
   double dz = geometry->cell_size[1];
   double shift = geometry->cell_dims[0];
 
-  return CELL_VOLUME(i+shift, dr, dz);
+  return CELL_VOLUME((i+shift), dr, dz);
 }
 
 void Collisions::collect_weighted_params_tot_grid ()
-- 
2.43.0


From 73853287806b296f886da8eaafc7f87a64f725ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:35 +0000
Subject: [PATCH 60/82] fix: collisions of particles with opposite momentums

---
 src/collisions/collisionsP12.cpp  |  8 +++++---
 src/collisions/collisionsSK98.cpp | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 308a999..f96741b 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -109,6 +109,8 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // find lorenz-factor --- center-of-mass frame
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
+  // (gamma - 1) / beta^2, which is defined for zero beta also
+  double boost_cm = gamma_cm * gamma_cm / (gamma_cm + 1);
 
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
@@ -118,7 +120,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * boost_cm;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -255,7 +257,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
-    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * boost_cm;
     p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
     v_a_prime = p_a_prime / mass_a;
@@ -272,7 +274,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     p_b_prime_cm[2] = -p_a_prime_cm[2];
 
     p_b_prime = p_b_prime_cm;
-    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * boost_cm;
     p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
     v_b_prime = p_b_prime / mass_b;
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index f72f81a..19eff47 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -102,6 +102,8 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // find lorenz-factor --- center-of-mass frame
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
+  // (gamma - 1) / beta^2, which is defined for zero beta also
+  double boost_cm = gamma_cm * gamma_cm / (gamma_cm + 1);
 
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
@@ -111,14 +113,14 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * boost_cm;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
   p_b_cm[1] = -p_a_cm[1];
   p_b_cm[2] = -p_a_cm[2];
   // p_b_cm = p_b;
-  // p_b_cm += beta_cm * beta_cm.dot(p_b) * ( gamma_cm - 1 ) / beta_cm.length2();
+  // p_b_cm += beta_cm * beta_cm.dot(p_b) * boost_cm;
   // p_b_cm -= beta_cm * gamma_cm * p0_b;
 
   // get gamma --- center-of-mass frame
@@ -198,11 +200,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
 
   vector3d<double> p_a_prime, p_b_prime;
   p_a_prime = p_a_prime_cm;
-  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * boost_cm;
   p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
   p_b_prime = p_b_prime_cm;
-  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * boost_cm;
   p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
   // calculate velocities
-- 
2.43.0


From b10281351d66e40ee18bf44cb5dc83ba3dac5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:35 +0000
Subject: [PATCH 61/82] fix: collisions of particles, which move along z-axis

---
 src/collisions/collisionsP12.cpp  | 20 ++++++++++++++------
 src/collisions/collisionsSK98.cpp | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f96741b..04e4b07 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -240,12 +240,20 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[1] * cos_xi_cm;
+  if (p_cm_prp == 0)
+  {
+    p_a_prime_cm[0] = p_a_cm_abs * sin_xi_cm * cos_phi_cm;
+    p_a_prime_cm[1] = p_a_cm_abs * sin_xi_cm * sin_phi_cm;
+  }
+  else
+  {
+    p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[0] * cos_xi_cm;
+    p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[1] * cos_xi_cm;
+  }
   p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
 
   // find deflection probability
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 19eff47..acdc4b2 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -185,12 +185,20 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[1] * ( 1 - cos_theta_cm);
+  if (p_cm_prp == 0)
+  {
+    d_p[0] = p_cm_abs * sin_theta_cm * cos_phi;
+    d_p[1] = p_cm_abs * sin_theta_cm * sin_phi;
+  }
+  else
+  {
+    d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[0] * ( 1 - cos_theta_cm);
+    d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[1] * ( 1 - cos_theta_cm);
+  }
   d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
 
   // get p_a_prime_cm and p_b_prime_cm --- COM frame
-- 
2.43.0


From e7744d4595c5db2435d0f30960c17f4e991d78c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:35 +0000
Subject: [PATCH 62/82] fix: P12 cosine of scattering angle is less, than -1

---
 src/collisions/collisionsP12.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 04e4b07..cc988ba 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -229,6 +229,8 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
     cos_xi_cm = 2 * U - 1;
 
+  // keep cosine in its range
+  cos_xi_cm = max(-1., min(1., cos_xi_cm));
   double sin_xi_cm = algo::common::sq_rt ( 1 - pow(cos_xi_cm, 2) );
 
   // find Phi angle
-- 
2.43.0


From d15a1980c4f88d1605f3e4c6ffd3e99892ab4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:07 +0000
Subject: [PATCH 63/82] fix: collisions do not crash, when species have other
 allowed names

---
 src/collisions.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index 8147b4b..1560314 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -23,29 +23,43 @@ using namespace constant;
 Collisions::Collisions (Geometry* _geometry, TimeSim *_time, vector <SpecieP *> _species_p):geometry(_geometry),time(_time)
 {
   species_p = _species_p;
+  specie_el = NULL;
+  specie_ion = NULL;
 
   // find electron and ion masses and charges
-  string name_el = "electrons";
-  string cname_el = "Electrons";
-
-  string name_ion = "ions";
-  string cname_ion = "Ions";
-
+  // (names should be the same, as in the configuration)
   for (auto ps = species_p.begin(); ps != species_p.end(); ++ps)
   {
-    if (name_el.compare((**ps).name) == 0 || cname_el.compare((**ps).name) == 0)
+    string name = (**ps).name;
+
+    if (name == "electrons" || name == "Electrons"
+        || name == "electron" || name == "Electron")
     {
       specie_el = *ps;
       mass_el = (**ps).mass;
       charge_el = (**ps).charge;
     }
-    if (name_ion.compare((**ps).name) == 0 || cname_ion.compare((**ps).name) == 0)
+    if (name == "ions" || name == "Ions"
+        || name == "ion" || name == "Ion")
     {
       specie_ion = *ps;
       mass_ion = (**ps).mass;
       charge_ion = (**ps).charge;
     }
   }
+
+  // configuration allows to call electrons in different way
+  for (auto ps = species_p.begin(); specie_el == NULL && ps != species_p.end(); ++ps)
+    if (*ps != specie_ion && (**ps).mass == EL_MASS)
+    {
+      specie_el = *ps;
+      mass_el = (**ps).mass;
+      charge_el = (**ps).charge;
+    }
+
+  if (specie_el == NULL || specie_ion == NULL)
+    LOG_S(FATAL) << "Can not find electrons and ions for collisions";
+
   map_el2cell = Grid<vector< Particle * >> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
   map_ion2cell = Grid<vector< Particle * >> (geometry->cell_amount[0], geometry->cell_amount[1], 2);
 
@@ -98,9 +112,7 @@ void Collisions::sort_to_cells()
       int k_n_shift = k_n - geometry->cell_dims[1];
 
       // TODO: push_back particle to sorter
-      string name = "ions";
-      string cname = "Ions";
-      if (name.compare((**ps).name) == 0 || cname.compare((**ps).name) == 0)
+      if (*ps == specie_ion)
         map_ion2cell(i_n_shift, k_n_shift).push_back((*i));
       else
         map_el2cell(i_n_shift, k_n_shift).push_back((*i));
-- 
2.43.0


From 23c4684640c98e4a16aeb2918ce5f06137c10245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:07 +0000
Subject: [PATCH 64/82] fix: do not collide particles of other species as
 electrons

---
 src/collisions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index 1560314..b9af94b 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -114,7 +114,8 @@ void Collisions::sort_to_cells()
       // TODO: push_back particle to sorter
       if (*ps == specie_ion)
         map_ion2cell(i_n_shift, k_n_shift).push_back((*i));
-      else
+      // particles of other species (except electron beams) do not collide
+      else if ((**ps).mass == mass_el && (**ps).charge == charge_el)
         map_el2cell(i_n_shift, k_n_shift).push_back((*i));
     }
 }
-- 
2.43.0


From 39ca9c258520de9546e95cf9ce4bfa378eb461ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:07 +0000
Subject: [PATCH 65/82] fix: correct velocities of single particle of specie in
 cell

---
 src/collisions/collisionsTA77S.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index d599eb8..65eca21 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -512,13 +512,13 @@ void CollisionsTA77S::correct_velocities()
           );
 
       // correct ion velocity
-      if (isnormal(alpha_ion)) // FIXME: sometimes E_tot_ion = mass_tot_ion(i, j) * V_0_sq_ion / 2
+      if (vec_size_ions > 0)
       {
+        // there is nothing to scale, when velocities of all particles are the same
+        if (!isfinite(alpha_ion)) alpha_ion = 1;
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
-        // and zeros
         if (alpha_ion < 0) alpha_ion = -alpha_ion;
-        if (alpha_ion == 0) alpha_ion = 1;
         alpha_ion = algo::common::sq_rt(alpha_ion);
 
         for (unsigned int k = 0; k < vec_size_ions; ++k)
@@ -538,13 +538,13 @@ void CollisionsTA77S::correct_velocities()
       }
 
       // correct electron velocity
-      if (isnormal(alpha_el)) // FIXME: sometimes E_tot_el = mass_tot_el(i, j) * V_0_sq_el / 2
+      if (vec_size_electrons > 0)
       {
+        // there is nothing to scale, when velocities of all particles are the same
+        if (!isfinite(alpha_el)) alpha_el = 1;
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
-        // and zeros
         if (alpha_el < 0) alpha_el = -alpha_el;
-        if (alpha_el == 0) alpha_el = 1;
         alpha_el = algo::common::sq_rt(alpha_el);
 
         for (unsigned int k = 0; k < vec_size_electrons; ++k)
-- 
2.43.0


From 21106b560c22b434f3a5edb25fab9924aca3a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:18 +0000
Subject: [PATCH 66/82] fix: relative velocity of colliding particles in
 center-of-mass frame

---
 src/collisions/collisionsP12.cpp  | 2 +-
 src/collisions/collisionsSK98.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index cc988ba..4c71b79 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -137,7 +137,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm - v_b_cm ).length()
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index acdc4b2..936e654 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -135,7 +135,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm - v_b_cm ).length()
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
-- 
2.43.0


From e2114a5175a1541c88b01f85e1c7334bd2884b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:08 +0000
Subject: [PATCH 67/82] fix: collide all particles of more numerous specie in
 cell

---
 src/collisions/collisionsP12.cpp   | 28 ++++++++++++----------------
 src/collisions/collisionsSK98.cpp  | 28 ++++++++++++----------------
 src/collisions/collisionsTA77S.cpp | 28 ++++++++++++----------------
 3 files changed, 36 insertions(+), 48 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 4c71b79..1ad06a8 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -472,19 +472,17 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -495,7 +493,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -507,19 +505,17 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -530,7 +526,7 @@ void CollisionsP12::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 936e654..53d86f1 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -380,19 +380,17 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -403,7 +401,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -415,19 +413,17 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -438,7 +434,7 @@ void CollisionsSK98::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 65eca21..0fff313 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,19 +346,17 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
-        // int els_2nd_group = (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = vec_size_ions - ions_1st_group;
 
         // TA77: case 2b, 1st group, ions
         for (unsigned int fgi = 0; fgi < ions_1st_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i+1));
+          int fge = fgi / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -369,7 +367,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, ions
         for (unsigned int fgi = 0; fgi < ions_2nd_group; ++fgi)
         {
-          int fge = floor(float(fgi) / float(c_i));
+          int fge = fgi / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
@@ -381,19 +379,17 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
-        // int ions_2nd_group = (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = vec_size_electrons - els_1st_group;
 
         // TA77: case 2b, 1st group, electrons
         for (unsigned int fge = 0; fge < els_1st_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i+1));
+          int fgi = fge / (c_i+1);
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge]),
@@ -404,7 +400,7 @@ void CollisionsTA77S::collide ()
         // TA77: case 2b, 2nd group, electrons
         for (unsigned int fge = 0; fge < els_2nd_group; ++fge)
         {
-          int fgi = floor(float(fge) / float(c_i));
+          int fgi = fge / c_i;
           collide_single(mass_el, mass_ion,
 			 charge_el, charge_ion,
                          (*map_el2cell(i, j)[fge+els_1st_group]),
-- 
2.43.0


From 21a1e6a07646ec464fc27164530b96486bc37a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 68/82] fix: choose profile of external electric field

---
 src/maxwellSolver/externalFields.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..620d979 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,20 +48,20 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no electric field profile, named ``" << _el_field_profile;
 
   if ( _magn_field_profile.compare("none") == 0 )
     m_profile_enum = 0;
@@ -76,7 +76,7 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
   else if ( _magn_field_profile.compare("linerad_z") == 0 )
     m_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _magn_field_profile;
 
   e_field_params = _el_field_params;
   m_field_params = _magn_field_params;
-- 
2.43.0


From 289c509097140db784d85cb1949a62b077f9f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 69/82] fix: external magnetic field does not erase external
 electric one

---
 src/maxwellSolver/externalFields.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 620d979..46f4cb8 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,10 +274,6 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
   // set electric field's overlay to 0
   field_h = 0; // reset electric field
   field_h.overlay_set(0);
-- 
2.43.0


From da612a28ad0e031be0e3c6dc58509455bc40f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:04 +0000
Subject: [PATCH 70/82] fix: set external fields in overlaying areas of domains

---
 include/maxwellSolver/externalFields.hpp |  8 +++---
 src/maxwellSolver/externalFields.cpp     | 32 +++++++++++++-----------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/maxwellSolver/externalFields.hpp b/include/maxwellSolver/externalFields.hpp
index ec66fb8..154b1bc 100644
--- a/include/maxwellSolver/externalFields.hpp
+++ b/include/maxwellSolver/externalFields.hpp
@@ -29,10 +29,10 @@ public:
 
 private:
   // internal variables to calculation for dielectric walls
-  unsigned int r_begin;
-  unsigned int z_begin;
-  unsigned int r_end;
-  unsigned int z_end;
+  int r_begin;
+  int z_begin;
+  int r_end;
+  int z_end;
 
   unsigned short e_profile_enum; // electric profile enum
   unsigned short m_profile_enum; // magnetic profile enum
diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 46f4cb8..469cb0a 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -26,26 +26,30 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
                                  std::vector<double> _magn_field_params )
   : MaxwellSolver(_geometry, _time)
 {
+  // external fields are not exchanged between domains,
+  // so, they should be set in overlaying areas too
+  const int OVERLAY = 2;
+
   // emulate dielectric walls
   if (geometry->walls[0]) // r=0
     r_begin = 1;
   else
-    r_begin = 0;
+    r_begin = -OVERLAY;
 
   if (geometry->walls[1]) // z=0
     z_begin = 1;
   else
-    z_begin = 0;
+    z_begin = -OVERLAY;
 
   if (geometry->walls[2]) // r=r
-    r_end = geometry->cell_amount[0] - 1;
+    r_end = (int)geometry->cell_amount[0] - 1;
   else
-    r_end = geometry->cell_amount[0];
+    r_end = (int)geometry->cell_amount[0] + OVERLAY;
 
   if (geometry->walls[3]) // z=z
-    z_end = geometry->cell_amount[1] - 1;
+    z_end = (int)geometry->cell_amount[1] - 1;
   else
-    z_end = geometry->cell_amount[1];
+    z_end = (int)geometry->cell_amount[1] + OVERLAY;
 
   // set electric and magnetic profiles
   if ( _el_field_profile.compare("none") == 0 )
@@ -240,7 +244,7 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_e[0].set(0, k, 0);
       field_e[2].set(0, k, 0);
@@ -248,12 +252,12 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_e[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
@@ -285,7 +289,7 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_h[0].set(0, k, 0);
       field_h[2].set(0, k, 0);
@@ -293,12 +297,12 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_h[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
-- 
2.43.0


From 6d420af4ddd820f5440028a5d6ea1ce46bdd606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 71/82] fix: equal velocities of colliding particles with fast
 math (not a number is not detectable there)

---
 src/collisions/collisionsTA77S.cpp | 50 ++++++++++++++----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 0fff313..a542ee4 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -484,34 +484,34 @@ void CollisionsTA77S::correct_velocities()
       double V_0_sq_ion = V_0_r_ion*V_0_r_ion + V_0_phi_ion*V_0_phi_ion + V_0_z_ion*V_0_z_ion;
       double V_0_sq_el = V_0_r_el*V_0_r_el + V_0_phi_el*V_0_phi_el + V_0_z_el*V_0_z_el;
       /// calculate alpha
-      double alpha_ion =
-        ( E_tot_ion - mass_tot_ion * V_0_sq_ion / 2 )
-        / ( E_tot_ion
-            + delta_E_tot_ion
-            - mass_tot_ion
-            * ( pow(V_0_r_ion + delta_V_r_ion, 2)
-                + pow(V_0_phi_ion + delta_V_phi_ion, 2)
-                + pow(V_0_z_ion + delta_V_z_ion, 2)
-              )
-            / 2
-          );
-      double alpha_el =
-        ( E_tot_el - mass_tot_el * V_0_sq_el / 2 )
-        / ( E_tot_el
-            + delta_E_tot_el
-            - mass_tot_el
-            * ( pow(V_0_r_el + delta_V_r_el, 2)
-                + pow(V_0_phi_el + delta_V_phi_el, 2)
-                + pow(V_0_z_el + delta_V_z_el, 2)
-              )
-            / 2
-          );
+      double E_chaotic_ion = E_tot_ion
+        + delta_E_tot_ion
+        - mass_tot_ion
+        * ( pow(V_0_r_ion + delta_V_r_ion, 2)
+            + pow(V_0_phi_ion + delta_V_phi_ion, 2)
+            + pow(V_0_z_ion + delta_V_z_ion, 2)
+          )
+        / 2;
+      double alpha_ion = 1;
+      // there is nothing to scale, when velocities of all particles are the same
+      if (E_chaotic_ion != 0)
+        alpha_ion = ( E_tot_ion - mass_tot_ion * V_0_sq_ion / 2 ) / E_chaotic_ion;
+      double E_chaotic_el = E_tot_el
+        + delta_E_tot_el
+        - mass_tot_el
+        * ( pow(V_0_r_el + delta_V_r_el, 2)
+            + pow(V_0_phi_el + delta_V_phi_el, 2)
+            + pow(V_0_z_el + delta_V_z_el, 2)
+          )
+        / 2;
+      double alpha_el = 1;
+      // there is nothing to scale, when velocities of all particles are the same
+      if (E_chaotic_el != 0)
+        alpha_el = ( E_tot_el - mass_tot_el * V_0_sq_el / 2 ) / E_chaotic_el;
 
       // correct ion velocity
       if (vec_size_ions > 0)
       {
-        // there is nothing to scale, when velocities of all particles are the same
-        if (!isfinite(alpha_ion)) alpha_ion = 1;
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
         if (alpha_ion < 0) alpha_ion = -alpha_ion;
@@ -536,8 +536,6 @@ void CollisionsTA77S::correct_velocities()
       // correct electron velocity
       if (vec_size_electrons > 0)
       {
-        // there is nothing to scale, when velocities of all particles are the same
-        if (!isfinite(alpha_el)) alpha_el = 1;
         // FIXME: quick and dirty workadound
         // caused negative values under squared root
         if (alpha_el < 0) alpha_el = -alpha_el;
-- 
2.43.0


From 43f6e37a414fda9a48e2bf5d2d18b23177672a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 72/82] fix: unaligned store of AVX square root

---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 1d33c1d..2b3c201 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -35,7 +35,7 @@ namespace algo::common
     double d[4];
     __m256d c = _mm256_sqrt_pd(_mm256_set_pd(x, 0, 0, 0));
 
-    _mm256_store_pd(d, c);
+    _mm256_storeu_pd(d, c); // array on stack is not aligned
 
     return d[3];
   }
-- 
2.43.0


From 5898ff429b0f639e24091ab67f8f9bcf17ef496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 73/82] fix: charge conservation of nearly straight moves
 (current of short parts of the path was lost)

---
 src/current/currentVB.cpp | 72 +++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index ef7fd07..6c709c8 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -42,22 +42,21 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
   double some_shit_density;
 
-  if ((abs(delta_r) < MNZL) || (abs(delta_z) < MNZL)) // MNZL see constant.h
-    return;
+  // parts of the path could be of any length (up to 0) in every direction,
+  // so there should not be divisions by the length
+  double log_ratio = (delta_r == 0) ? 1. / radius_old : log1p(delta_r / radius_old) / delta_r;
+
   // if i cell is not equal 0
   if (i_n>=1)
   {
-    // equation y = k*x + b; //
-    // finding k & b //
-    double k = delta_r / delta_z;
     double b = radius_old;
 
     // calculate current jz in [i,k] cell
     some_shit_density = SOME_SHIT_DENSITY_R(p_charge, i_n * dr, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (dr * delta_z - k * delta_z * delta_z / 2. - delta_z * b + dr * dr / k
-         * ((i_n + 0.5) * (i_n + 0.5) - 0.25) * log((k * delta_z + b) / b));
+      * (dr * delta_z - delta_r * delta_z / 2. - delta_z * b + dr * dr * delta_z
+         * ((i_n + 0.5) * (i_n + 0.5) - 0.25) * log_ratio);
     // set new weighting current value
     // el_current->inc_j_z(i_n, k_n, wj);
     current[2].inc(i_n_shift, k_n_shift, wj);
@@ -66,17 +65,14 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
     // calculate current in [i+1,k] cell //
     wj = some_shit_density
-      * (k * delta_z * delta_z / 2. + delta_z * b + delta_z * dr + dr * dr / k *
-         (0.25-(i_n + 0.5) * (i_n + 0.5)) * log((k * delta_z + b) / b));
+      * (delta_r * delta_z / 2. + delta_z * b + delta_z * dr + dr * dr * delta_z *
+         (0.25-(i_n + 0.5) * (i_n + 0.5)) * log_ratio);
     // set new weighting current value
     // el_current->inc_j_z(i_n+1, k_n, wj);
     current[2].inc(i_n_shift + 1, k_n_shift, wj);
 
     ////////////////////////////////// /
     // calculate current jr in [i,k] cell //
-    // equation y = k * x + b; //
-    // finding k & b //
-    k = -delta_z / delta_r;
     double r0 = (i_n + 0.5) * dr;
     double r1 =  radius_old;
     b = (k_n + 1.) * dz - longitude_old;
@@ -85,33 +81,30 @@ void CurrentVB::simple_current_distribution(double radius_new,
     some_shit_density = SOME_SHIT_DENSITY_Z(p_charge, r0, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (r0 * k * delta_r + k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b - k * (2 * r0 + r1))
-         + delta_r * (b-k * r1) * (4 * r0 * r0-dr * dr)
-         / (8 * radius_old * (radius_old + delta_r)) +
-         (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+      * (-r0 * delta_z - delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b + delta_z * (2 * r0 + r1))
+         + (delta_r * b + delta_z * r1) * (4 * r0 * r0-dr * dr)
+         / (8 * radius_old * (radius_old + delta_r))
+         - delta_z * (r0 * r0 / 2. - dr * dr / 8.)
+         * log_ratio);
     // el_current->inc_j_r(i_n,k_n, wj);
     current[0].inc(i_n_shift, k_n_shift, wj);
 
     b = longitude_old - k_n * dz;
     // weighting jr in [i][k+1] cell
     wj = some_shit_density
-      * (-r0 * k * delta_r - k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b + k * (2 * r0 + r1))
-         + delta_r * (b + k * r1) * (4 * r0 * r0 - dr * dr)
+      * (r0 * delta_z + delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b - delta_z * (2 * r0 + r1))
+         + (delta_r * b - delta_z * r1) * (4 * r0 * r0 - dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
-         - (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         + delta_z * (r0 * r0 / 2. - dr * dr / 8.)
+         * log_ratio);
     // el_current->inc_j_r(i_n, k_n+1, wj);
     current[0].inc(i_n_shift, k_n_shift + 1, wj);
   }
   // if i cell is equal 0
   else
   {
-    // equation y = k * x + b; //
-    // finding k & b //
-    double k = delta_r / delta_z;
     double b = radius_old;
     // calculate current jz in [i,k] cell //
     some_shit_density = p_charge
@@ -120,7 +113,7 @@ void CurrentVB::simple_current_distribution(double radius_new,
          * dr);
 
     wj = some_shit_density
-      * (dr * delta_z - k * delta_z * delta_z / 2. - delta_z * b );
+      * (dr * delta_z - delta_r * delta_z / 2. - delta_z * b );
     // set new weighting current value
     // el_current->inc_j_z(i_n,k_n, wj);
     current[2].inc(i_n_shift, k_n_shift, wj);
@@ -129,16 +122,13 @@ void CurrentVB::simple_current_distribution(double radius_new,
     some_shit_density = SOME_SHIT_DENSITY_R(p_charge, dr, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (k * delta_z * delta_z / 2. + delta_z * dr + delta_z * b);
+      * (delta_r * delta_z / 2. + delta_z * dr + delta_z * b);
     // set new weighting current value
     // el_current->inc_j_z(i_n + 1,k_n, wj);
     current[2].inc(i_n_shift + 1, k_n_shift, wj);
 
     ////////////////////////////////// /
     // calculate current jr in [i,k] cell //
-    // equation y = k * x + b; //
-    // finding k & b //
-    k = -delta_z / delta_r;
     double r0 = (i_n + 0.5) * dr;
     double r1 = radius_old;
     b= (k_n + 1.) * dz - longitude_old;
@@ -147,12 +137,12 @@ void CurrentVB::simple_current_distribution(double radius_new,
     some_shit_density = SOME_SHIT_DENSITY_Z(p_charge, r0, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (r0 * k * delta_r + k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b-k * (2 * r0 + r1))
-         + delta_r * (b-k * r1) * (4 * r0 * r0-dr * dr)
+      * (-r0 * delta_z - delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b + delta_z * (2 * r0 + r1))
+         + (delta_r * b + delta_z * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
-         + (k * (r0 * r0 / 2.-dr * dr / 8.))
-         * log((radius_old + delta_r) / radius_old));
+         - delta_z * (r0 * r0 / 2. - dr * dr / 8.)
+         * log_ratio);
     // el_current->inc_j_r(i_n,k_n, wj);
     current[0].inc(i_n_shift, k_n_shift, wj);
 
@@ -161,12 +151,12 @@ void CurrentVB::simple_current_distribution(double radius_new,
     // some_shit_density = SOME_SHIT_DENSITY_Z(p_charge, r0, dr, dz, delta_t);
 
     wj = some_shit_density
-      * (-r0 * k * delta_r - k / 2. * delta_r * (radius_old + delta_r / 2.)
-         + 0.5 * delta_r * (b + k * (2 * r0 + r1))
-         + delta_r * (b + k * r1) * (4 * r0 * r0-dr * dr)
+      * (r0 * delta_z + delta_z / 2. * (radius_old + delta_r / 2.)
+         + 0.5 * (delta_r * b - delta_z * (2 * r0 + r1))
+         + (delta_r * b - delta_z * r1) * (4 * r0 * r0-dr * dr)
          / (8 * radius_old * (radius_old + delta_r))
-         - (k * (r0 * r0 / 2.-dr * dr / 8.)) *
-         log((radius_old + delta_r) / radius_old));
+         + delta_z * (r0 * r0 / 2. - dr * dr / 8.)
+         * log_ratio);
     // el_current->inc_j_r(i_n, k_n + 1, wj);
     current[0].inc(i_n_shift, k_n_shift + 1, wj);
   }
-- 
2.43.0


From 79d844c1a79162e03869047b87d4d6e92e7de13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:40 +0000
Subject: [PATCH 74/82] fix: amount of beam macroparticles with regular and
 centered plasma (correction is for plasma only)

---
 src/beamP.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index df81155..ec4c3db 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -39,6 +39,9 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 {
   current_bunch_number = 0;
 
+  // correction for regular/centered distributions is for plasma only
+  macro_amount = p_macro_amount;
+
   radius = b_radius;
   density =  b_density;
   velocity = b_velocity;
-- 
2.43.0


From 8d9ae01478ea7fe6ed39f50cc4ccc351a85dca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:03 +0000
Subject: [PATCH 75/82] fix: run continued without metadata, if they could not
 be written

---
 src/outEngine/outEngineHDF5.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 6a18a55..d5fd37f 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -379,12 +379,15 @@ void OutEngineHDF5::write_metadata(picojson::value _metadata)
   }
   catch(GroupException& error)
   {
-    LOG_S(MAX) << "Group ``metadata'' already exists. Skipping";
+    // data file is always new
+    LOG_S(ERROR) << error.what();
+    LOG_S(FATAL) << "Can not write metadata";
   }
 
   catch(DataSetException& error)
   {
-    LOG_S(MAX) << "metadata already exists. Skipping";
+    LOG_S(ERROR) << error.what();
+    LOG_S(FATAL) << "Can not write metadata";
   }
 }
 
-- 
2.43.0


From b855cb2c14f307eb2149f349e28254ce95c325fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 76/82] fix: TA77S: sign of longitudinal scattering component
 (relative velocity was not turned by scattering angle)

---
 src/collisions/collisionsTA77S.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index a542ee4..1941ad2 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
-- 
2.43.0


From 535b28b61644c8c223ffde26ad681be2769018fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 77/82] fix: TA77S: electrons and ions did not exchange
 momentum and energy (collisions of different species were taken back by
 correction of velocities)

---
 src/collisions/collisionsTA77S.cpp | 94 ++++++++++++------------------
 1 file changed, 36 insertions(+), 58 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 1941ad2..210625c 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -458,74 +458,57 @@ void CollisionsTA77S::correct_velocities()
         E_tot_el_new += mass_m * v_sq / 2;
       }
 
+      // particles of different species exchange momentum and energy,
+      // so, they are kept for the whole cell, not for each specie
+      double mass_tot = amount_tot_ion(i, j) * mass_ion + amount_tot_el(i, j) * mass_el;
+      double moment_tot_r = moment_tot_ion[0](i, j) + moment_tot_el[0](i, j);
+      double moment_tot_phi = moment_tot_ion[1](i, j) + moment_tot_el[1](i, j);
+      double moment_tot_z = moment_tot_ion[2](i, j) + moment_tot_el[2](i, j);
+
       //// calculate delta V components and delta E total
-      double mass_tot_ion = amount_tot_ion(i, j) * mass_ion;
-      double mass_tot_el = amount_tot_el(i, j) * mass_el;
-      double delta_V_r_ion = (moment_new_r_ion - moment_tot_ion[0](i, j)) / mass_tot_ion;
-      double delta_V_phi_ion = (moment_new_phi_ion - moment_tot_ion[1](i, j)) / mass_tot_ion;
-      double delta_V_z_ion = (moment_new_z_ion - moment_tot_ion[2](i, j)) / mass_tot_ion;
-      double delta_V_r_el = (moment_new_r_el - moment_tot_el[0](i, j)) / mass_tot_el;
-      double delta_V_phi_el = (moment_new_phi_el - moment_tot_el[1](i, j)) / mass_tot_el;
-      double delta_V_z_el = (moment_new_z_el - moment_tot_el[2](i, j)) / mass_tot_el;
+      double delta_V_r = (moment_new_r_ion + moment_new_r_el - moment_tot_r) / mass_tot;
+      double delta_V_phi = (moment_new_phi_ion + moment_new_phi_el - moment_tot_phi) / mass_tot;
+      double delta_V_z = (moment_new_z_ion + moment_new_z_el - moment_tot_z) / mass_tot;
 
       //// calculate V_0 components
-      double V_0_r_ion = moment_tot_ion[0](i, j) / mass_tot_ion;
-      double V_0_phi_ion = moment_tot_ion[1](i, j) / mass_tot_ion;
-      double V_0_z_ion = moment_tot_ion[2](i, j) / mass_tot_ion;
-      double V_0_r_el = moment_tot_el[0](i, j) / mass_tot_el;
-      double V_0_phi_el = moment_tot_el[1](i, j) / mass_tot_el;
-      double V_0_z_el = moment_tot_el[2](i, j) / mass_tot_el;
-      //// calculate delta E total
-      double delta_E_tot_ion = E_tot_ion_new - energy_tot_ion(i, j);
-      double delta_E_tot_el = E_tot_el_new - energy_tot_el(i, j);
+      double V_0_r = moment_tot_r / mass_tot;
+      double V_0_phi = moment_tot_phi / mass_tot;
+      double V_0_z = moment_tot_z / mass_tot;
       //// link E total to local vars
-      double E_tot_ion = energy_tot_ion(i, j);
-      double E_tot_el = energy_tot_el(i, j);
-      double V_0_sq_ion = V_0_r_ion*V_0_r_ion + V_0_phi_ion*V_0_phi_ion + V_0_z_ion*V_0_z_ion;
-      double V_0_sq_el = V_0_r_el*V_0_r_el + V_0_phi_el*V_0_phi_el + V_0_z_el*V_0_z_el;
+      double E_tot = energy_tot_ion(i, j) + energy_tot_el(i, j);
+      double V_0_sq = V_0_r*V_0_r + V_0_phi*V_0_phi + V_0_z*V_0_z;
+      //// calculate delta E total
+      double delta_E_tot = E_tot_ion_new + E_tot_el_new - E_tot;
       /// calculate alpha
-      double E_chaotic_ion = E_tot_ion
-        + delta_E_tot_ion
-        - mass_tot_ion
-        * ( pow(V_0_r_ion + delta_V_r_ion, 2)
-            + pow(V_0_phi_ion + delta_V_phi_ion, 2)
-            + pow(V_0_z_ion + delta_V_z_ion, 2)
-          )
-        / 2;
-      double alpha_ion = 1;
-      // there is nothing to scale, when velocities of all particles are the same
-      if (E_chaotic_ion != 0)
-        alpha_ion = ( E_tot_ion - mass_tot_ion * V_0_sq_ion / 2 ) / E_chaotic_ion;
-      double E_chaotic_el = E_tot_el
-        + delta_E_tot_el
-        - mass_tot_el
-        * ( pow(V_0_r_el + delta_V_r_el, 2)
-            + pow(V_0_phi_el + delta_V_phi_el, 2)
-            + pow(V_0_z_el + delta_V_z_el, 2)
+      double E_chaotic = E_tot
+        + delta_E_tot
+        - mass_tot
+        * ( pow(V_0_r + delta_V_r, 2)
+            + pow(V_0_phi + delta_V_phi, 2)
+            + pow(V_0_z + delta_V_z, 2)
           )
         / 2;
-      double alpha_el = 1;
+      double alpha = 1;
       // there is nothing to scale, when velocities of all particles are the same
-      if (E_chaotic_el != 0)
-        alpha_el = ( E_tot_el - mass_tot_el * V_0_sq_el / 2 ) / E_chaotic_el;
+      if (E_chaotic != 0)
+        alpha = ( E_tot - mass_tot * V_0_sq / 2 ) / E_chaotic;
+      // FIXME: quick and dirty workadound
+      // caused negative values under squared root
+      if (alpha < 0) alpha = -alpha;
+      alpha = algo::common::sq_rt(alpha);
 
       // correct ion velocity
       if (vec_size_ions > 0)
       {
-        // FIXME: quick and dirty workadound
-        // caused negative values under squared root
-        if (alpha_ion < 0) alpha_ion = -alpha_ion;
-        alpha_ion = algo::common::sq_rt(alpha_ion);
-
         for (unsigned int k = 0; k < vec_size_ions; ++k)
         {
           double vr = P_VEL_R((*map_ion2cell(i, j)[k]));
           double vphi = P_VEL_PHI((*map_ion2cell(i, j)[k]));
           double vz = P_VEL_Z((*map_ion2cell(i, j)[k]));
 
-          double vr_corr = V_0_r_ion + alpha_ion * (vr - V_0_r_ion - delta_V_r_ion);
-          double vphi_corr = V_0_phi_ion + alpha_ion * (vphi - V_0_phi_ion - delta_V_phi_ion);
-          double vz_corr = V_0_z_ion + alpha_ion * (vz - V_0_z_ion - delta_V_z_ion);
+          double vr_corr = V_0_r + alpha * (vr - V_0_r - delta_V_r);
+          double vphi_corr = V_0_phi + alpha * (vphi - V_0_phi - delta_V_phi);
+          double vz_corr = V_0_z + alpha * (vz - V_0_z - delta_V_z);
 
           P_VEL_R((*map_ion2cell(i, j)[k])) = vr_corr;
           P_VEL_PHI((*map_ion2cell(i, j)[k])) = vphi_corr;
@@ -536,20 +519,15 @@ void CollisionsTA77S::correct_velocities()
       // correct electron velocity
       if (vec_size_electrons > 0)
       {
-        // FIXME: quick and dirty workadound
-        // caused negative values under squared root
-        if (alpha_el < 0) alpha_el = -alpha_el;
-        alpha_el = algo::common::sq_rt(alpha_el);
-
         for (unsigned int k = 0; k < vec_size_electrons; ++k)
         {
           double vr = P_VEL_R((*map_el2cell(i, j)[k]));
           double vphi = P_VEL_PHI((*map_el2cell(i, j)[k]));
           double vz = P_VEL_Z((*map_el2cell(i, j)[k]));
 
-          double vr_corr = V_0_r_el + alpha_el * (vr - V_0_r_el - delta_V_r_el);
-          double vphi_corr = V_0_phi_el + alpha_el * (vphi - V_0_phi_el - delta_V_phi_el);
-          double vz_corr = V_0_z_el + alpha_el * (vz - V_0_z_el - delta_V_z_el);
+          double vr_corr = V_0_r + alpha * (vr - V_0_r - delta_V_r);
+          double vphi_corr = V_0_phi + alpha * (vphi - V_0_phi - delta_V_phi);
+          double vz_corr = V_0_z + alpha * (vz - V_0_z - delta_V_z);
 
           P_VEL_R((*map_el2cell(i, j)[k])) = vr_corr;
           P_VEL_PHI((*map_el2cell(i, j)[k])) = vphi_corr;
-- 
2.43.0


From 7be7cc0a96ff2fd7125e793a1708e042d8857fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 78/82] fix: P12: scattering of relativistic particles used
 momentum of laboratory frame instead of center-of-mass one

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 1ad06a8..f37107b 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -173,7 +173,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
-      * gamma_cm * p_a.length()
+      * gamma_cm * p_a_cm.length()
       / (mass_a * gamma_a + mass_b * gamma_b)
 
       * pow(
-- 
2.43.0


From 05978a97342499fccbb42c4997719986ca838a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 79/82] fix: SK98: scattering angle depended on the motion of
 the laboratory frame (electrons were practically not scattered by ions at
 rest)

---
 src/collisions/collisionsSK98.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 53d86f1..3354488 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -172,9 +172,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double cos_theta = 1 - 2 * pow(delta, 2) / (1 + pow(delta, 2));
 
   // find theta angle for the COM frame
-  double tg_theta_cm = sin_theta / (gamma_cm * ( cos_theta - algo::common::sq_rt(v_cm_2) / v_rel_abs ) );
-  double sin_theta_cm = sin(atan(tg_theta_cm));
-  double cos_theta_cm = cos(atan(tg_theta_cm));
+  // (theta is the angle in the frame, where a-particle rests. Center of mass
+  // moves there with the velocity of a-particle in the COM frame)
+  double theta_cm = atan2 ( sin_theta, gamma_a_cm * ( cos_theta - v_a_cm.length() / v_rel_abs ) );
+  double sin_theta_cm = sin(theta_cm);
+  double cos_theta_cm = cos(theta_cm);
 
   // find Phi angle
   double phi_angle = math::random::uniform_angle();
-- 
2.43.0


From 1dc2f89b5c9928e433734c56b8a7df8e75cf724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 80/82] fix: TA77S: second particle of the pair was pushed to
 the same side as the first one (momentum was kept only by correction, which
 took collisions back)

---
 src/collisions/collisionsTA77S.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 210625c..104e1ca 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From f6713a4df1b372e8eda1184962e7a648703a0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 81/82] fix: like particles of odd groups collided twice with
 full time step (should be the half for the first 3 collisions)

---
 include/collisions/collisionsP12.hpp   |  3 ++-
 include/collisions/collisionsSK98.hpp  |  3 ++-
 include/collisions/collisionsTA77S.hpp |  3 ++-
 src/collisions/collisionsP12.cpp       | 23 +++++++++++++----------
 src/collisions/collisionsSK98.cpp      | 19 +++++++++++--------
 src/collisions/collisionsTA77S.cpp     | 19 +++++++++++--------
 6 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/include/collisions/collisionsP12.hpp b/include/collisions/collisionsP12.hpp
index a01c0ce..03f5b1d 100644
--- a/include/collisions/collisionsP12.hpp
+++ b/include/collisions/collisionsP12.hpp
@@ -35,7 +35,8 @@ public:
   void collide_single(double m_real_a, double m_real_b,
                       double q_real_a, double q_real_b,
                       Particle &p1, Particle &p2,
-                      double _density_a, double _density_b, double debye);
+                      double _density_a, double _density_b, double debye,
+                      double step_share = 1);
 
   void operator()();
 
diff --git a/include/collisions/collisionsSK98.hpp b/include/collisions/collisionsSK98.hpp
index 74ac7c1..f4740a6 100644
--- a/include/collisions/collisionsSK98.hpp
+++ b/include/collisions/collisionsSK98.hpp
@@ -30,7 +30,8 @@ public:
   void collide_single(double m_real_a, double m_real_b,
 		      double q_real_a, double q_real_b,
                       Particle &p1, Particle &p2,
-                      double _density_a, double _density_b, double debye);
+                      double _density_a, double _density_b, double debye,
+                      double step_share = 1);
 
   void operator()();
 
diff --git a/include/collisions/collisionsTA77S.hpp b/include/collisions/collisionsTA77S.hpp
index a4e372e..874b8c4 100644
--- a/include/collisions/collisionsTA77S.hpp
+++ b/include/collisions/collisionsTA77S.hpp
@@ -31,7 +31,8 @@ public:
   void collide_single(double m_real_a, double m_real_b,
 		      double q_real_a, double q_real_b,
                       Particle &p1, Particle &p2,
-                      double _density_a, double _density_b, double debye);
+                      double _density_a, double _density_b, double debye,
+                      double step_share = 1);
 
   void operator()();
 
diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f37107b..a751bc9 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -30,7 +30,8 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
                                    double q_real_a, double q_real_b,
                                    Particle &pa, Particle &pb,
                                    double _density_a, double _density_b,
-                                   double _debye)
+                                   double _debye,
+                                   double step_share)
 {
   // get required parameters
   double charge_a, mass_a, charge_b, mass_b, w_a, w_b, density_a, density_b;
@@ -169,7 +170,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     s12 = density_w
 
-      * time->step * L_coulomb * pow(charge_a * charge_b, 2)
+      * time->step * step_share * L_coulomb * pow(charge_a * charge_b, 2)
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
@@ -185,7 +186,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
   {
     s12 = density_w *
-      time->step * L_coulomb * pow(charge_a * charge_b, 2)
+      time->step * step_share * L_coulomb * pow(charge_a * charge_b, 2)
       / ( 4 * constant::PI * pow(constant::EPSILON0 * mass_ab, 2) * pow(v_rel_abs, 3) );
   }
 
@@ -194,7 +195,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       && density_w > 7e13) // density should be solid enough
   {
     double s12max = pow(FOUR_OVER_3 * constant::PI, ONE_OVER_3)
-      * density_w * time->step
+      * density_w * time->step * step_share
       * (mass_a + mass_b)
       / max(mass_a * pow(density_a, TWO_OVER_3),
             mass_b * pow(density_b, TWO_OVER_3))
@@ -395,24 +396,25 @@ void CollisionsP12::collide ()
         if (vec_size_ions >= 3)
         {
           // first 3 collisions in special way
+          // (particles collide twice, so, every time for the half of the step)
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[0]),
                          (*map_ion2cell(i, j)[1]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[1]),
                          (*map_ion2cell(i, j)[2]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[2]),
                          (*map_ion2cell(i, j)[0]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_ions >= 5)
           for (unsigned int k = 3; k < vec_size_ions; k = k + 2)
@@ -430,24 +432,25 @@ void CollisionsP12::collide ()
         if (vec_size_electrons >= 3)
         {
           // first 3 collisions in special way
+          // (particles collide twice, so, every time for the half of the step)
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[0]),
                          (*map_el2cell(i, j)[1]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[1]),
                          (*map_el2cell(i, j)[2]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[2]),
                          (*map_el2cell(i, j)[0]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_electrons >= 5)
           for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 3354488..dabb9e7 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -30,7 +30,8 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
                                     double q_real_a, double q_real_b,
                                     Particle &pa, Particle &pb,
                                     double _density_a, double _density_b,
-                                    double debye)
+                                    double debye,
+                                    double step_share)
 {
   // get required parameters
   double charge_a, mass_a, charge_b, mass_b, density_a, density_b; //, w_a, w_b;
@@ -161,7 +162,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
                                                         p_rel_abs,
                                                         v_rel_abs );
 
-  double variance_d = coll_freq * time->step;
+  double variance_d = coll_freq * time->step * step_share;
 
   //// find standard deviation of delta
   double std_dev_d = algo::common::sq_rt(variance_d);
@@ -305,24 +306,25 @@ void CollisionsSK98::collide ()
         if (vec_size_ions >= 3)
         {
           // first 3 collisions in special way
+          // (particles collide twice, so, every time for the half of the step)
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[0]),
                          (*map_ion2cell(i, j)[1]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[1]),
                          (*map_ion2cell(i, j)[2]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[2]),
                          (*map_ion2cell(i, j)[0]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_ions >= 5)
           for (unsigned int k = 3; k < vec_size_ions; k = k + 2)
@@ -340,24 +342,25 @@ void CollisionsSK98::collide ()
         if (vec_size_electrons >= 3)
         {
           // first 3 collisions in special way
+          // (particles collide twice, so, every time for the half of the step)
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[0]),
                          (*map_el2cell(i, j)[1]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[1]),
                          (*map_el2cell(i, j)[2]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[2]),
                          (*map_el2cell(i, j)[0]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_electrons >= 5)
           for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 104e1ca..b7ba7e5 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -32,7 +32,8 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
                                      double q_real_a, double q_real_b,
                                      Particle &pa, Particle &pb,
                                      double _density_a, double _density_b,
-                                     double debye)
+                                     double debye,
+                                     double step_share)
 {
   // get required parameters
   double vr_a, vphi_a, vz_a, charge_a, mass_a, vr_b, vphi_b, vz_b,
@@ -104,7 +105,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   //// find variance of delta
   double variance_d = pow(charge_a, 2) * pow(charge_b, 2) * density_lowest
     * lambda_coulomb / (8 * constant::PI * pow(EPSILON0, 2) * pow(m_ab, 2) * pow(u, 3))
-    * time->step;
+    * time->step * step_share;
 
   //// find standard deviation of delta
   double std_dev_d = algo::common::sq_rt(variance_d);
@@ -269,24 +270,25 @@ void CollisionsTA77S::collide ()
         if (vec_size_ions >= 3)
         {
           // first 3 collisions in special way
+          // (particles collide twice, so, every time for the half of the step)
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[0]),
                          (*map_ion2cell(i, j)[1]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[1]),
                          (*map_ion2cell(i, j)[2]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_ion, mass_ion,
 			 charge_ion, charge_ion,
                          (*map_ion2cell(i, j)[2]),
                          (*map_ion2cell(i, j)[0]),
                          density_ion, density_ion,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_ions >= 5)
           for (unsigned int k = 3; k < vec_size_ions; k = k + 2)
@@ -304,24 +306,25 @@ void CollisionsTA77S::collide ()
         if (vec_size_electrons >= 3)
         {
           // first 3 collisions in special way
+          // (particles collide twice, so, every time for the half of the step)
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[0]),
                          (*map_el2cell(i, j)[1]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[1]),
                          (*map_el2cell(i, j)[2]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
           collide_single(mass_el, mass_el,
 			 charge_el, charge_el,
                          (*map_el2cell(i, j)[2]),
                          (*map_el2cell(i, j)[0]),
                          density_el, density_el,
-                         debye);
+                         debye, 0.5);
         }
         if (vec_size_electrons >= 5)
           for (unsigned int k = 3; k < vec_size_electrons; k = k + 2)
-- 
2.43.0


From 15e9663eaba15f4233f30ab9859b1c80251fbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 82/82] fix: P12: collisions of species with different
 densities were too frequent (density of pairs is the highest one, not the
 lowest)

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index a751bc9..9d7369d 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -161,7 +161,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double L_coulomb = phys::plasma::coulomb_logarithm (mass_a, mass_b, debye, v_rel_abs);
 
   // n weighted
-  double density_w = density_a * density_b / min (density_a, density_b);
+  double density_w = density_a * density_b / max (density_a, density_b);
   double mass_ab = mass_a * mass_b / (mass_a + mass_b);
 
   // P12: calculate s_{1, 2} --- CM frame. FIXME: should be n_2 instead of density_highest
-- 
2.43.0

