From 50a1e03eb18a23c3dbc79b5943f524576ef84bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 01/11] fix: LightOctree_storage::getBound no longer reports
 every 2D octant as a boundary octant

---
 core/src/amr/LightOctree_storage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/amr/LightOctree_storage.h b/core/src/amr/LightOctree_storage.h
index b2c7e8e..73a1266 100644
--- a/core/src/amr/LightOctree_storage.h
+++ b/core/src/amr/LightOctree_storage.h
@@ -191,8 +191,9 @@ public:
     logical_coord_t last_oct_y = cell_count(IY, level)-1;
     logical_coord_t last_oct_z = cell_count(IZ, level)-1;
 
-    return lp[IX] == 0 || lp[IY] == 0 || lp[IZ] == 0 
-        || lp[IX] == last_oct_x || lp[IY] == last_oct_y || lp[IZ] == last_oct_z;
+    // In 2D, lp[IZ] is always 0 and z is not a boundary
+    return lp[IX] == 0 || lp[IY] == 0 || ( ndim == 3 && lp[IZ] == 0 )
+        || lp[IX] == last_oct_x || lp[IY] == last_oct_y || ( ndim == 3 && lp[IZ] == last_oct_z );
   }
   //! @copydoc LightOctree_base::getSize()
   KOKKOS_INLINE_FUNCTION 
-- 
2.43.0


From 69f103afdb4c4c53f50cedbe5afd2aa92f7986cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:42 +0000
Subject: [PATCH 02/11] fix: LightOctree_hashmap::getiOctFromCoordinates no
 longer truncates logical coordinates to 16 bits

---
 core/src/amr/LightOctree_hashmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..58ba2a9 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -21,6 +21,8 @@ public:
     using LightOctree_base::OctantIndex;
     using LightOctree_base::pos_t;
     using morton_t = uint64_t;
+    using logical_coord_t = uint32_t;
+    using level_t = logical_coord_t;
 
     LightOctree_hashmap() = default;
     LightOctree_hashmap(const LightOctree_hashmap& lmesh) = default;
@@ -241,7 +243,7 @@ public:
      * Get octant from logical position
      **/
     KOKKOS_INLINE_FUNCTION
-    OctantIndex getiOctFromCoordinates(uint16_t ix, uint16_t iy, uint16_t iz, uint16_t level) const
+    OctantIndex getiOctFromCoordinates(logical_coord_t ix, logical_coord_t iy, logical_coord_t iz, level_t level) const
     {
         int ndim = getNdim();
 
@@ -345,8 +347,6 @@ public:
     }
 
 
-    using logical_coord_t = uint32_t;
-    using level_t = logical_coord_t;
     struct key_t //! key type for hashmap (morton+level)
     {
         logical_coord_t level, i, j, k;
-- 
2.43.0


From f0774af7f1387658757c6d34a77cd22bb402b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 03/11] fix: LightOctree_hashmap morton intervals use the same
 finest-level grid as getDomainFromPos

---
 core/src/amr/LightOctree_hashmap.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 58ba2a9..102b141 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -54,11 +54,10 @@ public:
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            // pos is the corner of an octant : it is aligned with the grid at max_level
+            logical_coords[IX] = std::round(pos[IX]*this->storage.cell_count(IX, max_level));
+            logical_coords[IY] = std::round(pos[IY]*this->storage.cell_count(IY, max_level));
+            logical_coords[IZ] = (ndim-2)*std::round(pos[IZ]*this->storage.cell_count(IZ, max_level));
 
             first_morton = compute_morton_key( logical_coords );
         }
-- 
2.43.0


From c01e94419289bd876c8eafcedc70e824095dd0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 04/11] fix: CellIndex::getNeighbor_ghost on a local array
 returns the cells inside the block

---
 core/src/foreach_cell/AMRBlockForeachCell_CellArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
index e9b2e6c..8c355e3 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
@@ -775,7 +775,7 @@ CellIndex CellIndex::getNeighbor_ghost( const offset_t& offset, const CellArray_
   uint32_t j = this->j + offset[IY];
   uint32_t k = this->k + offset[IZ];
 
-  if( i>=bx || j>=by || k>=bz )
+  if( i<bx && j<by && k<bz )
   { // Neighbor cell is inside local octant
     CellIndex res = this->getNeighbor( offset );
     DYABLO_ASSERT_KOKKOS_DEBUG(res.is_valid() && res.is_local(), "internal error : found invalid neighbor");
-- 
2.43.0


From 9ba4a013b3c93491fe4aaa1985be83247ad15d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:20 +0000
Subject: [PATCH 05/11] fix: euler_update initialises the interface pressures
 it accumulates over smaller neighbours

---
 core/src/hydro/HydroUpdate_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index 625aba2..b11c7cb 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -475,7 +475,7 @@ void euler_update(const RiemannParams&     params,
   real_t dflux_RR  = df_factors[ldiff_R+1][0];
 
   // Output pressures, necessary for the well-balanced solver
-  real_t poutL, poutR;
+  real_t poutL = 0, poutR = 0;
   
   // == Left interface
   // 1- Same size or bigger
-- 
2.43.0


From c03850f03a7f139284fcb1bd8d97ac99fd968fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:37 +0000
Subject: [PATCH 06/11] fix: getBoundaryValue applies the boundary type of the
 side the cell is outside of

---
 .../boundary_conditions/BoundaryConditions.h  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 3a5c29c..da16655 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -82,44 +82,44 @@ public:
 
     // X dir
     if (offset[IX] > 0) {
-      if (bc_min[IX] == BC_REFLECTING)
+      if (bc_max[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
-      else if (bc_min[IX] == BC_USER)
+      else if (bc_max[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
     else if (offset[IX] < 0) {
-      if (bc_max[IX] == BC_REFLECTING)
+      if (bc_min[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
-      else if (bc_max[IX] == BC_USER)
+      else if (bc_min[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
 
     // Y dir
     if (offset[IY] > 0) {
-      if (bc_min[IY] == BC_REFLECTING)
+      if (bc_max[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
-      else if (bc_min[IY] == BC_USER)
+      else if (bc_max[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
     else if (offset[IY] < 0) {
-      if (bc_max[IY] == BC_REFLECTING)
+      if (bc_min[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
-      else if (bc_max[IY] == BC_USER)
+      else if (bc_min[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
 
     // Z dir
     if (ndim == 3) {
       if (offset[IZ] > 0) {
-        if (bc_min[IZ] == BC_REFLECTING)
+        if (bc_max[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
-        else if (bc_min[IZ] == BC_USER)
+        else if (bc_max[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       }
       else if (offset[IZ] < 0) {
-        if (bc_max[IZ] == BC_REFLECTING)
+        if (bc_min[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
-        else if (bc_max[IZ] == BC_USER)
+        else if (bc_min[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       } 
     }
-- 
2.43.0


From c545c046436752d3b814261956c5b4c09b5db600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:37 +0000
Subject: [PATCH 07/11] fix: HydroUpdate_hancock_oneneighbor overrides the flux
 of the boundary it is at

---
 core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
index bf9abe8..08927d4 100644
--- a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
+++ b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
@@ -290,9 +290,9 @@ void compute_fluxes_and_update( const FieldArray& Uin, const FieldArray& Uout, c
       PrimState qr_n = consToPrim<ndim>(ur_n, params.gamma0);
       ConsState flux = riemann(qr_c, qr_n, dir, sign);
 
-      if (sign == 1 && bc_manager.bc_min[dir] == BC_USER)
+      if (sign == -1 && bc_manager.bc_min[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, true);
-      else if (sign == -1 && bc_manager.bc_max[dir] == BC_USER)
+      else if (sign == 1 && bc_manager.bc_max[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, false);
         
       // +- dS / dV 
-- 
2.43.0


From 45a8649555b47df55a084a29e043a18dec8cdc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:34 +0000
Subject: [PATCH 08/11] fix: particle time step without particles on a process,
 and with negative velocities

---
 core/src/compute_dt/Compute_dt_particle_velocity.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/compute_dt/Compute_dt_particle_velocity.cpp b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
index a36a67a..672769a 100644
--- a/core/src/compute_dt/Compute_dt_particle_velocity.cpp
+++ b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -49,6 +51,10 @@ public:
     const ForeachParticle::ParticleArray& Ppos = U.getParticleArray( "particles" );
     UserData::ParticleAccessor Pdata = U.getParticleAccessor( "particles", {{"vx", IVX},{"vy", IVY},{"vz", IVZ}} );
 
+    // No particle in this process : no restriction on dt
+    if( Pdata.getShape().getNumParticles() == 0 )
+      return std::numeric_limits<real_t>::max();
+
     constexpr real_t small_v = 1.0e-10;
     using pos_t = Kokkos::Array<real_t, 3>;
 
@@ -65,9 +71,9 @@ public:
       real_t dy = cell_size[IY];
       real_t dz = cell_size[IZ];
 
-      real_t vx = small_v + Pdata.at( iPart, IVX );
-      real_t vy = small_v + Pdata.at( iPart, IVY );
-      real_t vz = (ndim == 3 ? small_v + Pdata.at( iPart, IVZ ) : 0.0);
+      real_t vx = small_v + FABS( Pdata.at( iPart, IVX ) );
+      real_t vy = small_v + FABS( Pdata.at( iPart, IVY ) );
+      real_t vz = (ndim == 3 ? small_v + FABS( Pdata.at( iPart, IVZ ) ) : 0.0);
       real_t v  = sqrt(vx*vx+vy*vy+vz*vz);
       real_t dmin = FMIN(dx,dy);
       if (ndim == 3)
-- 
2.43.0


From 599290d14311c60bd8f658efc17a1693e7161059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:34 +0000
Subject: [PATCH 09/11] fix: CIC deposits and interpolates with the actual
 number of smaller neighbours across edges and corners

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 8 ++++----
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..b1e6ae5 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -98,10 +98,10 @@ public:
         else 
         {
           // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
-          //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
-          //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          // Number of smaller neighbors : 2^(ndim-1) for a face, less for an edge or a corner
+          int nneighbors = ( (offset[IX]==0)?2:1 ) * ( (offset[IY]==0)?2:1 ) * ( (ndim==3 && offset[IZ]==0)?2:1 );
+          // Mass is distributed accross neighbors, which are 2^ndim times smaller than the local cell
+          real_t rho_contrib = ( 2*2*(ndim-1) ) * (part_mass * volume_fraction) / Vcell / nneighbors;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..77f9b02 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -98,7 +98,8 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // Number of smaller neighbors : 2^(ndim-1) for a face, less for an edge or a corner
+          int nneighbors = ( (offset[IX]==0)?2:1 ) * ( (offset[IY]==0)?2:1 ) * ( (ndim==3 && offset[IZ]==0)?2:1 );
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
-- 
2.43.0


From cf519b04241bc342e8899bda4e2885f832c98fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:42 +0000
Subject: [PATCH 10/11] fix: 2D viscosity does not multiply the fluxes by the
 size of the cell along z

---
 core/src/parabolic/ParabolicTerm_viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_viscosity.h b/core/src/parabolic/ParabolicTerm_viscosity.h
index 76bec7f..22f7968 100644
--- a/core/src/parabolic/ParabolicTerm_viscosity.h
+++ b/core/src/parabolic/ParabolicTerm_viscosity.h
@@ -136,7 +136,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IY] * size[IZ];
+        real_t area = size[IY] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xx;
         vf.rho_v += sign * area * tau_xy;
         vf.rho_w += sign * area * tau_xz;
@@ -176,7 +176,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IX] * size[IZ];
+        real_t area = size[IX] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xy;
         vf.rho_v += sign * area * tau_yy;
         vf.rho_w += sign * area * tau_yz;
-- 
2.43.0


From 9eb02c20fccd7314592c1ce760891049e0c5daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:42 +0000
Subject: [PATCH 11/11] fix: 2D NGP density does not divide by the size of the
 cell along z

---
 core/src/particles/ParticleUpdate_NGP_density.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/particles/ParticleUpdate_NGP_density.cpp b/core/src/particles/ParticleUpdate_NGP_density.cpp
index 1c0033f..1f169be 100644
--- a/core/src/particles/ParticleUpdate_NGP_density.cpp
+++ b/core/src/particles/ParticleUpdate_NGP_density.cpp
@@ -33,6 +33,7 @@ public:
     UserData::ParticleAccessor Pdata = U.getParticleAccessor( "particles", {{"mass", IMass}} );
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
+    int ndim = foreach_cell.getDim();
 
     foreach_cell.foreach_cell( "ParticleUpdate_NGP_density::copy_density", Uin.getShape(),
       KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell )
@@ -45,7 +46,9 @@ public:
     {
       ForeachCell::CellIndex iCell = cells.getCellFromPos( {Ppos.pos(iPart, IX), Ppos.pos(iPart, IY), Ppos.pos(iPart, IZ)} );
       auto size = cells.getCellSize( iCell );
-      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*size[IZ]);
+      // In 2D, size[IZ] depends on the AMR level and is not part of the cell volume
+      real_t Vcell = size[IX] * size[IY] * (ndim == 3 ? size[IZ] : 1.0);
+      real_t rho_contrib = Pdata.at( iPart, IMass ) / Vcell;
 
       Kokkos::atomic_add( &Uin.at( iCell, IRhoG ), rho_contrib ) ;
     });   
-- 
2.43.0

