From 8e80c15cf80633b09e9f8e7bdc77f057364a14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:56 +0000
Subject: [PATCH 01/35] fix: set_number_of_items(0) must leave an empty array

divmod(-1, L) is (-1, L-1), so first_not_full_segment became -1 and the next
loop over the array returned a whole segment of deleted items. (In C++ this
happened for segment_length 1.)
---
 SegmentedArrayPair_Module.py |  6 +++++-
 cpp/SegmentedArrayPair.h     | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..4496b6c 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -484,7 +484,11 @@ class SegmentedArrayPair_C(object):
 
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
-        (seg, offset) = divmod(n_items-1, self.segment_length)
+        if n_items == 0:
+            # An empty array starts again at the beginning of the first segment
+            (seg, offset) = (0, -1)
+        else:
+            (seg, offset) = divmod(n_items-1, self.segment_length)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..a04ebc3 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -232,8 +232,14 @@ namespace dnt
         // Compute the segment and offset of the last item. The
         // zero-based index of the last item is n_items-1
         // (seg, offset) = divmod(n_items-1, self.segment_length)
-        auto seg = (py::ssize_t) (n_items-1) / segment_length;
-        auto offset = (n_items - 1) % segment_length;
+        py::ssize_t seg = (n_items-1) / segment_length;
+        py::ssize_t offset = (n_items - 1) % segment_length;
+        if (n_items == 0)
+          {
+            // An empty array starts again at the beginning of the first segment
+            seg = 0;
+            offset = -1;
+          }
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From 1be84d67c4f4b2d78375127c9b31f8251332136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:56 +0000
Subject: [PATCH 02/35] fix: push_back must not depend on where the last loop
 stopped

After an "out" loop current_segment is not first_not_full_segment, and a
push_back that needs another segment hit the assertion (or the wrong segment).
---
 SegmentedArrayPair_Module.py | 2 +-
 cpp/SegmentedArrayPair.h     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 4496b6c..94cc783 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -108,7 +108,7 @@ class SegmentedArrayPair_C(object):
         if self.first_available_offset[outSA] == self.segment_length:
             # If another segment is already available, use it. Otherwise, allocate a new
             # segment.
-            self.current_segment[outSA] += 1
+            self.current_segment[outSA] = self.first_not_full_segment[outSA] + 1
             if self.current_segment[outSA] < self.nseg[outSA]:
                 #print("push_back: nseg=", self.nseg[outSA], "first_not_full_segment=", self.first_not_full_segment[outSA])
                 self.first_not_full_segment[outSA] += 1
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index a04ebc3..a9e714f 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -300,7 +300,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
+            current_segment[outSA] = first_not_full_segment[outSA] + 1;
             if (current_segment[outSA] < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
@@ -369,7 +369,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
+            current_segment[outSA] = first_not_full_segment[outSA] + 1;
             if (current_segment[outSA] < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
@@ -430,7 +430,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
+            current_segment[outSA] = first_not_full_segment[outSA] + 1;
             if (current_segment[outSA] < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
-- 
2.43.0


From f3fef29f3747846bb168efb798eb8cb3aaa8a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:56 +0000
Subject: [PATCH 03/35] fix: do not count a full last segment twice in
 advance_charged_species_in_uniform_fields

---
 Particle_Module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..916623f 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,11 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if ipOut != self.SEGMENT_LENGTH: # This catches the case where we exit the loop when
+                                         # ipOut = SEGMENT_LENGTH and there are no more
+                                         # "in" segments. Otherwise, particleCount would
+                                         # be incremented twice.
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From ee00295ef8caaf5e3b2c5a64ad1c40c4f9c2387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:56 +0000
Subject: [PATCH 04/35] fix: advance_neutral_species must update self.dx in
 place

The boundary functions use the move vector through self.dx; rebinding the local
name left them with the vector of an earlier move.
---
 Particle_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 916623f..bebabd7 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2018,7 +2018,9 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    # NB: "dx = ..." would reassign dx, so the boundary functions, which hold
+                    # a reference to self.dx, would see an old move vector.
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From 8619b31ad60d179608067a42d8e0d84d677d6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:56 +0000
Subject: [PATCH 05/35] fix: pass the start of the path to find_facet in
 advance_neutral_species_cartesian_xy

The start point was written to pCoord2[3..4] but find_facet is given
&pCoord2[pDim] with pDim = 2.
---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From 140ce5b3cb346ea2263826f27291486021aab942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:58 +0000
Subject: [PATCH 06/35] fix: movers must not use an absent field array when a
 field is not applied to a species

---
 Particle_Module.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index bebabd7..3ce3198 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1106,7 +1106,7 @@ class Particle_C(object):
                         # operation on each component of E.)
                         for n in Eseg.dtype.names:
                             Eseg[n] *= -1.0
-                else:
+                if Eseg is None: # There's no solved field, or it's not applied to this species
                     self.negE[0:npSeg] = self.zeroE[0:npSeg]
                     Eseg = self.negE[0:npSeg] # A ref, not a copy.
                 if external_E_field is not None:
@@ -1505,10 +1505,11 @@ class Particle_C(object):
                     # operation on each component of E.)
                     for n in Eseg.dtype.names:
                         Eseg[n] *= -1.0
-            else:
+            if Eseg is None: # There's no solved field, or it's not applied to this species
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg] # A ref, not a copy.
 #                Eseg = self.zeroE[0:npSeg] # Is this the same as the 2 lines above?
+            Eext_seg = None # This is for the case where no external field is applied
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
@@ -1754,7 +1755,7 @@ class Particle_C(object):
                                     E1Comps[0][i] = Eseg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
-                                if external_E_field is None:
+                                if Eext_seg is None:
                                     Eext1Comps[0][:] = 0.0
                                 else:
                                     for i in range(len(self.Eext1.dtype.names)):
-- 
2.43.0


From 861ab8c0866ffb801847cf669e9984c68ed1cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:58 +0000
Subject: [PATCH 07/35] fix: record a facet crossing without field values as
 zero field

---
 Particle_Module.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 3ce3198..18a474b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1302,7 +1302,7 @@ class Particle_C(object):
 # Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
 
 # Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
@@ -2522,10 +2522,10 @@ class Particle_C(object):
                             traj_T.data_list[species_name][t_idx][comp][newpoint] = p_arr[0][comp+'0']
                         else:
                             traj_T.data_list[species_name][t_idx][comp][newpoint] = p_arr[0][comp]
-                    elif comp in Efield.dtype.names:
-                        traj_T.data_list[species_name][t_idx][comp][newpoint] = Efield[0][comp]
-                    elif comp in externalEfield.dtype.names:
-                        traj_T.data_list[species_name][t_idx][comp][newpoint] = externalEfield[0][comp]
+                    elif comp in self.negE1.dtype.names:
+                        traj_T.data_list[species_name][t_idx][comp][newpoint] = 0.0 if E_field_comps is None else Efield[0][comp]
+                    elif comp in self.Eext1.dtype.names:
+                        traj_T.data_list[species_name][t_idx][comp][newpoint] = 0.0 if external_E_field_comps is None else externalEfield[0][comp]
             #elif self.dynamics[species_name] == 'neutral':
             else:
                 for comp in traj_T.neutral_dict['names']:
-- 
2.43.0


From 0aa509e525d87ee7859a0ecec2d80d7baa93cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 08/35] fix: one full trajectory must not stop the recording of
 the others

---
 Particle_Module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 18a474b..72ced16 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2770,7 +2770,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2807,6 +2807,10 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From 56554ec7a98a57c4b4e283c20fa584611a81ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 09/35] fix: C++ charged movers can be called without a solved
 field

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 72ced16..aa74f5b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1403,7 +1403,7 @@ class Particle_C(object):
             if self.use_cpp_integrators is True:
                 # Advance the particles in this species with C++
                 # Pull out the field data needed for interpolation to the particles
-                negEfieldFunction = neg_E_field.function.cpp_object() # Received as a dolfin::Function*
+                negEfieldFunction = None if neg_E_field is None else neg_E_field.function.cpp_object() # Received as a dolfin::Function*
                 self.integrators[sn](self, sn, ctrl, neg_E_field=negEfieldFunction, external_E_field=external_E_field, accel_only=accel_only)
             else:
                 # Advance the particles in this species with Python
-- 
2.43.0


From 5c1c33dfff6b800c626ab89716948cf46e0bdf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 10/35] fix: C++ movers must not use a null field pointer when
 the solved field is not applied

---
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 2 +-
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 2 +-
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..fda36bf 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -208,7 +208,7 @@
                   }
               }
           }
-        else
+        if (EsegPtr == nullptr) // There is no solved field, or it is not applied to this species
           {
             //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@5" << std::endl;
             EsegPtr = &zeroE;
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..f87f06b 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -177,7 +177,7 @@
                   }
               }
           }
-        else
+        if (EsegPtr == nullptr) // There is no solved field, or it is not applied to this species
           {
             //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_xy@5" << std::endl;
             EsegPtr = &zeroE;
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..51fbd91 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -213,7 +213,7 @@
                   }
               }
           }
-        else
+        if (EsegPtr == nullptr) // There is no solved field, or it is not applied to this species
           {
             //std::cout << "Hello from advance_charged_species_in_E_field_spherical_r@5" << std::endl;
             EsegPtr = &zeroE;
-- 
2.43.0


From e083bff884773591e03cb7686c942dcad5f7051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 11/35] fix: record both field components of a cartesian_xy
 facet crossing

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index f87f06b..0bd6bf5 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -365,13 +365,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From 46feb21c5b83cea4e0e987d62036336169ff5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 12/35] fix: C++ charged movers must honour accel_only

---
 ...charged_species_in_E_field_cartesian_x.cpp | 19 +++++++++++--------
 ...harged_species_in_E_field_cartesian_xy.cpp | 19 +++++++++++--------
 ...charged_species_in_E_field_spherical_r.cpp | 19 +++++++++++--------
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index fda36bf..4e5cb8f 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -279,14 +279,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 0bd6bf5..ecf8ca6 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -243,14 +243,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 51fbd91..aacbcb7 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -284,14 +284,17 @@
               }
 
             // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].r0_ = psegOut[ipOut].r_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // 1. Save the initial position
+                psegOut[ipOut].r0_ = psegOut[ipOut].r_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
-- 
2.43.0


From 13fe7d38db102280e56e9c1de73cae071d0a02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:09 +0000
Subject: [PATCH 13/35] fix: species number and kinetic energy must not include
 stale particles of C++ segments

---
 Particle_Module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index aa74f5b..7f14d7a 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,8 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            # C++ segments are full-length, so use only the first npSeg particles
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -799,7 +800,8 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                # C++ segments are full-length, so use only the first npSeg particles
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From b11d5682aa25243fc87896e45da1b552a5ddbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:57 +0000
Subject: [PATCH 14/35] fix: first trajectory datum of a created particle must
 not depend on the current segment

---
 Particle_Module.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 7f14d7a..eb2f12d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2444,7 +2444,8 @@ class Particle_C(object):
 
            :param species_name: Name of the species that the marked particle belongs
                                 to.
-           :param ip_out: Index of the particle in the current "out" segment.
+           :param ip_out: Index of the particle in the current "out" segment. If None,
+                          the particle is the one already in self.one_particle_arr.
 
            :param int full_index: The full storage index of the particle, which is used to identify the particle in the trajectory storage.
 
@@ -2468,9 +2469,11 @@ class Particle_C(object):
 
         # Access the particle's record in the current "out" segment. This has the
         # most up-to-date data for this particle.
-        sap = self.sap_dict[species_name] # The segmented array pair for this species
-        psegOut = sap.get_current_out_segment()
-        p = psegOut[ip_out]
+        p = None
+        if ip_out is not None:
+            sap = self.sap_dict[species_name] # The segmented array pair for this species
+            psegOut = sap.get_current_out_segment()
+            p = psegOut[ip_out]
         # Get the storage index that currently identifies this particle in the
         # trajectory list of particles.
 #        fullIndex = sap.get_full_index(ip_in, "in")
@@ -2479,7 +2482,8 @@ class Particle_C(object):
 
         # Copy the particle into an array, since an array must be used below.
         p_arr = self.one_particle_arr
-        p_arr[0] = p
+        if p is not None:
+            p_arr[0] = p
         # print "record_trajectory_datum: p_arr[0] = ", p_arr[0]
 
         # Copy the E values into a structured array so that "names" can be used below
@@ -3086,7 +3090,9 @@ class Particle_C(object):
                                 Eext1Comps[0][i] = self.Eext1[0][i]
                             
 #                        self.record_trajectory_datum(speciesName, segIndex, fullIndex, step, time, E_field=E_arr, external_E_field=Eext_arr)
-                        self.record_trajectory_datum(speciesName, segIndex, fullIndex, step, time, E_field_comps=E1Comps, external_E_field_comps=Eext1Comps)
+                        # A new particle isn't necessarily in the current "out" segment, so use
+                        # the copy in one_particle_arr.
+                        self.record_trajectory_datum(speciesName, None, fullIndex, step, time, E_field_comps=E1Comps, external_E_field_comps=Eext1Comps)
                     else:
 # Instead of printing this message, a traj_T object could be created here?
                         if printWarningNoTrajectory is True: print(fncName, "\tDnT WARNING: A trajectory flag is on, but no trajectory object has been created yet.")
-- 
2.43.0


From f610d6550463c23440029df04e8dca85e484ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 15/35] fix: initial particle-generating functions take the
 step before the time

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index eb2f12d..4b75591 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -483,8 +483,9 @@ class Particle_C(object):
                 ipFunc = ipTuple[1]
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
+                step = 0
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
                 errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
-- 
2.43.0


From a25c81af37301aeb7e37cd800718c1847c0f47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 16/35] fix: undefined name in initialize_particles() error
 message

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 4b75591..2e96cc8 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -487,7 +487,7 @@ class Particle_C(object):
                 time = 0.0
                 ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From 25b6345f93b39349b1e419c346304269662d678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 17/35] fix: undefined name printTag in ParticleMeshSources_C

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 2e96cc8..9b02120 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3456,7 +3456,7 @@ class ParticleMeshSources_C(object):
                     srcFunction = bcBoundaryDefaultFunction
                 if srcFunction is None:
                     print("ParticleMeshSources_C: No boundary condition specified for", pSrcDictInv[intTag], "/", sp)
-                elif printTag:
+                elif print_flag:
                     print("ParticleMeshSources_C: Boundary condition for", pSrcDictInv[intTag], "/", sp, "is", srcFunction)
                 self.srcFunctionDict[intTag][sp] = srcFunction
 
-- 
2.43.0


From d8330867d395b2ebbd6549e5e4cf85cd0b5b1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 18/35] fix: write_particles_to_file(close_flag=True) must
 close the file on a repeated step

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 9b02120..b16506d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3190,6 +3190,8 @@ class Particle_C(object):
         step = ctrl.timeloop_count
         if step == self.h5_last_write_step:
             if printInfoSecondCall is True: print(fncName, "\t\"Second call on timestep %d: return without rewriting the data!\"" % step)
+            if close_flag is True:
+                self.particle_output_handle.close()
             return
 
         # Create a new group for this timestep
-- 
2.43.0


From 6b15f9a0e642890f8969292d0abca1fac42e2883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 19/35] fix: undefined name max_points in History_C

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From c796feb53e4ca46f9665ea604068463bd386c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 20/35] fix: undefined fncName in the error messages of
 advance_neutral_species()

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index b16506d..7de277f 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1903,6 +1903,8 @@ class Particle_C(object):
 
         printInfoBoundaryCrossing = False
         
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
+
         # Set local names for the passed parameters
         dt = ctrl.dt
         step = ctrl.timeloop_count
-- 
2.43.0


From d7944c2edbe338fb326fddbcc9991ba3abd62d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:09 +0000
Subject: [PATCH 21/35] fix: detect points outside the mesh in
 compute_cell_index

---
 Dolfin_Module.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..e854f3d 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -463,10 +463,9 @@ class Mesh_C(object):
         fncName = sys._getframe().f_code.co_name + '():'
 #        print fncName, "cell index =", first
 
-        # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
-        # (eight Fs and F = 1111)
-#        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
+        # DOLFIN returns the maximum value of an unsigned 32-bit int, 0xFFFFFFFF (eight
+        # Fs and F = 1111), if there's no collision (this is not equal to NO_CELL = -1)
+        if first == 0xFFFFFFFF:
             print(fncName, ": particle is out of bounds")
             sys.exit()
 
-- 
2.43.0


From 531864743506e04664dcf8f7465b90f8e2eb2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:08 +0000
Subject: [PATCH 22/35] fix: report NO_FACET from C++ find_facet instead of
 exiting (1D) or reading outside the normals (2D, 3D)

---
 cpp/dolfin_functions.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/dolfin_functions.cpp b/cpp/dolfin_functions.cpp
index e6e7703..ae3e0ce 100644
--- a/cpp/dolfin_functions.cpp
+++ b/cpp/dolfin_functions.cpp
@@ -252,6 +252,12 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+
+        // There's no facet-normal to return if no facet was crossed
+        if (facet == NO_FACET)
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         
         if (returnStdArray == true)
           {
@@ -359,6 +365,12 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+
+        // There's no facet-normal to return if no facet was crossed
+        if (facet == NO_FACET)
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -457,8 +469,8 @@ namespace dnt
               }
           }
 
-        std::cout << "dolfin_functions.cpp::find_facet() for gDim = 1: Should never get here!!!" << std::endl;
-        exit(EXIT_FAILURE);
+        // No facet was crossed
+        return py::make_tuple(facet, dxFraction, nullptr);
                                      
       } // else if (gDim == 1)
 
-- 
2.43.0


From 0f57bfec4aca4ac7758e48714c89654991f4dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 23/35] fix: copy the field components one by one in
 interpolate_random_field_to_points

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index e854f3d..6109d3b 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1195,7 +1195,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(len(fieldValue)):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From 411101cd0482c6e2e2f706b4b28fe0b97a2c556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 24/35] fix: compare the field_type of a Field_C by value

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 6109d3b..66994d7 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -917,9 +917,9 @@ class Field_C(object):
         self.mesh_gdim = mesh_M.mesh.geometry().dim()
         self.mesh_tdim = mesh_M.mesh.topology().dim()
 
-        if field_type is 'scalar':
+        if field_type == 'scalar':
             self.function_space = df_m.FunctionSpace(self.mesh_M.mesh, element_type, element_degree)
-        elif field_type is 'vector':
+        elif field_type == 'vector':
             self.function_space = df_m.VectorFunctionSpace(self.mesh_M.mesh, element_type, element_degree)
         self.field_type = field_type
 
-- 
2.43.0


From 3db7de51d5b3430d45f22cb9df0bb644b04508e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 25/35] fix: multiply each DoF in a subdomain once in
 multiply_values

---
 Dolfin_Module.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 66994d7..1386685 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1017,23 +1017,17 @@ class Field_C(object):
             else:
                 self.function_values[:] *= multiplier
         else:
-            numberOfValues = subdomain.ncell
-
-# TODO: this isn't finished. For a CellSet, need to figure out how to apply a multiplier
-# to the DOFs, if DOFs can be associated with more than one cell (e.g., a vertex).  In
-# that case, you cannot loop on cells because the same DOFs will get multiplied more than
-# once. Use a Python "set" i.e. a set of unique objects.
+            # DoFs (e.g., vertex values) can be shared between the cells of the subdomain,
+            # so make a set of them in order to multiply each one just once.
+            subdomainDofs = set()
             for icell in range(subdomain.ncell):
                 cellIndex = subdomain.cell_index[icell]
+                subdomainDofs.update(self.function_space.dofmap().cell_dofs(cellIndex)) # return type: numpy.ndarray
+            dofIndices = np_m.array(sorted(subdomainDofs), dtype=np_m.intc)
 
-# !!! Doesn't this multiply vertices twice, since vertices are shared between cells?
-
-# It works if the DOFs are cell values (e.g., the E-field), and not vertex values (e.g., the density)
-
-# It'd be better to get a list of the DOFs and not loop over cells. Use a Python set().
-# 
-
-                dofIndices = self.function_space.dofmap().cell_dofs(cellIndex) # return type: numpy.ndarray
+            if gaussian is True:
+                self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier, len(dofIndices))
+            else:
                 self.function_values[dofIndices] *= multiplier
             
         return
-- 
2.43.0


From f8f475bd29a88e297494818562dbc960602b431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 26/35] fix: keep the radius of a SphericalRegion_C apart from
 the radii of its cells

---
 Dolfin_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1386685..a3d0efd 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1957,8 +1957,9 @@ class SphericalRegion_C(CellSet_C):
 
     def __init__(self, mesh_M, center, radius, plot_flag=False):
 
+        # Note that self.radius is used by the base class for the radii of the cells
         self.center = center
-        self.radius = radius
+        self.region_radius = radius
         plotFlag = plot_flag
 
         # Call the base class constructor
@@ -1982,7 +1983,7 @@ class SphericalRegion_C(CellSet_C):
         tol = 1.0e-10
 
         # The source is in the interval [xmin, xmax]
-        return x[0] >= self.center - self.radius - tol and x[0] <= self.center + self.radius + tol
+        return x[0] >= self.center - self.region_radius - tol and x[0] <= self.center + self.region_radius + tol
 #    def inside(self, x):ENDDEF
 
 #class SphericalRegion_C(CellSet_C):ENDCLASS
-- 
2.43.0


From ea00592526bacd77b3d31f252b01759a7171ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 27/35] fix: keep function_values of the electric field in step
 with its function

---
 Dolfin_Module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index a3d0efd..a84f7a5 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1729,6 +1729,7 @@ class PoissonSolve_C(object):
 
         function_space = self.neg_electric_field.function_space
         self.neg_electric_field.function = df_m.project(negE, function_space)
+        self.neg_electric_field.function_values = self.neg_electric_field.function.vector()
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From 16fbdef282cb911ea03c790f4f883bdcf0e5a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 28/35] fix: give the degree of a source-density Expression

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index a84f7a5..0f417cc 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1596,7 +1596,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, degree=self.V.ufl_element().degree())
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From c2b3bf6bb536e7accf94ba0b4dce43386f9cd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:06 +0000
Subject: [PATCH 29/35] fix: print the dimensions of a Mesh_C

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 0f417cc..dcfc1a6 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -179,8 +179,8 @@ class Mesh_C(object):
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():'
         print(fncName)
 
-        print_string = ' mesh tdim = ' + str(self.geometry().dim())
-        print_string += '\nmesh gdim = ' + str(self.topology().dim())
+        print_string = ' mesh tdim = ' + str(self.tdim)
+        print_string += '\nmesh gdim = ' + str(self.gdim)
 
         return print_string
 #     def __str__(self):ENDDEF
-- 
2.43.0


From 7fd876ca415b6cf16d77fe17852a8efe48a9334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 30/35] fix: keep the boundary markers a spherical mesh reads
 from files

---
 UserMesh_y_Fields_Spherical1D_Module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..1a716d3 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,9 +187,11 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            fieldBoundaryMarker = df_m.MeshFunction("size_t", self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = fieldBoundaryMarker
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
+            particleBoundaryMarker = df_m.MeshFunction("size_t", self.mesh, particleBoundaryFile)
+            self.particle_boundary_marker = particleBoundaryMarker
 # or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
 
         return
-- 
2.43.0


From 4579408ede5075a6e0742ceb1db447600ec92ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 31/35] fix: print the dimensions of a spherical mesh

---
 UserMesh_y_Fields_Spherical1D_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index 1a716d3..2be3a5a 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -205,8 +205,8 @@ class UserMesh1DS_C(Mesh_C):
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():'
         print(fncName)
 
-        print_string = ' mesh_tdim = ' + str(self.mesh_tdim)
-        print_string += '\nmesh_gdim = ' + str(self.mesh_gdim)
+        print_string = ' mesh_tdim = ' + str(self.tdim)
+        print_string += '\nmesh_gdim = ' + str(self.gdim)
 
         return print_string
 #     def __str__(self):ENDDEF
-- 
2.43.0


From 4d8b9bf6c4204fafdd3910445bc416ab2fc4ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 32/35] fix: print the conversion factors of MyPlasmaUnits_C

---
 UserUnits_Module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/UserUnits_Module.py b/UserUnits_Module.py
index d30bd02..2b6f70a 100644
--- a/UserUnits_Module.py
+++ b/UserUnits_Module.py
@@ -70,9 +70,9 @@ class MyPlasmaUnits_C(object):
     @staticmethod
     def print_units():
         print("Conversion factors in ", MyPlasmaUnits_C.__name__, ":")
-        U = MyPlasmaUnits_C.U
-        for key in U:
-            print(key, " = ", U[key])
+        for key, value in vars(MyPlasmaUnits_C).items():
+            if isinstance(value, float):
+                print(key, " = ", value)
 
 #    def __init__(self):
 #        self.number_per_m3 = 1.0
-- 
2.43.0


From 06b5d6dda45a77098f01e4fd4802ba06fc7f1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 33/35] fix: do not flag the listed H+ particle for deletion

---
 UserParticles_H_He_e.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UserParticles_H_He_e.py b/UserParticles_H_He_e.py
index 72e4fdb..c2ef40e 100644
--- a/UserParticles_H_He_e.py
+++ b/UserParticles_H_He_e.py
@@ -159,7 +159,7 @@ class UserParticleDistributions_C(object):
         x1 = -x0; y1 = -y0; z1 = -z0
         ux1 = -ux0; uy1 = -uy0; uz1 = -uz0
         weight1 = 4.0
-        bitflags1 = 0b01 # initialize all bits to 0
+        bitflags1 = 0b00 # initialize all bits to 0
 #        bitflags1 = bitflags1 | Particle_C.TRAJECTORY_FLAG # use low bit for trajectory flag.
 #        unique_ID = Particle_C.UNIQUE_ID_COUNTER; Particle_C.UNIQUE_ID_COUNTER += 1
         unique_ID = 3
-- 
2.43.0


From b6b488a8a7193339b2435304d59fa158b1a0a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 34/35] fix: give the listed 1D neutral_H particles their
 crossings item

---
 UserParticles_1D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/UserParticles_1D.py b/UserParticles_1D.py
index 32825ea..5017f93 100644
--- a/UserParticles_1D.py
+++ b/UserParticles_1D.py
@@ -71,9 +71,10 @@ class UserParticleDistributions_C(object):
         bitflags0 = bitflags0 | Particle_C.TRAJECTORY_FLAG
         cell_index = Mesh_C.NO_CELL
         unique_ID = Particle_C.UNIQUE_ID_COUNTER; Particle_C.UNIQUE_ID_COUNTER += 1
+        crossings = 0
         
         # Trim the number of coordinates here if needed to match "position_coordinates" variable in ParticleInput_C
-        p0 = (x0, x0, ux0, weight0, bitflags0, cell_index, unique_ID)
+        p0 = (x0, x0, ux0, weight0, bitflags0, cell_index, unique_ID, crossings)
 
         ## Second particle
 
@@ -87,7 +88,7 @@ class UserParticleDistributions_C(object):
         unique_ID = Particle_C.UNIQUE_ID_COUNTER; Particle_C.UNIQUE_ID_COUNTER += 1
         
         # Trim the number of coordinates here to match "position_coordinates" variable in ParticleInput_C
-        p1 = (x1, x1, ux1, weight1, bitflags1, cell_index, unique_ID)
+        p1 = (x1, x1, ux1, weight1, bitflags1, cell_index, unique_ID, crossings)
 
 #        particle_list = (p0,) # Need the final comma , for one particle.
 #        particle_list = (p1,) # Need the final comma , for one particle.
-- 
2.43.0


From d953b6688b661d7ba52b7241d7d043c8460e9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 35/35] fix: show the phase-space plots of trajectories before
 closing them

---
 RecordedData_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index d52048c..34c3ecb 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -520,8 +520,8 @@ class Trajectory_C(object):
                             mplot_m.ylabel('y')
                             mplot_m.grid(True)
                             # mplot_m.savefig(plot_title + ".png")
+                            mplot_m.show()
                             mplot_m.close(fig)
-                            # mplot_m.show()
                         if 'ux' in comps:
                             fig = mplot_m.figure()
                             mplot_m.plot(data_arr['x'][0:nlength], data_arr['ux'][0:nlength], marker="o")
@@ -530,8 +530,8 @@ class Trajectory_C(object):
                             mplot_m.ylabel('ux')
                             mplot_m.grid(True)
                             # mplot_m.savefig(plot_title + ".png")
+                            mplot_m.show()
                             mplot_m.close(fig)
-                            # mplot_m.show()
                 
                 mplot_m.show()
         return
-- 
2.43.0

