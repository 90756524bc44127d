From 537d98c27de198e08fdec2729f07765356b9f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 01/36] fix: accept zero as a center of gravity coordinate

---
 machup/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..ab53418 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
-- 
2.43.0


From 11f9bc66dfe6fc076b3dbe563dde732912436755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 02/36] fix: accept array and zero-valued airplane positions

---
 machup/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index ab53418..f8e66b9 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -424,8 +424,8 @@ class Airplane:
             Position of Airplane as specified by the user.
         """
         # pylint: disable=unused-argument
-        if self._position:
-            return self._position
+        if self._position is not None:
+            return np.array(self._position, dtype=float)
 
         return np.array([0., 0., 0.])
 
-- 
2.43.0


From 3612c338733c923f0afe473a9a84d159c348b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 03/36] fix: airplanes built without an input file have no
 units instead of failing

---
 machup/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index f8e66b9..4d2fafa 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -69,6 +69,7 @@ class Airplane:
         self._long_ref = None
         self._lat_ref = None
         self._position = position
+        self._units = None
         self._connections = {}
 
         if inputfile:
-- 
2.43.0


From 23066501a66b3e856f9015505cb88cb4746ea94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 04/36] fix: input files that do not say is_main use the
 default of wing segments

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 4d2fafa..37bf1dc 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -128,7 +128,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main",1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From 8d41e1490e61c98657a30be0d13289f9a517f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:44 +0000
Subject: [PATCH 05/36] fix: solving without a control state uses zero
 deflections

---
 machup/llmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..559cff0 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -244,6 +244,10 @@ class LLModel:
                                                 delta_f*mix_f)*np.pi/180.
 
             self._compute_deflection_efficiency()
+        else:
+            # no deflection unless specified
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
+            self._control_data["deflection_eff"] = np.zeros(self._num_vortices)
 
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
-- 
2.43.0


From 30e4242f9d0059bcf5a30b2e3cba4b8d473f6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 06/36] fix: solving without an aero state forgets the flow of
 earlier calls

---
 machup/llmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 559cff0..107c60e 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
-- 
2.43.0


From d05bde4a3a113390d55f7997fd20890ce2efe377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/36] fix: each wing solution returns its own results

---
 machup/llmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 107c60e..d3dbe58 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -303,6 +303,8 @@ class LLModel:
         """
         self._process_aero_state(aero_state)
         self._process_control_state(control_state)
+        # earlier results belong to the caller
+        self._results = {'inviscid': {}, 'viscous': {}, 'total': {}}
 
         if stype == "linear":
             self._calc_induced_velocities()
-- 
2.43.0


From 439a1a5f0f85906278f2246084ce7d52a394d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 08/36] fix: wing distributions are copies of the grid data

---
 machup/llmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index d3dbe58..19520a7 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -628,7 +628,8 @@ class LLModel:
         distributions["section_Cm"] = self.section_cm
         distributions["section_CD_parasitic"] = self.section_cd
         distributions["section_alpha_L0"] = self._grid.get_zero_lift_alpha()
-        return distributions
+        # copies, so that the caller cannot alter the grid
+        return {key: np.copy(value) for key, value in distributions.items()}
 
 
     def _find_stall_location(self):
-- 
2.43.0


From cdbe5d67f1be68eba788c8acfe68bfb6feefbe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 09/36] fix: solve does not store the slipstream in the
 caller's aero state

---
 machup/MU.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..8165205 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -152,6 +152,7 @@ class MachUp:
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
+                    aero_state = dict(aero_state)
                     aero_state["local_state"] = velocity_array
 
             if self.myairplane._wings:
-- 
2.43.0


From ec06956e761cd85712f893badde2243a478834a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 10/36] fix: aerodynamic center, stall and trim leave the
 caller's states as they were

---
 machup/MU.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8165205..2b9cb43 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -416,6 +416,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = aero_state.copy()
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -563,7 +564,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
-                a0 = aero_state.get("alpha",0.) 
+                aero_state = aero_state.copy()
                 a = 0.
                 while True:
                     aero_state["alpha"] = a
@@ -1225,6 +1226,8 @@ class MachUp:
 
         """
         if aero_state and control_state:
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
 
             a, de = 0.,0.
             iters = 0.
-- 
2.43.0


From dd140d6ea61828e93cc6fcadf1a0a793dbaac657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 11/36] fix: derivative analyses leave the caller's states as
 they were

---
 machup/MU.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 2b9cb43..0e5c728 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -795,6 +795,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -881,6 +882,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -991,6 +993,7 @@ class MachUp:
         cont_deriv = {}
 
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
-- 
2.43.0


From cc549f01e871d35c57974eb12845899df476d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 12/36] fix: restore the yaw rate, not the pitch rate, after
 yaw damping

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 0e5c728..66301df 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -942,7 +942,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
-- 
2.43.0


From 336b4334359c7ee76a2026b5d785c17d02a1d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 13/36] fix: control derivatives without an aero state use the
 default state

---
 machup/MU.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 66301df..8b826b2 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -992,6 +992,11 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769,
+                          "alpha": 0}
+
         if control_state:
             control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
-- 
2.43.0


From acb751b333ec1653483e22dda8b788a637a3aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 14/36] fix: solve without an aero state can write its results
 to a file

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8b826b2..05a8a1e 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -177,7 +177,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state, filename = filename)
 
         if filename:
             results = {
-- 
2.43.0


From adf96b5aa4a3c04567d70cdc86707fac49311141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 15/36] fix: stall airspeed without an aero state uses the
 default state

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 05a8a1e..09072c0 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -675,7 +675,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 777cd7d5272b27572a35cb92c6fe546a8ff34250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 16/36] fix: target lift honours filename, error and a missing
 alpha in its defaults

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 09072c0..7a4bf9b 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1133,7 +1133,7 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
@@ -1172,7 +1172,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            return self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
-- 
2.43.0


From c5f276677b2c12eb13932a000db2dead901d6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 17/36] fix: pitch trim honours filename and error in its
 defaults

---
 machup/MU.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 7a4bf9b..abbdb8c 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1283,12 +1283,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1297,7 +1297,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From 49b3a1c9212bf01a42371918d9185428c99a2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 18/36] fix: distributions file replaces an older file and is
 complete when read back

---
 machup/MU.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index abbdb8c..12e21e2 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -325,7 +325,8 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
+                # append only to the wing distributions written above
+                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -362,6 +363,7 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                distrib_file.close()
             if filename[-4:] == "json":
                 rawtxtfile = open(filename, "r+")
                 data = rawtxtfile.read()
-- 
2.43.0


From bd477491a825f2e9e4eac137b3af2cb369c509a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 19/36] fix: target lift no longer fails when started from
 alpha = -0.2

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 12e21e2..5ee6be4 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1136,7 +1136,7 @@ class MachUp:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
             x0 = aero0.get("alpha",0.) #alpha guess
-            x1 = (x0*1.5)+0.1
+            x1 = x0+0.5*abs(x0)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
             FM0 = self.solve(aero0,control_state,prop_state)
-- 
2.43.0


From 90c7f7e0534b6d48ba710e835fe2926ad7da1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 20/36] fix: blade sections at zero angle of attack have zero
 lift, not uninitialised memory

---
 machup/propmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..6f4328e 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1270,7 +1270,7 @@ class PropModel:
 
     def _get_CL(self,alpha):
 
-        CL = np.empty_like(alpha)
+        CL = np.zeros_like(alpha)
         neg = np.where(alpha<0)
         pos = np.where(alpha>0)
 
-- 
2.43.0


From 94eadd97de58770bafc78b67ffbf005eb8cb32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 21/36] fix: propeller solution does not depend on previously
 solved states

---
 machup/propmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 6f4328e..042342c 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -378,9 +378,9 @@ class PropModel:
         self._einf = np.arctan2(self._J, (m.pi*self._zeta))
 
         
-        #initial guess for iterative solution of ei if not previously solved
-        if not np.any(self._ei):
-            self._ei = self._beta-self._einf
+        #initial guess for iterative solution of ei. Always the same, so that
+        #the solution does not depend on previously solved states
+        self._ei = self._beta-self._einf
 
         #set constant values for ei solver
         self._ei_func_a = (self._chatb/(8*self._zeta))
-- 
2.43.0


From 75380a45a65b439a7ec668a550aae867ee022db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:52 +0000
Subject: [PATCH 22/36] fix: solve blade sections whose induced angle the
 secant method misses

---
 machup/propmodel.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 042342c..3b42bb2 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -438,11 +438,11 @@ class PropModel:
             x2[loc] = x1[loc]-((y1[loc]*(x1[loc]-x0[loc]))/(y1[loc]-y0[loc]))
             i+=1
             x2 = self._correct_ei(x2)
-            if i>50 and loc[0].size<3:
+            if i>50 and (loc[0].size<3 or i>200):
                 #print("Ei convergence issues @ J=",self._J)
-                return x2
+                return self._bisect_unconverged_ei(x2)
             if loc[0].size == 0:
-                return x2
+                return self._bisect_unconverged_ei(x2)
 
             x0 = np.copy(x1)
             x1 = np.copy(x2)
@@ -450,6 +450,24 @@ class PropModel:
             y1 = self._ei_function(x1)
 
 
+    def _bisect_unconverged_ei(self,ei):
+        #sections for which the secant method has not found a solution (deep
+        #windmilling). There is always one between zero and beta-einf
+        failed = ~(np.absolute(self._ei_function(ei))<1E-9)
+        if not np.any(failed):
+            return ei
+
+        x0 = np.zeros_like(ei)
+        x1 = self._beta-self._einf
+        sign0 = np.sign(self._ei_function(x0))
+        for _ in range(60):
+            x2 = 0.5*(x0+x1)
+            same = np.sign(self._ei_function(x2)) == sign0
+            x0 = np.where(same,x2,x0)
+            x1 = np.where(same,x1,x2)
+        return np.where(failed,0.5*(x0+x1),ei)
+
+
     def _ei_function(self,ei):
         alpha = self._beta-self._einf-ei
         CLift = self._get_CL(alpha)
-- 
2.43.0


From d92fe5c842aba439dd568a8aac68648fef907f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:29 +0000
Subject: [PATCH 23/36] fix: power and throttle states always find the
 propeller's rotation rate or report failure

---
 machup/propmodel.py | 61 +++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 3b42bb2..cfe8b2f 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -493,24 +493,29 @@ class PropModel:
             self._rot_per_sec = self._find_rot_rate_power()
         self._J = self._Vinf/(self._rot_per_sec*self._d)
 
-    def _find_rot_rate_power(self, error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_power_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_power_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_power_difference(x1)
+    def _find_rot_rate_power(self):
+        return self._find_rot_rate(self._zero_power_difference)
+
+    def _find_rot_rate(self,difference):
+        #Find the fastest rotation rate for which the propeller is balanced.
+        #Starts well above it and does not depend on previously solved states
+        high = max(15.,self._Vinf/(0.2*self._d))
+        i = 0
+        while not difference(high)>0.:
+            high *= 1.5
+            i += 1
+            if i>100:
+                raise RuntimeError("Unable to find the rotation rate of the propeller")
+        low = high/1.5
+        while not difference(low)<=0.:
+            high = low
+            low /= 1.5
+            i += 1
+            if i>100:
+                raise RuntimeError("Unable to find the rotation rate of the propeller")
+        rot_per_sec = opt.brentq(difference,low,high,xtol=1E-14,rtol=1E-15)
+        difference(rot_per_sec)
+        return rot_per_sec
 
     def _zero_power_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
@@ -519,24 +524,8 @@ class PropModel:
         prop_power = (self._rho*(self._rot_per_sec**3)*(self._d**5)*self._CP)
         return prop_power-self._brake_power
 
-    def _find_rot_rate_motor(self,error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_torque_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_torque_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_torque_difference(x1)
+    def _find_rot_rate_motor(self):
+        return self._find_rot_rate(self._zero_torque_difference)
 
     def _zero_torque_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
-- 
2.43.0


From c5d1e8d5ab12082bf91442dd273f3bcad459eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 24/36] fix: wing points on a propeller axis have no swirl
 instead of an undefined one

---
 machup/propmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index cfe8b2f..2dda318 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -289,7 +289,9 @@ class PropModel:
         center2point_vec = wing_points-P #vector from point to centerline
         self._center2point_dist = self._vec_mag_mult(center2point_vec) #distance from point to center line
         tangent = np.cross(self._prop_forward,center2point_vec)
-        self._tangent_norm = tangent/self._vec_mag_mult(tangent)[:,None]
+        tangent_mag = self._vec_mag_mult(tangent)[:,None]
+        #points on the center line have no tangential direction
+        self._tangent_norm = np.divide(tangent,tangent_mag,out=np.zeros_like(tangent),where=tangent_mag>0.)
 
         self._points_in_stream = np.where((abs(self._center2point_dist)<=(self._d/2))&(self._t<0.))
 
-- 
2.43.0


From adeb41c2af0e19a0453cff4f6d71002e63a14d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 25/36] fix: total thrust and torque are those of all
 propellers, not of the last one

---
 machup/propssolver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..8182b28 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -70,6 +70,8 @@ class PropsSolver:
     def _calc_forces(self,aero_state = None,prop_state = None):
         self._F = np.zeros(3)
         self._M = np.zeros(3)
+        thrust = 0.
+        torque = 0.
 
         self._results = {
             "total":{}
@@ -91,6 +93,8 @@ class PropsSolver:
             F,M,T,l = pm._calc_forces()
             self._F += F
             self._M += M
+            thrust += T
+            torque += l
 
         lift,drag,side = self._rotate_aero_forces(self._F,aero_state)
 
@@ -103,8 +107,8 @@ class PropsSolver:
         self._results["total"]['MX'] = self._M[0]
         self._results["total"]['MY'] = self._M[1]
         self._results["total"]['MZ'] = self._M[2]
-        self._results["total"]['Thrust'] = T
-        self._results["total"]['Torque'] = l
+        self._results["total"]['Thrust'] = thrust
+        self._results["total"]['Torque'] = torque
 
         return self._results
 
-- 
2.43.0


From 378226afc780205bb01863ae36ca49780d8bc3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:15 +0000
Subject: [PATCH 26/36] fix: draw airfoils that are not four digit NACA
 sections as NACA 2412

---
 machup/outputstl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..7503902 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,15 +43,15 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
+            left_NACA = '2412'
             if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
                 if len(left_name) == 8:
                     left_NACA = left_name[4:]
-            else: left_NACA = '2412'
                     
+            right_NACA = '2412'
             if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
                 if len(right_name) == 8:
                     right_NACA = right_name[4:]
-            else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
             right_X,right_Z = plotNACA(right_NACA,n)
@@ -108,10 +108,10 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
+                NACA = '2412'
                 if name[:4] == 'NACA' or name[:4] == 'naca':
                     if len(name) == 8:
                         NACA = name[4:]
-                else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
                 Z_list.append(Z)
-- 
2.43.0


From 00b62cb3e17ddaa5586a53c957b293b6224c4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:28 +0000
Subject: [PATCH 27/36] fix: stall searches without a solution report it
 instead of running forever

---
 machup/MU.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 5ee6be4..ee17f04 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -577,6 +577,12 @@ class MachUp:
                         stall_info["lift"] = results["FL"]
                         break
                     a+=0.1
+                    if a>90.:
+                        if filename:
+                            stall_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Current model does not stall")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
@@ -656,6 +662,7 @@ class MachUp:
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
 
+                iters = 0
                 while True:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
@@ -673,6 +680,13 @@ class MachUp:
                     aero1["V_mag"] = x1
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
+                    iters += 1
+                    if iters>100:
+                        if filename:
+                            stall_airspeed_info = {"error":"unliftable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to find the stall airspeed")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From 043f067d7043721f1559b22381a953101b08421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 28/36] fix: propellers can be solved without an aero state as
 documented

---
 machup/propssolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 8182b28..4dcae6f 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -113,6 +113,8 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        if not aero_state:
+            aero_state = {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From 9a684b1d6790c3dc1134ffa69ce275f7c85bd281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 29/36] fix: blade sections keep their induced angle between
 zero and zero incidence

---
 machup/propmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 2dda318..495b4d6 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -454,8 +454,10 @@ class PropModel:
 
     def _bisect_unconverged_ei(self,ei):
         #sections for which the secant method has not found a solution (deep
-        #windmilling). There is always one between zero and beta-einf
+        #windmilling), or one beyond zero incidence that reverses the flow.
+        #There is always one between zero and beta-einf
         failed = ~(np.absolute(self._ei_function(ei))<1E-9)
+        failed |= np.absolute(ei)>np.absolute(self._beta-self._einf)
         if not np.any(failed):
             return ei
 
-- 
2.43.0


From d5993f59873f54e87813237ce4d375c5c5ac0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 30/36] fix: propellers aligned with the flow within rounding
 have a flow angle

---
 machup/propmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 495b4d6..9b242d2 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1558,5 +1558,5 @@ class PropModel:
         a,b,c = v1
         d,e,f = v2
         dot = a*d+b*e+c*f
-        mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        #well defined also if rounding makes the cosine exceed one
+        return m.atan2(np.linalg.norm(np.cross(v1,v2)),dot)
-- 
2.43.0


From d6bdaa0db462deb2b8c5e2ed8b51f82d171b9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 31/36] fix: stall airspeed is never a negative airspeed

---
 machup/MU.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index ee17f04..bdf3992 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -669,6 +669,13 @@ class MachUp:
                     #if solution has converged, return results
                     if abs(x2-x1)<error:
                         min_airspeed = x2
+                        if not min_airspeed>0.:
+                            #only flying backwards would produce this lift
+                            if filename:
+                                stall_airspeed_info = {"error":"unliftable"}
+                                break
+                            else:
+                                raise RuntimeError("Unable to find the stall airspeed")
                         stall_airspeed_info = stall_info1.copy()
                         stall_airspeed_info["airspeed"] = min_airspeed
                         break
-- 
2.43.0


From 90b600aa392ee09a04e4390512c8da424273dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:11 +0000
Subject: [PATCH 32/36] fix: distribution files carry the whole section names

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index bdf3992..2492080 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -282,7 +282,7 @@ class MachUp:
                               'Name','ControlPoint(x)','ControlPoint(y)','ControlPoint(z)','Chord','Twist(deg)','Dihedral(deg)','Sweep(deg)',
                               'Area','Alpha(deg)','Force(x)','Force(y)','Force(z)','SectionCL','SectionCm','SectionCDParasitic','SectionAlpha_L0',
                               'SectionCL_ref')
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('cpx', 'float'),
                               ('cpy', 'float'),
                               ('cpz', 'float'),
@@ -333,7 +333,7 @@ class MachUp:
                               'Name','RadialPosition','Chord','Pitch(deg)','AdvangeAngle(deg)','InducedAngle(deg)',
                               'Alpha(deg)','SectionCL','SectionCD','InducedVelocity,Vi','Vi(Axial)','Vi(Tangential)')
 
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('rps', 'float'),
                               ('crd', 'float'),
                               ('pit', 'float'),
-- 
2.43.0


From fc7653c14e86c5a7aa2d5a7ce6be94d6ef05801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:53 +0000
Subject: [PATCH 33/36] fix: blades are drawn with their chord line at the
 pitch that was specified

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 7503902..d573661 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -160,7 +160,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             Coords = np.zeros((num_nodes,n,3))
             Coords[:,:,0] = -Z_coords
             Coords[:,:,1] =  X_coords*rot_dir
-            twist = prop.get_aero_pitch_angle()-prop.get_zero_lift_alpha()
+            twist = prop.get_aero_pitch_angle()+prop.get_zero_lift_alpha() #pitch of the chord line
             e = Euler2Quat((0.,0.,-rot_dir*twist))
             e = np.transpose(e)
 
-- 
2.43.0


From 7f58f09640887cae037c3264264fe6ddcb851f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:44 +0000
Subject: [PATCH 34/36] fix: airfoil names that only begin like a four digit
 NACA section can be drawn

---
 machup/outputstl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index d573661..31d9491 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -45,12 +45,12 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
         
             left_NACA = '2412'
             if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
-                if len(left_name) == 8:
+                if len(left_name) == 8 and left_name[4:].isdigit():
                     left_NACA = left_name[4:]
                     
             right_NACA = '2412'
             if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
-                if len(right_name) == 8:
+                if len(right_name) == 8 and right_name[4:].isdigit():
                     right_NACA = right_name[4:]
 
             left_X,left_Z = plotNACA(left_NACA,n)
@@ -110,7 +110,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 name = af.get_name()
                 NACA = '2412'
                 if name[:4] == 'NACA' or name[:4] == 'naca':
-                    if len(name) == 8:
+                    if len(name) == 8 and name[4:].isdigit():
                         NACA = name[4:]
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
-- 
2.43.0


From 36b28395b0ac048a64df6be183f19e51ffdb5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 35/36] fix: thickness is laid off normal to the camber line
 aft of maximum camber

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 31d9491..9f44027 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -229,7 +229,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 5b714b27d90b196afd8faea79f1a6db6c74f1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 36/36] fix: a wing attached to an unknown wing is not added

---
 machup/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 37bf1dc..d590447 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -300,8 +300,6 @@ class Airplane:
         None
 
         """
-        self._wings[name] = Wing(name, side, dims)
-
         parent_name = connect_to[0]
         connect_at = connect_to[1]
 
@@ -310,9 +308,11 @@ class Airplane:
         else:
             parent = self
 
-        self._wings[name].connect_to(parent, connect_at)
+        wing = Wing(name, side, dims)
+        wing.connect_to(parent, connect_at)
+        self._wings[name] = wing
 
-        return self._wings[name]
+        return wing
     
     def add_prop(self, name, **dims):
         """Add prop to airplane.
-- 
2.43.0

