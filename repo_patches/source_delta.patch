From 311b86d3721907667e5a39772ce9c290010c94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:05 +0000
Subject: [PATCH 01/54] fix: pressure ratio derivative uses the column of the
 requested pr and the given outlet

---
 src/tespy/components/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index f72daae..90ec2f3 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -1081,13 +1081,13 @@ class Component:
         """
         pr = self.get_attr(pr)
         i = self.inl[inconn]
-        o = self.outl[inconn]
+        o = self.outl[outconn]
         if i.p.is_var:
             self.jacobian[k, i.p.J_col] = pr.val
         if o.p.is_var:
             self.jacobian[k, o.p.J_col] = -1
         if pr.is_var:
-            self.jacobian[k, self.pr.J_col] = i.p.val_SI
+            self.jacobian[k, pr.J_col] = i.p.val_SI
 
     def calc_zeta(self, i, o):
         if abs(i.m.val_SI) <= 1e-4:
-- 
2.43.0


From 784cb6daad14391304cd2a0ef446b6c4585734eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:21 +0000
Subject: [PATCH 02/54] fix: separator energy balance derivatives only for
 variable outlet states

---
 src/tespy/components/nodes/separator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/nodes/separator.py b/src/tespy/components/nodes/separator.py
index 17473fc..ff5ddf5 100644
--- a/src/tespy/components/nodes/separator.py
+++ b/src/tespy/components/nodes/separator.py
@@ -348,8 +348,10 @@ class Separator(NodeBase):
             # for fluid in i.fluid.is_var:
             #     self.jacobian[k, i.fluid.J_col[fluid]] = dT_dfluid_in[fluid]
             args = (o.p.val_SI, o.h.val_SI, o.fluid_data, o.mixing_rule)
-            self.jacobian[k, o.p.J_col] = -dT_mix_dph(*args)
-            self.jacobian[k, o.h.J_col] = -dT_mix_pdh(*args)
+            if self.is_variable(o.p):
+                self.jacobian[k, o.p.J_col] = -dT_mix_dph(*args)
+            if self.is_variable(o.h):
+                self.jacobian[k, o.h.J_col] = -dT_mix_pdh(*args)
             # for fluid in o.fluid.is_var:
             #     self.jacobian[k, o.fluid.J_col[fluid]] = -dT_mix_ph_dfluid(o)
             k += 1
-- 
2.43.0


From 91bc6e48ba3c0032524f680767c6466ff0fb096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 03/54] fix: presolving a Td_bp specification uses its SI value

---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 9e41375..115ff17 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -653,7 +653,7 @@ class Connection:
                 self.T._solved = True
             elif self.Td_bp.is_set:
                 T_sat = T_sat_p(self.p.val_SI, self.fluid_data)
-                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val, self.fluid_data)
+                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val_SI, self.fluid_data)
                 self.h._solved = True
                 self.Td_bp._solved = True
             elif self.x.is_set:
-- 
2.43.0


From ff6be2e0933cbb0acb061cc7e723228342069d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 04/54] fix: derivative of the fluid balance is constant

---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 115ff17..154eb6a 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -882,7 +882,7 @@ class Connection:
 
     def fluid_balance_deriv(self, k, **kwargs):
         for f in self.fluid.is_var:
-            self.jacobian[k, self.fluid.J_col[f]] = -self.fluid.val[f]
+            self.jacobian[k, self.fluid.J_col[f]] = -1
 
     def calc_s(self):
         try:
-- 
2.43.0


From 564288dc1ef9a53b4937833f34d29614a2fc7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 05/54] fix: volumetric flow derivatives use the mixing rule of
 the connection

---
 src/tespy/connections/connection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 154eb6a..927bef8 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -801,9 +801,9 @@ class Connection:
         if self.m.is_var:
             self.jacobian[k, self.m.J_col] = self.calc_vol(T0=self.T.val_SI)
         if self.p.is_var:
-            self.jacobian[k, self.p.J_col] = dv_mix_dph(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.p.J_col] = dv_mix_dph(self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, T0=self.T.val_SI) * self.m.val_SI
         if self.h.is_var:
-            self.jacobian[k, self.h.J_col] = dv_mix_pdh(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.h.J_col] = dv_mix_pdh(self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, T0=self.T.val_SI) * self.m.val_SI
 
     def v_ref_func(self, k, **kwargs):
         ref = self.v_ref.ref
@@ -823,12 +823,12 @@ class Connection:
             )
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
-                dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule, T0=ref.obj.T.val_SI)
                 * ref.obj.m.val_SI * ref.factor
             )
         if ref.obj.h.is_var:
             self.jacobian[k, ref.obj.h.J_col] = -(
-                dv_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule, T0=ref.obj.T.val_SI)
                 * ref.obj.m.val_SI * ref.factor
             )
 
-- 
2.43.0


From a4bd2ce10d3771b899044d0eeffa14dbd4288dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 06/54] fix: derivatives of referenced temperature and
 volumetric flow

---
 src/tespy/connections/connection.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 927bef8..6cebfbb 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -777,9 +777,13 @@ class Connection:
             ) * ref.factor
         for fluid in ref.obj.fluid.is_var:
             if not self._increment_filter[ref.obj.fluid.J_col[fluid]]:
-                self.jacobian[k, ref.obj.fluid.J_col[fluid]] = -dT_mix_ph_dfluid(
+                deriv = -dT_mix_ph_dfluid(
                     ref.obj.p.val_SI, ref.obj.h.val_SI, fluid, ref.obj.fluid_data, ref.obj.mixing_rule
-                )
+                ) * ref.factor
+                # both connections share the composition within a branch
+                if ref.obj.fluid is self.fluid:
+                    deriv += self.jacobian[k, self.fluid.J_col[fluid]]
+                self.jacobian[k, ref.obj.fluid.J_col[fluid]] = deriv
 
     def calc_viscosity(self, T0=None):
         try:
@@ -818,9 +822,11 @@ class Connection:
 
         ref = self.v_ref.ref
         if ref.obj.m.is_var:
-            self.jacobian[k, ref.obj.m.J_col] = -(
-                ref.obj.calc_vol(T0=ref.obj.T.val_SI) * ref.factor
-            )
+            deriv = -ref.obj.calc_vol(T0=ref.obj.T.val_SI) * ref.factor
+            # both connections share the mass flow within a branch
+            if ref.obj.m is self.m:
+                deriv += self.jacobian[k, self.m.J_col]
+            self.jacobian[k, ref.obj.m.J_col] = deriv
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
                 dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule, T0=ref.obj.T.val_SI)
-- 
2.43.0


From ad197c348a2781e8231b33626c5827133b4625e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 07/54] fix: specific volume derivatives do not pass a volume
 as starting temperature

---
 src/tespy/tools/fluid_properties/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/functions.py b/src/tespy/tools/fluid_properties/functions.py
index 0ef9d58..dfa0f92 100644
--- a/src/tespy/tools/fluid_properties/functions.py
+++ b/src/tespy/tools/fluid_properties/functions.py
@@ -233,14 +233,14 @@ def v_mix_ph(p, h, fluid_data, mixing_rule=None, T0=None):
 def dv_mix_dph(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p + d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
 def dv_mix_pdh(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p, h + d, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
-- 
2.43.0


From 6aeee452e275eeaa86c90528bf5c3ce4fad82b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:48 +0000
Subject: [PATCH 08/54] fix: species balance of rich combustion conserves
 carbon and hydrogen

---
 src/tespy/components/combustion/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index baf43a8..866c921 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -632,8 +632,8 @@ class CombustionChamber(Component):
         ###################################################################
         # calculate excess fuel if lambda is lower than 1
         if self.lamb.val < 1:
-            n_h_exc = (n_oxygen_stoich - n_oxygen) * 4
-            n_c_exc = (n_oxygen_stoich - n_oxygen)
+            n_h_exc = (1 - n_oxygen / n_oxygen_stoich) * n_h
+            n_c_exc = (1 - n_oxygen / n_oxygen_stoich) * n_c
         else:
             n_h_exc = 0
             n_c_exc = 0
-- 
2.43.0


From 2682d46cd10c07d790868ffc7dbe0706bfe9e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 09/54] fix: number of mass flow equations of the fuel cell
 counts its hydrogen inlet

---
 src/tespy/components/reactors/fuel_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/reactors/fuel_cell.py b/src/tespy/components/reactors/fuel_cell.py
index 403f39b..ab40e1d 100644
--- a/src/tespy/components/reactors/fuel_cell.py
+++ b/src/tespy/components/reactors/fuel_cell.py
@@ -185,7 +185,7 @@ class FuelCell(Component):
     def get_mandatory_constraints(self):
         num_mass_eq = (
             (self.inl[1].m.is_var or self.outl[1].m.is_var)
-            + (self.inl[1].m.is_var or self.outl[2].m.is_var)
+            + (self.inl[2].m.is_var or self.outl[1].m.is_var)
         )
         return {
             'mass_flow_constraints': {
-- 
2.43.0


From 0a6848d1fdd611b15a7aca88eb4c9e0b8e02f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 10/54] fix: Hazen-Williams residual distinguishes pressure
 drop from pressure rise

---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 18b6b24..4a8b59e 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -451,7 +451,7 @@ class SimpleHeatExchanger(Component):
         v_o = o.calc_vol(T0=o.T.val_SI)
 
         return (
-            math.copysign(i.p.val_SI - o.p.val_SI, i.m.val_SI)
+            (i.p.val_SI - o.p.val_SI) * math.copysign(1, i.m.val_SI)
             - (
                 10.67 * abs(i.m.val_SI) ** 1.852 * self.L.val /
                 (self.ks_HW.val ** 1.852 * self.D.val ** 4.871)
-- 
2.43.0


From bbd1ea9ab9e2362cdc18010a45b20aaa370cd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 11/54] fix: reported zeta of a reversed flow agrees with its
 specification

---
 src/tespy/components/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index 90ec2f3..c051137 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -1095,7 +1095,10 @@ class Component:
         else:
             return (
                 (i.p.val_SI - o.p.val_SI) * math.pi ** 2
-                / (4 * i.m.val_SI ** 2 * (i.vol.val_SI + o.vol.val_SI))
+                / (
+                    4 * abs(i.m.val_SI) * i.m.val_SI
+                    * (i.vol.val_SI + o.vol.val_SI)
+                )
             )
 
     def zeta_func(self, zeta='', inconn=0, outconn=0):
-- 
2.43.0


From 7bb4eb9901023f054b14f9c58ee2b45e6900a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:31 +0000
Subject: [PATCH 12/54] fix: results of a heat exchanger crossing the ambient
 temperature can be calculated

---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 4a8b59e..287331e 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -897,7 +897,7 @@ class SimpleHeatExchanger(Component):
 
             if (ttd_1 / ttd_2) < 0:
                 td_log = np.nan
-            if ttd_1 > ttd_2:
+            elif ttd_1 > ttd_2:
                 td_log = (ttd_1 - ttd_2) / math.log(ttd_1 / ttd_2)
             elif ttd_1 < ttd_2:
                 td_log = (ttd_2 - ttd_1) / math.log(ttd_2 / ttd_1)
-- 
2.43.0


From 8f5973603c92104b055764df9b29f7323d2613be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:10 +0000
Subject: [PATCH 13/54] fix: minimum terminal temperature difference of a
 condenser refers to the saturation temperature

---
 .../components/heat_exchangers/condenser.py   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/tespy/components/heat_exchangers/condenser.py b/src/tespy/components/heat_exchangers/condenser.py
index e417621..4c7bda6 100644
--- a/src/tespy/components/heat_exchangers/condenser.py
+++ b/src/tespy/components/heat_exchangers/condenser.py
@@ -468,6 +468,25 @@ class Condenser(HeatExchanger):
             r' + T_\mathrm{out,2}')
         return generate_latex_eq(self, latex, label)
 
+    def ttd_min_func(self):
+        r"""
+        Equation for minimum terminal temperature difference.
+
+        Returns
+        -------
+        residual : float
+            Residual value of equation.
+
+            .. math::
+
+                ttd_{l} = T_{out,1} - T_{in,2}\\
+                ttd_{u} = T_{sat} \left(p_{in,1}\right) - T_{out,2}\\
+                0 = ttd_{min} - \text{min}\left(ttd_{u}, ttd_{l}\right)
+        """
+        ttd_l = self.outl[0].calc_T() - self.inl[1].calc_T()
+        ttd_u = self.inl[0].calc_T_sat() - self.outl[1].calc_T()
+        return self.ttd_min.val - min(ttd_l, ttd_u)
+
     def calc_parameters(self):
         r"""Postprocessing parameter calculation."""
         self.Q.val = self.inl[0].m.val_SI * (
-- 
2.43.0


From 5ece5fbff63e680d12dfeb3b55c77116f27a8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:26 +0000
Subject: [PATCH 14/54] fix: merge counts the species balances it sets up when
 some mass fractions are known

---
 src/tespy/components/nodes/merge.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tespy/components/nodes/merge.py b/src/tespy/components/nodes/merge.py
index 53f8b9b..29c3997 100644
--- a/src/tespy/components/nodes/merge.py
+++ b/src/tespy/components/nodes/merge.py
@@ -140,10 +140,9 @@ class Merge(NodeBase):
         variable_fluids = set(
             [fluid for c in self.inl + self.outl for fluid in c.fluid.is_var]
         )
-        num_fluid_eq = len(variable_fluids)
+        num_fluid_eq = len(self.outl[0].fluid.val)
 
-        if num_fluid_eq == 0:
-            num_fluid_eq = len(self.inl[0].fluid.val)
+        if len(variable_fluids) == 0:
             num_m_eq = 0
         else:
             num_m_eq = 1
-- 
2.43.0


From 3fb3a8d1685aba67d29529e77f4195a7725bf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:07 +0000
Subject: [PATCH 15/54] fix: bus derivatives of a previous calculation do not
 enter the next one

---
 src/tespy/networks/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c57adc9..270f05b 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2080,6 +2080,10 @@ class Network:
             # remap jacobian
             func.jacobian = {}
 
+        # columns of a previous calculation are not valid anymore
+        for bus in self.busses.values():
+            bus.jacobian = {}
+
         # total number of variables
         self.num_vars = (
             self.num_conn_vars + self.num_comp_vars
-- 
2.43.0


From 78849d51be8e9aaa48cdabd8f1d33f1b54cd1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:33 +0000
Subject: [PATCH 16/54] fix: starting values from an init_path do not change
 the units of a connection

---
 src/tespy/networks/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 270f05b..4925356 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1552,8 +1552,10 @@ class Network:
 
         for prop in ['m', 'p', 'h']:
             data = c.get_attr(prop)
-            data.val0 = float(conn[prop])
-            data.unit = conn[prop + '_unit']
+            val_SI = hlp.convert_to_SI(
+                prop, float(conn[prop]), conn[prop + '_unit']
+            )
+            data.val0 = hlp.convert_from_SI(prop, val_SI, data.unit)
 
         for fluid in c.fluid.is_var:
             c.fluid.val[fluid] = float(conn[fluid])
-- 
2.43.0


From bb53f914817f07bc111c113ae2b8ae2c52b361c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 17/54] fix: molar mass of the IAPWS wrapper is in kg/mol

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index fd1d727..a3421fd 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -332,7 +332,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         self._p_max = 100e6
         self._p_crit = iapws._iapws.Pc * 1e6
         self._T_crit = iapws._iapws.Tc
-        self._molar_mass = iapws._iapws.M
+        self._molar_mass = iapws._iapws.M / 1e3
 
     def _is_below_T_critical(self, T):
         return T < self._T_crit
-- 
2.43.0


From 755fd6a28484486976a093014e16c733f47da671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 18/54] fix: saturation pressure of the IAPWS wrapper at the
 given temperature

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index a3421fd..ae7854c 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -374,7 +374,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         if T > self._T_crit:
             T = self._T_crit * 0.99
 
-        return self.AS(T=T / 1e6, x=0).P * 1e6
+        return self.AS(T=T, x=0).P * 1e6
 
     def Q_ph(self, p, h):
         p = self._make_p_subcritical(p)
-- 
2.43.0


From c8a2937eeb6afb8069a48e12a6615b597122ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 19/54] fix: derivative of the bus characteristic residual
 scales with component value

---
 src/tespy/tools/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 4ea3a9b..16b4683 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -504,10 +504,10 @@ def bus_char_evaluation(component_value, char_func, reference_value, bus_value,
 def bus_char_derivative(component_value, char_func, reference_value, bus_value, **kwargs):
     """Calculate derivative for bus char evaluation."""
     d = 1e-3
-    return (1 - (
+    return 1 - component_value * (
         1 / char_func.evaluate((bus_value + d) / reference_value) -
         1 / char_func.evaluate((bus_value - d) / reference_value)
-    ) / (2 * d))
+    ) / (2 * d)
 
 
 def newton_with_kwargs(
-- 
2.43.0


From 7c12a70b46ddf45d838d12c1487437c4947a260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 20/54] fix: numeric derivative to a mass fraction at the
 bounds 0 and 1

---
 src/tespy/tools/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 16b4683..335bd28 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -428,6 +428,7 @@ def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
         else:
             conn.fluid.val[dx] = 1
 
+        upper = conn.fluid.val[dx]
         conn.build_fluid_data()
         exp = func(**kwargs)
 
@@ -436,13 +437,14 @@ def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
         else:
             conn.fluid.val[dx] = 0
 
+        lower = conn.fluid.val[dx]
         conn.build_fluid_data()
         exp -= func(**kwargs)
 
         conn.fluid.val[dx] = val
         conn.build_fluid_data()
 
-        deriv = exp / (2 * d)
+        deriv = exp / (upper - lower)
 
     elif dx in ['m', 'p', 'h']:
 
-- 
2.43.0


From e3c1ddbd319e090e5fd71a6a3808e7b5f33b0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:00 +0000
Subject: [PATCH 21/54] fix: specific volume of condensing mixtures adds phase
 volumes

---
 src/tespy/tools/fluid_properties/mixtures.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 50eb7cf..69078b0 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -153,16 +153,16 @@ def v_mix_pT_ideal_cond(p=None, T=None, fluid_data=None, **kwargs):
         mass_fractions_gas, molar_fraction_gas, mass_liquid, molar_liquid = cond_check(p, T, fluid_data, water_alias)
         if mass_liquid == 0:
             return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
-        d = 0
+        d_gas = 0
         for fluid, data in fluid_data.items():
             if _is_larger_than_precision(data["mass_fraction"]):
                 if fluid == water_alias:
-                    d += fluid_data[water_alias]["wrapper"].d_QT(0, T) * mass_liquid
-                    d += fluid_data[water_alias]["wrapper"].d_QT(1, T) * (1 - mass_liquid)
+                    d_liquid = data["wrapper"].d_QT(0, T)
+                    d_gas += data["wrapper"].d_QT(1, T)
                 else:
                     pp = p * molar_fraction_gas[fluid]
-                    d += data["wrapper"].d_pT(pp, T) * (1 - mass_liquid)
-        return 1 / d
+                    d_gas += data["wrapper"].d_pT(pp, T)
+        return mass_liquid / d_liquid + (1 - mass_liquid) / d_gas
     else:
         return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
 
-- 
2.43.0


From df5a1a30939e02a068533ee766301c9241e6a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 22/54] fix: components without bus function can be part of a
 bus with fixed value

---
 src/tespy/components/component.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index c051137..e59c1ba 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -617,6 +617,19 @@ class Component:
         """
         return 0
 
+    def bus_deriv(self, bus):
+        r"""
+        Base method for partial derivatives of the bus function.
+
+        The base bus function is constant, no partial derivatives are added.
+
+        Parameters
+        ----------
+        bus : tespy.connections.bus.Bus
+            TESPy bus object.
+        """
+        return
+
     def calc_bus_expr(self, bus):
         r"""
         Return the busses' characteristic line input expression.
-- 
2.43.0


From f123706e407950aed6af2a17b15e6445d0061a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 23/54] fix: WaterElectrolyzer heat bus derivative to the inlet
 enthalpy

---
 src/tespy/components/reactors/water_electrolyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index d1299a0..8f17301 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1012,10 +1012,10 @@ class WaterElectrolyzer(Component):
                     bus.jacobian[i.m.J_col] = 0
                 bus.jacobian[i.m.J_col] -= self.numeric_deriv(f, 'm', i, bus=bus)
 
-            if o.h.is_var:
-                if o.h.J_col not in bus.jacobian:
-                    bus.jacobian[o.h.J_col] = 0
-                bus.jacobian[o.h.J_col] -= self.numeric_deriv(f, 'h', o, bus=bus)
+            if i.h.is_var:
+                if i.h.J_col not in bus.jacobian:
+                    bus.jacobian[i.h.J_col] = 0
+                bus.jacobian[i.h.J_col] -= self.numeric_deriv(f, 'h', i, bus=bus)
 
             if o.h.is_var:
                 if o.h.J_col not in bus.jacobian:
-- 
2.43.0


From 26c2b6d3f08c098dbc60eb522f55580153fa0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 24/54] fix: fuel exergy of simple heat exchangers cooled below
 ambient temperature

---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 287331e..d7179d0 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -1073,7 +1073,7 @@ class SimpleHeatExchanger(Component):
                 }
             elif self.inl[0].T.val_SI <= T0 and self.outl[0].T.val_SI <= T0:
                 self.E_P = self.outl[0].Ex_therm - self.inl[0].Ex_therm
-                self.E_F = self.outl[0].Ex_therm - self.outl[0].Ex_therm + (
+                self.E_F = self.outl[0].Ex_therm - self.inl[0].Ex_therm + (
                     self.inl[0].Ex_mech - self.outl[0].Ex_mech)
                 self.E_bus = {
                     "chemical": 0, "physical": 0, "massless": self.E_P
-- 
2.43.0


From 98fb6d92db578f31c909bca8ee1e5ad3d367555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 25/54] fix: exergy of combustion chambers on a bus is given
 per exergy kind

---
 src/tespy/components/combustion/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index 866c921..ad44cc2 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1401,4 +1401,6 @@ class CombustionChamber(Component):
 
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
-        self.E_bus = np.nan
+        self.E_bus = {
+            "chemical": np.nan, "physical": np.nan, "massless": np.nan
+        }
-- 
2.43.0


From 9a88ffc75bdac7ddbd98ee452caf09d06928de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 26/54] fix: product exergy of combustion engines used
 connections instead of their exergy

---
 src/tespy/components/combustion/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 238daa6..999add8 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -1486,7 +1486,9 @@ class CombustionEngine(CombustionChamber):
 
         self.E_P = (
             self.outl[2].Ex_physical - (self.inl[3].Ex_physical + self.inl[2].Ex_physical)
-            - self.P.val + (self.outl[1] - self.inl[1]) + (self.outl[0] - self.inl[0])
+            - self.P.val
+            + (self.outl[1].Ex_physical - self.inl[1].Ex_physical)
+            + (self.outl[0].Ex_physical - self.inl[0].Ex_physical)
         )
         self.E_F = (
             self.inl[3].Ex_chemical + self.inl[2].Ex_chemical
-- 
2.43.0


From cbfee3d01aa29763c4ad7071f3115da4932f5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 27/54] fix: product exergy of the water electrolyzer added the
 exergy of the cooling inlet

---
 src/tespy/components/reactors/water_electrolyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index 8f17301..9935b5e 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1172,7 +1172,7 @@ class WaterElectrolyzer(Component):
         self.E_P = (
             self.outl[1].Ex_chemical + self.outl[2].Ex_chemical
             - self.inl[1].Ex_chemical + self.outl[0].Ex_physical
-            + self.inl[0].Ex_physical
+            - self.inl[0].Ex_physical
         )
         self.E_F = self.P.val
 
-- 
2.43.0


From 50da263c07741314385820b31d16e2d8c5908ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 28/54] fix: exergy of water electrolyzers on a bus is given
 per exergy kind

---
 src/tespy/components/reactors/water_electrolyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index 9935b5e..6e1a337 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1178,4 +1178,4 @@ class WaterElectrolyzer(Component):
 
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
-        self.E_bus = self.P.val
+        self.E_bus = {"chemical": 0, "physical": 0, "massless": self.P.val}
-- 
2.43.0


From 44c9acbe571b4225cbdd639dfe2e782bfcb99247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:23 +0000
Subject: [PATCH 29/54] fix: turbine eta_s_char ignored the char_params of the
 characteristic

---
 src/tespy/components/turbomachinery/turbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/turbomachinery/turbine.py b/src/tespy/components/turbomachinery/turbine.py
index 941ef86..a91051f 100644
--- a/src/tespy/components/turbomachinery/turbine.py
+++ b/src/tespy/components/turbomachinery/turbine.py
@@ -360,7 +360,7 @@ class Turbine(Turbomachine):
                 \left(h_\mathrm{out,s}-h_\mathrm{in}\right)
         """
         p = self.eta_s_char.param
-        expr = self.get_char_expr(p)
+        expr = self.get_char_expr(p, **self.eta_s_char.char_params)
         if not expr:
             msg = (
                 "Please choose a valid parameter, you want to link the "
-- 
2.43.0


From d7cab76f2de42b7640e4fb99508e50c09f7b26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 30/54] fix: MovingBoundaryHeatExchanger and
 HeatExchangerSimple could not be loaded from an export

---
 src/tespy/components/heat_exchangers/movingboundary.py | 2 ++
 src/tespy/components/heat_exchangers/simple.py         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tespy/components/heat_exchangers/movingboundary.py b/src/tespy/components/heat_exchangers/movingboundary.py
index a95d0db..ae8b1bd 100644
--- a/src/tespy/components/heat_exchangers/movingboundary.py
+++ b/src/tespy/components/heat_exchangers/movingboundary.py
@@ -14,6 +14,7 @@ import math
 
 import numpy as np
 
+from tespy.components.component import component_registry
 from tespy.components.heat_exchangers.base import HeatExchanger
 from tespy.tools.data_containers import ComponentProperties as dc_cp
 from tespy.tools.fluid_properties import T_mix_ph
@@ -23,6 +24,7 @@ from tespy.tools.global_vars import ERR
 from tespy.tools.logger import logger
 
 
+@component_registry
 class MovingBoundaryHeatExchanger(HeatExchanger):
     r"""
     Class for counter current heat exchanger with UA sections.
diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index d7179d0..d8b3d9b 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -1162,6 +1162,7 @@ class SimpleHeatExchanger(Component):
         }
 
 
+@component_registry
 class HeatExchangerSimple(SimpleHeatExchanger):
 
     def __init__(self, label, **kwargs):
-- 
2.43.0


From 0900b445d4b3484951321b04316a79686d010e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 31/54] fix: export dropped the specification of grouped
 characteristics

---
 src/tespy/tools/data_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tespy/tools/data_containers.py b/src/tespy/tools/data_containers.py
index fae107d..83cfd59 100644
--- a/src/tespy/tools/data_containers.py
+++ b/src/tespy/tools/data_containers.py
@@ -441,6 +441,9 @@ class GroupedComponentCharacteristics(DataContainer):
             'num_eq': 0, 'latex': None, 'func_params': {}
         }
 
+    def _serialize(self):
+        return {"is_set": self.is_set}
+
 
 class FluidProperties(DataContainer):
     """
-- 
2.43.0


From 35a9b838c167a287428a5a407d97f4f7ecff2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:08 +0000
Subject: [PATCH 32/54] fix: export of connections dropped local_offdesign

---
 src/tespy/connections/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 6cebfbb..aa92340 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -589,8 +589,8 @@ class Connection:
     def _serializable():
         return [
             "source_id", "target_id",
-            "design_path", "design", "offdesign", "local_design", "local_design",
-            "printout", "mixing_rule"
+            "design_path", "design", "offdesign", "local_design",
+            "local_offdesign", "printout", "mixing_rule"
         ]
 
     def _create_fluid_wrapper(self):
-- 
2.43.0


From 603a17710d77bbc42ce69d99835769a9fc4adf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:08 +0000
Subject: [PATCH 33/54] fix: fluid specification of loaded connections could
 not be changed

---
 src/tespy/networks/network_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index f75ee03..07303f2 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -369,6 +369,7 @@ def _construct_connections(data, comps):
         for f, engine in conn["fluid"]["engine"].items():
             conn["fluid"]["engine"][f] = wrapper_registry.items[engine]
 
+        conn["fluid"]["is_set"] = set(conn["fluid"]["is_set"])
         conns[label].fluid.set_attr(**conn["fluid"])
         conns[label]._create_fluid_wrapper()
 
-- 
2.43.0


From 6f8cc32bb64bbb6ebdeb5f6c4c83621e2040b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:08 +0000
Subject: [PATCH 34/54] fix: references that were unset became active after
 export and load

---
 src/tespy/networks/network_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index 07303f2..98a71d1 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -383,6 +383,7 @@ def _construct_connections(data, comps):
                     conn[arg]["delta"]
                 )
                 conns[label].set_attr(**{param: ref})
+                conns[label].get_attr(arg).set_attr(is_set=conn[arg]["is_set"])
 
     return conns
 
-- 
2.43.0


From 834f5625b208388b1e30b58210dd8f6cff8f91e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:08 +0000
Subject: [PATCH 35/54] fix: export of the network dropped vol_unit, Td_bp_unit
 and iterinfo

---
 src/tespy/networks/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 4925356..dad6130 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -161,6 +161,9 @@ class Network:
             "x_unit": self.x_unit,
             "v_unit": self.v_unit,
             "s_unit": self.s_unit,
+            "vol_unit": self.vol_unit,
+            "Td_bp_unit": self.Td_bp_unit,
+            "iterinfo": self.iterinfo,
         }
 
     def set_defaults(self):
-- 
2.43.0


From 979a97f158f94ca9cdd064fe67d4718f0c78aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 36/54] fix: local_offdesign connections did not use their
 design point values

---
 src/tespy/networks/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index dad6130..f4523c8 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1274,6 +1274,11 @@ class Network:
                 # write data to connections
                 self.init_conn_design_params(c, df)
 
+                # take nominal values from design point
+                for var in c.offdesign:
+                    param = c.get_attr(var)
+                    param.val_SI = param.design
+
             else:
                 # unset all design values
                 c.m.design = np.nan
-- 
2.43.0


From 7a6c55560d2004757ad0acb4ebe7732c5770bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 37/54] fix: local_offdesign of components with numeric labels
 raised a KeyError

---
 src/tespy/networks/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index f4523c8..7f67261 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1327,6 +1327,9 @@ class Network:
                         _local_design_paths[path] = pd.read_csv(
                             path, sep=';', decimal='.', index_col=0
                         )
+                        _local_design_paths[path].index = (
+                            _local_design_paths[path].index.astype(str)
+                        )
                     data = _local_design_paths[path].loc[cp.label]
                     # write data
                     self.init_comp_design_params(cp, data)
-- 
2.43.0


From 425064ccf00be9ac5a4cbbac08a967e86298aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:33 +0000
Subject: [PATCH 38/54] fix: connections could not be deleted before the first
 calculation

---
 src/tespy/networks/network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 7f67261..a61c628 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -563,9 +563,10 @@ class Network:
                 comp not in self.conns["target"].values
             ):
                 self.comps.drop(comp.label, inplace=True)
-                self.results[comp.__class__.__name__].drop(
-                    comp.label, inplace=True, errors="ignore"
-                )
+                if comp.__class__.__name__ in self.results:
+                    self.results[comp.__class__.__name__].drop(
+                        comp.label, inplace=True, errors="ignore"
+                    )
                 msg = f"Deleted component {comp.label} from network."
                 logger.debug(msg)
 
-- 
2.43.0


From 61c09109826acbcf374b212f7a050b0b6fc44f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:33 +0000
Subject: [PATCH 39/54] fix: a refused value of iterinfo was taken over by the
 network

---
 src/tespy/networks/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index a61c628..c40d89d 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -321,13 +321,15 @@ class Network:
                 ) for SI_value in SI_range]
             })
 
-        self.iterinfo = kwargs.get('iterinfo', self.iterinfo)
+        iterinfo = kwargs.get('iterinfo', self.iterinfo)
 
-        if not isinstance(self.iterinfo, bool):
+        if not isinstance(iterinfo, bool):
             msg = ('Network parameter iterinfo must be True or False!')
             logger.error(msg)
             raise TypeError(msg)
 
+        self.iterinfo = iterinfo
+
     def get_attr(self, key):
         r"""
         Get the value of a network attribute.
-- 
2.43.0


From bc8f5a9f68172bf07e144a17f86ddb96cecedbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:27 +0000
Subject: [PATCH 40/54] fix: vapour mass fraction, boiling point difference and
 phase of an earlier state were reported

---
 src/tespy/connections/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index aa92340..c1c744f 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -911,6 +911,10 @@ class Connection:
         number_fluids = get_number_of_fluids(self.fluid_data)
         _converged = True
         if number_fluids > 1:
+            # not available for mixtures
+            self.x.val_SI = np.nan
+            self.Td_bp.val_SI = np.nan
+            self.phase.val = np.nan
             h_from_T = h_mix_pT(self.p.val_SI, self.T.val_SI, self.fluid_data, self.mixing_rule)
             if abs(h_from_T - self.h.val_SI) > ERR ** .5 and abs((h_from_T - self.h.val_SI) / self.h.val_SI) > ERR ** .5:
                 self.T.val_SI = np.nan
@@ -951,7 +955,7 @@ class Connection:
                 if not self.Td_bp.is_set:
                     self.Td_bp.val_SI = self.calc_Td_bp()
             except ValueError:
-                self.x.val_SI = np.nan
+                self.Td_bp.val_SI = np.nan
 
         if _converged:
             self.vol.val_SI = self.calc_vol()
-- 
2.43.0


From aba7bf264a87b019e727fa6157c4513a25dbdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 41/54] fix: aborted calculations left the specifications of a
 branch on all of its connections

---
 src/tespy/networks/network.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c40d89d..53d28a2 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1978,18 +1978,24 @@ class Network:
         )
         logger.debug(msg)
 
-        self.initialise()
+        try:
+            self.initialise()
 
-        if init_only:
-            self.reset_topology_reduction_specifications()
-            return
+            if init_only:
+                self.reset_topology_reduction_specifications()
+                return
 
-        msg = 'Starting solver.'
-        logger.info(msg)
+            msg = 'Starting solver.'
+            logger.info(msg)
 
-        self.solve_determination()
+            self.solve_determination()
 
-        self.solve_loop(print_results=print_results)
+            self.solve_loop(print_results=print_results)
+        except BaseException:
+            # an aborted calculation must not leave connections of a branch
+            # with the specifications of another connection
+            self.reset_topology_reduction_specifications()
+            raise
 
         if not prepare_fast_lane:
             self.reset_topology_reduction_specifications()
-- 
2.43.0


From 1d1e4d1a6e67d8528915b28aeb7495b05bd8b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 42/54] fix: design mass flow was lost when the mass flow
 specification moved within a branch

---
 src/tespy/networks/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 53d28a2..a80369c 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1134,9 +1134,11 @@ class Network:
             if hasattr(c, "_m_tmp"):
                 value = c.m.val_SI
                 unit = c.m.unit
+                design = c.m.design
                 c.m = c._m_tmp
                 c.m.val_SI = value
                 c.m.unit = unit
+                c.m.design = design
                 del c._m_tmp
             if hasattr(c, "_fluid_tmp"):
                 val = c.fluid.val
-- 
2.43.0


From b8fc007722e6ecf0693cb99550fd7dadcbbb16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 43/54] fix: connections of a branch shared one fluid
 composition after a calculation

---
 src/tespy/networks/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index a80369c..6025d6c 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1141,7 +1141,7 @@ class Network:
                 c.m.design = design
                 del c._m_tmp
             if hasattr(c, "_fluid_tmp"):
-                val = c.fluid.val
+                val = c.fluid.val.copy()
                 c.fluid = c._fluid_tmp
                 c.fluid.val = val
                 del c._fluid_tmp
-- 
2.43.0


From 20a65169153025e78157bf159018daa3743916a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 44/54] fix: fluids of a source were missing in connected
 branches depending on the order of connections

---
 src/tespy/networks/network.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 6025d6c..6fa5b6c 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -749,25 +749,22 @@ class Network:
         for start in start_components:
             self.fluid_wrapper_branches.update(start.start_fluid_wrapper_branch())
 
-        merged = self.fluid_wrapper_branches.copy()
+        merged = {}
         for branch_name, branch_data in self.fluid_wrapper_branches.items():
-            if branch_name not in merged:
-                continue
-            for ob_name, ob_data in self.fluid_wrapper_branches.items():
-                if ob_name != branch_name:
-                    common_connections = list(
-                        set(branch_data["connections"])
-                        & set(ob_data["connections"])
+            for ob_name, ob_data in list(merged.items()):
+                common_connections = list(
+                    set(branch_data["connections"])
+                    & set(ob_data["connections"])
+                )
+                if len(common_connections) > 0:
+                    branch_data["connections"] = list(
+                        set(branch_data["connections"] + ob_data["connections"])
                     )
-                    if len(common_connections) > 0 and ob_name in merged:
-                        merged[branch_name]["connections"] = list(
-                            set(branch_data["connections"] + ob_data["connections"])
-                        )
-                        merged[branch_name]["components"] = list(
-                            set(branch_data["components"] + ob_data["components"])
-                        )
-                        del merged[ob_name]
-                        break
+                    branch_data["components"] = list(
+                        set(branch_data["components"] + ob_data["components"])
+                    )
+                    del merged[ob_name]
+            merged[branch_name] = branch_data
 
         self.fluid_wrapper_branches = merged
 
-- 
2.43.0


From 0e8c177b82a2b83238891b2ca34855ea9c902f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:25 +0000
Subject: [PATCH 45/54] fix: flue gas of an engine lacked the fluids of a
 stream that is both coolant and combustion air

---
 src/tespy/components/combustion/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 999add8..089bb2c 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -335,10 +335,10 @@ class CombustionEngine(CombustionChamber):
         inl, outl = self._get_combustion_connections()
         inconn = branch["connections"][-1]
         if inconn in inl:
-            if self in branch["components"]:
+            outconn = self.outl[2]
+            if outconn in branch["connections"]:
                 return
 
-            outconn = self.outl[2]
         else:
             conn_idx = self.inl.index(inconn)
             outconn = self.outl[conn_idx]
-- 
2.43.0


From decb9c6d322a6824e12d176c5938a8dca75f08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:22 +0000
Subject: [PATCH 46/54] fix: changes of the fluid property engine or back end
 after a calculation were ignored

---
 src/tespy/connections/connection.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index c1c744f..3557409 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -271,6 +271,8 @@ class Connection:
         self.property_data0 = [x + '0' for x in self.property_data.keys()]
         self.__dict__.update(self.property_data)
         self.mixing_rule = None
+        # engine and back end the fluid property wrappers were created with
+        self._wrapper_origin = {}
         msg = (
             f"Created connection from {self.source.label} ({self.source_id}) "
             f"to {self.target.label} ({self.target_id})."
@@ -595,8 +597,6 @@ class Connection:
 
     def _create_fluid_wrapper(self):
         for fluid in self.fluid.val:
-            if fluid in self.fluid.wrapper:
-                continue
             if fluid not in self.fluid.engine:
                 self.fluid.engine[fluid] = CoolPropWrapper
 
@@ -606,7 +606,15 @@ class Connection:
             else:
                 self.fluid.back_end[fluid] = None
 
-            self.fluid.wrapper[fluid] = self.fluid.engine[fluid](fluid, back_end)
+            engine = self.fluid.engine[fluid]
+            if (
+                    fluid in self.fluid.wrapper
+                    and self._wrapper_origin.get(fluid) == (engine, back_end)
+                ):
+                continue
+
+            self.fluid.wrapper[fluid] = engine(fluid, back_end)
+            self._wrapper_origin[fluid] = (engine, back_end)
 
     def preprocess(self):
         self.num_eq = 0
-- 
2.43.0


From dbf9f605db6b40b64b06bae5217026f2e837acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:16 +0000
Subject: [PATCH 47/54] fix: a calculation without convergence replaced
 specified values by its results

---
 src/tespy/networks/network.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 6fa5b6c..3e46fb4 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2483,13 +2483,33 @@ class Network:
 
     def postprocessing(self):
         r"""Calculate connection, bus and component parameters."""
+        specified = self._get_specified_values()
+
         self.process_connections()
         self.process_components()
         self.process_busses()
 
+        if not self.converged:
+            # results without convergence must not replace the specifications
+            for container, value in specified:
+                container.val = value
+
         msg = 'Postprocessing complete.'
         logger.info(msg)
 
+    def _get_specified_values(self):
+        """Get the containers and values of all specified parameters."""
+        containers = [
+            c.get_attr(key) for c in self.conns['object'] for key in fpd
+        ]
+        containers += [
+            data for cp in self.comps['object']
+            for data in cp.parameters.values()
+            if isinstance(data, dc_cp) and not data.is_var
+        ]
+        containers += [b.P for b in self.busses.values()]
+        return [(data, data.val) for data in containers if data.is_set]
+
     def process_connections(self):
         """Process the Connection results."""
         for c in self.conns['object']:
-- 
2.43.0


From 12af2504e9f91d21192f1806c0621fbb5361b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:39 +0000
Subject: [PATCH 48/54] fix: derivatives of species balances and thermal input
 ignored streams sharing one composition variable

---
 src/tespy/components/combustion/base.py | 9 +++++++--
 src/tespy/components/nodes/merge.py     | 9 +++++++--
 src/tespy/components/nodes/separator.py | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index ad44cc2..e32e0ac 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1075,7 +1075,10 @@ class CombustionChamber(Component):
                     deriv -= i.fluid.val[f] * self.fuels[f]['LHV']
                 self.jacobian[k, i.m.J_col] = deriv
             for f in (self.fuel_list & i.fluid.is_var):
-                self.jacobian[k, i.fluid.J_col[f]] = -i.m.val_SI * self.fuels[f]['LHV']
+                # streams of one composition share the variable
+                self.jacobian[k, i.fluid.J_col[f]] = -sum(
+                    c.m.val_SI for c in inl if c.fluid is i.fluid
+                ) * self.fuels[f]['LHV']
 
         o = outl[0]
         if o.m.is_var:
@@ -1084,7 +1087,9 @@ class CombustionChamber(Component):
                 deriv += o.fluid.val[f] * self.fuels[f]['LHV']
             self.jacobian[k, o.m.J_col] = deriv
         for f in (self.fuel_list & o.fluid.is_var):
-            self.jacobian[k, o.fluid.J_col[f]] = o.m.val_SI * self.fuels[f]['LHV']
+            self.jacobian[k, o.fluid.J_col[f]] = (
+                o.m.val_SI - sum(c.m.val_SI for c in inl if c.fluid is o.fluid)
+            ) * self.fuels[f]['LHV']
 
     def calc_ti(self):
         r"""
diff --git a/src/tespy/components/nodes/merge.py b/src/tespy/components/nodes/merge.py
index 29c3997..114c8bd 100644
--- a/src/tespy/components/nodes/merge.py
+++ b/src/tespy/components/nodes/merge.py
@@ -247,11 +247,16 @@ class Merge(NodeBase):
                 if i.m.is_var:
                     self.jacobian[k, i.m.J_col] = i.fluid.val[fluid]
                 if fluid in i.fluid.is_var:
-                    self.jacobian[k, i.fluid.J_col[fluid]] = i.m.val_SI
+                    # streams of one composition share the variable
+                    self.jacobian[k, i.fluid.J_col[fluid]] = sum(
+                        c.m.val_SI for c in self.inl if c.fluid is i.fluid
+                    )
             if o.m.is_var:
                 self.jacobian[k, o.m.J_col] = -x
             if fluid in o.fluid.is_var:
-                self.jacobian[k, o.fluid.J_col[fluid]] = -o.m.val_SI
+                self.jacobian[k, o.fluid.J_col[fluid]] = -o.m.val_SI + sum(
+                    c.m.val_SI for c in self.inl if c.fluid is o.fluid
+                )
             k += 1
 
     def energy_balance_func(self):
diff --git a/src/tespy/components/nodes/separator.py b/src/tespy/components/nodes/separator.py
index ff5ddf5..e35872c 100644
--- a/src/tespy/components/nodes/separator.py
+++ b/src/tespy/components/nodes/separator.py
@@ -273,12 +273,17 @@ class Separator(NodeBase):
                 if self.is_variable(o.m):
                     self.jacobian[k, o.m.J_col] = -o.fluid.val[fluid]
                 if fluid in o.fluid.is_var:
-                    self.jacobian[k, o.fluid.J_col[fluid]] = -o.m.val_SI
+                    # streams of one composition share the variable
+                    self.jacobian[k, o.fluid.J_col[fluid]] = -sum(
+                        c.m.val_SI for c in self.outl if c.fluid is o.fluid
+                    )
 
             if self.is_variable(i.m):
                 self.jacobian[k, i.m.J_col] = i.fluid.val[fluid]
             if fluid in i.fluid.is_var:
-                self.jacobian[k, i.fluid.J_col[fluid]] = i.m.val_SI
+                self.jacobian[k, i.fluid.J_col[fluid]] = i.m.val_SI - sum(
+                    c.m.val_SI for c in self.outl if c.fluid is i.fluid
+                )
 
             k += 1
 
-- 
2.43.0


From aa6be61491867d6d695dc4b95b9ae8ee358fcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:39 +0000
Subject: [PATCH 49/54] fix: energy balance derivatives ignored connections
 sharing one mass flow or composition variable

---
 src/tespy/components/combustion/engine.py        | 16 +++++++++++++---
 src/tespy/components/heat_exchangers/base.py     |  6 +++++-
 src/tespy/components/reactors/fuel_cell.py       |  5 +++++
 .../components/reactors/water_electrolyzer.py    |  5 +++++
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 089bb2c..785ce33 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -463,7 +463,11 @@ class CombustionEngine(CombustionChamber):
         # mass flow cooling water
         for i, o in zip(self.inl[:2], self.outl[:2]):
             if i.m.is_var:
-                self.jacobian[k, i.m.J_col] = -(o.h.val_SI - i.h.val_SI)
+                # cooling lines in series share one variable
+                self.jacobian[k, i.m.J_col] = -sum(
+                    self.outl[n].h.val_SI - c.h.val_SI
+                    for n, c in enumerate(self.inl[:2]) if c.m is i.m
+                )
 
         # mass flow and pressure for combustion reaction
         inl, outl = self._get_combustion_connections()
@@ -485,11 +489,17 @@ class CombustionEngine(CombustionChamber):
         # fluid composition
         for c in inl:
             for fl in (self.fuel_list & c.fluid.is_var):
-                self.jacobian[k, c.fluid.J_col[fl]] = c.m.val_SI * self.fuels[fl]['LHV']
+                # streams of one composition share the variable
+                self.jacobian[k, c.fluid.J_col[fl]] = sum(
+                    i.m.val_SI for i in inl if i.fluid is c.fluid
+                ) * self.fuels[fl]['LHV']
 
         c = outl[0]
         for fl in (self.fuel_list & c.fluid.is_var):
-            self.jacobian[k, c.fluid.J_col[fl]] = -c.m.val_SI * self.fuels[fl]['LHV']
+            self.jacobian[k, c.fluid.J_col[fl]] = (
+                sum(i.m.val_SI for i in inl if i.fluid is c.fluid)
+                - c.m.val_SI
+            ) * self.fuels[fl]['LHV']
 
 
         # power and heat loss
diff --git a/src/tespy/components/heat_exchangers/base.py b/src/tespy/components/heat_exchangers/base.py
index 446e83d..6cfae42 100644
--- a/src/tespy/components/heat_exchangers/base.py
+++ b/src/tespy/components/heat_exchangers/base.py
@@ -377,7 +377,11 @@ class HeatExchanger(Component):
         for _c_num, i in enumerate(self.inl):
             o = self.outl[_c_num]
             if self.is_variable(i.m, increment_filter):
-                self.jacobian[k, i.m.J_col] = o.h.val_SI - i.h.val_SI
+                # both sides share one variable if they belong to one line
+                self.jacobian[k, i.m.J_col] = sum(
+                    self.outl[n].h.val_SI - c.h.val_SI
+                    for n, c in enumerate(self.inl) if c.m is i.m
+                )
             if self.is_variable(i.h, increment_filter):
                 self.jacobian[k, i.h.J_col] = -i.m.val_SI
             if self.is_variable(o.h, increment_filter):
diff --git a/src/tespy/components/reactors/fuel_cell.py b/src/tespy/components/reactors/fuel_cell.py
index ab40e1d..69fa25a 100644
--- a/src/tespy/components/reactors/fuel_cell.py
+++ b/src/tespy/components/reactors/fuel_cell.py
@@ -502,6 +502,11 @@ class FuelCell(Component):
         o = self.outl[1]
         if o.m.is_var:
             self.jacobian[k, o.m.J_col] = o.h.val_SI - h_refh2o
+            if o.m is self.inl[0].m:
+                # product water is used for cooling
+                self.jacobian[k, o.m.J_col] += (
+                    self.outl[0].h.val_SI - self.inl[0].h.val_SI
+                )
         if o.h.is_var:
             self.jacobian[k, o.h.J_col] = o.m.val_SI
 
diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index 6e1a337..c35a6b5 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -601,6 +601,11 @@ class WaterElectrolyzer(Component):
         i = self.inl[1]
         if i.m.is_var:
             self.jacobian[k, i.m.J_col] = i.h.val_SI - h_refh2o
+            if i.m is self.inl[0].m:
+                # feed water is used for cooling
+                self.jacobian[k, i.m.J_col] += (
+                    self.inl[0].h.val_SI - self.outl[0].h.val_SI
+                )
         if i.h.is_var:
             self.jacobian[k, i.h.J_col] = i.m.val_SI
 
-- 
2.43.0


From 96bb294743c1aeca2d95eb461f99c19a5f29a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 50/54] fix: derivatives of characteristics linked to the
 pressure ratio or another connection were incomplete

---
 src/tespy/components/piping/valve.py              |  7 +++++--
 .../components/reactors/water_electrolyzer.py     | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tespy/components/piping/valve.py b/src/tespy/components/piping/valve.py
index 2365d5f..88022e7 100644
--- a/src/tespy/components/piping/valve.py
+++ b/src/tespy/components/piping/valve.py
@@ -239,7 +239,7 @@ class Valve(Component):
         o = self.outl[0]
         if self.is_variable(i.m, increment_filter):
             self.jacobian[k, i.m.J_col] = self.numeric_deriv(f, 'm', i)
-        if self.dp_char.param == 'v':
+        if self.dp_char.param in ['v', 'pr']:
             if self.is_variable(i.p, increment_filter):
                 self.jacobian[k, i.p.J_col] = self.numeric_deriv(
                     self.dp_char_func, 'p', i
@@ -253,7 +253,10 @@ class Valve(Component):
                 self.jacobian[k, i.p.J_col] = 1
 
         if self.is_variable(o.p):
-            self.jacobian[k, o.p.J_col] = -1
+            if self.dp_char.param == 'pr':
+                self.jacobian[k, o.p.J_col] = self.numeric_deriv(f, 'p', o)
+            else:
+                self.jacobian[k, o.p.J_col] = -1
 
     def initialise_source(self, c, key):
         r"""
diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index c35a6b5..61fb7d2 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -697,11 +697,24 @@ class WaterElectrolyzer(Component):
         k : int
             Position of derivatives in Jacobian matrix (k-th equation).
         """
+        f = self.eta_char_func
         o = self.outl[2]
         if o.m.is_var:
-            f = self.eta_char_func
             self.jacobian[k, o.m.J_col] = self.numeric_deriv(f, 'm', o)
 
+        # characteristic linked to a parameter of other connections
+        if self.eta_char.param != 'm_out':
+            params = self.eta_char.char_params
+            for c in [
+                    self.inl[params.get('inconn', 0)],
+                    self.outl[params.get('outconn', 0)]
+                ]:
+                for var in ['m', 'p', 'h']:
+                    if c.get_attr(var).is_var:
+                        self.jacobian[k, c.get_attr(var).J_col] = (
+                            self.numeric_deriv(f, var, c)
+                        )
+
         if self.P.is_var:
             self.jacobian[k, self.P.J_col] = 1
 
-- 
2.43.0


From 1a8e2094ed5e1e0a4560cdddfad801a80045f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:21 +0000
Subject: [PATCH 51/54] fix: bus derivatives counted variables shared by
 several connections more than once

---
 src/tespy/components/combustion/base.py       |  8 ++++++-
 src/tespy/components/combustion/engine.py     | 21 ++++++++++++++++---
 .../components/reactors/water_electrolyzer.py |  6 +++++-
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index e32e0ac..4104322 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1181,13 +1181,19 @@ class CombustionChamber(Component):
             Matrix of partial derivatives.
         """
         f = self.calc_bus_value
+        # every variable is considered once, connections may share it
+        done = set()
         for c in self.inl + self.outl:
-            if c.m.is_var:
+            if c.m.is_var and c.m.J_col not in done:
+                done.add(c.m.J_col)
                 if c.m.J_col not in bus.jacobian:
                     bus.jacobian[c.m.J_col] = 0
                 bus.jacobian[c.m.J_col] -= self.numeric_deriv(f, 'm', c, bus=bus)
 
             for fluid in c.fluid.is_var:
+                if c.fluid.J_col[fluid] in done:
+                    continue
+                done.add(c.fluid.J_col[fluid])
                 if c.fluid.J_col[fluid] not in bus.jacobian:
                     bus.jacobian[c.fluid.J_col[fluid]] = 0
                 bus.jacobian[c.fluid.J_col[fluid]] -= self.numeric_deriv(f, fluid, c, bus=bus)
diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 785ce33..c93414b 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -1167,13 +1167,19 @@ class CombustionEngine(CombustionChamber):
         ######################################################################
         # derivatives for bus parameter of thermal input (TI)
         if b['param'] == 'TI':
+            # every variable is considered once, connections may share it
+            done = set()
             for c in inl + outl:
-                if c.m.is_var:
+                if c.m.is_var and c.m.J_col not in done:
+                    done.add(c.m.J_col)
                     if c.m.J_col not in bus.jacobian:
                         bus.jacobian[c.m.J_col] = 0
                     bus.jacobian[c.m.J_col] -= self.numeric_deriv(f, 'm', c, bus=bus)
 
                 for fluid in c.fluid.is_var:
+                    if c.fluid.J_col[fluid] in done:
+                        continue
+                    done.add(c.fluid.J_col[fluid])
                     if c.fluid.J_col[fluid] not in bus.jacobian:
                         bus.jacobian[c.fluid.J_col[fluid]] = 0
                     bus.jacobian[c.fluid.J_col[fluid]] -= self.numeric_deriv(f, fluid, c, bus=bus)
@@ -1182,13 +1188,19 @@ class CombustionEngine(CombustionChamber):
         # derivatives for bus parameter of power production (P) or
         # heat loss (Qloss)
         elif b['param'] == 'P' or b['param'] == 'Qloss':
+            # every variable is considered once, connections may share it
+            done = set()
             for c in inl + outl:
-                if c.m.is_var:
+                if c.m.is_var and c.m.J_col not in done:
+                    done.add(c.m.J_col)
                     if c.m.J_col not in bus.jacobian:
                         bus.jacobian[c.m.J_col] = 0
                     bus.jacobian[c.m.J_col] -= self.numeric_deriv(f, 'm', c, bus=bus)
 
                 for fluid in c.fluid.is_var:
+                    if c.fluid.J_col[fluid] in done:
+                        continue
+                    done.add(c.fluid.J_col[fluid])
                     if c.fluid.J_col[fluid] not in bus.jacobian:
                         bus.jacobian[c.fluid.J_col[fluid]] = 0
                     bus.jacobian[c.fluid.J_col[fluid]] -= self.numeric_deriv(f, fluid, c, bus=bus)
@@ -1202,8 +1214,11 @@ class CombustionEngine(CombustionChamber):
         ######################################################################
         # derivatives for bus parameter of total heat production (Q)
         elif b['param'] == 'Q':
+            # cooling lines in series share one mass flow variable
+            done = set()
             for i, o in zip(self.inl[:2], self.outl[:2]):
-                if i.m.is_var:
+                if i.m.is_var and i.m.J_col not in done:
+                    done.add(i.m.J_col)
                     if i.m.J_col not in bus.jacobian:
                         bus.jacobian[i.m.J_col] = 0
                     bus.jacobian[i.m.J_col] -= self.numeric_deriv(f, 'm', i, bus=bus)
diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index 61fb7d2..7d3127b 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1002,8 +1002,12 @@ class WaterElectrolyzer(Component):
         ######################################################################
         # derivatives for power on bus
         if b['param'] == 'P':
+            # every variable is considered once, connections may share it
+            done = set()
             for c in self.inl + self.outl:
-                if c.m.is_var and c != self.outl[0]:
+                if (c.m.is_var and c != self.outl[0]
+                        and c.m.J_col not in done):
+                    done.add(c.m.J_col)
                     if c.m.J_col not in bus.jacobian:
                         bus.jacobian[c.m.J_col] = 0
                     bus.jacobian[c.m.J_col] -= self.numeric_deriv(f, 'm', c, bus=bus)
-- 
2.43.0


From d2cc51d86bdae1334e2aedf6124a51d5ff4d73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:45 +0000
Subject: [PATCH 52/54] fix: exergy analysis failed if a component group
 supplies streams of different fluid categories to another one

---
 src/tespy/tools/analyses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/analyses.py b/src/tespy/tools/analyses.py
index 5a246c9..3145a55 100644
--- a/src/tespy/tools/analyses.py
+++ b/src/tespy/tools/analyses.py
@@ -663,7 +663,7 @@ class ExergyAnalysis:
         )
         for fkt_group, data in self.sankey_data.items():
             if group_label in data.index:
-                value += data.loc[idx[group_label, :], self.exergy_cats].values
+                value += data.loc[idx[group_label, :], self.exergy_cats].sum()
         return value
 
     def single_group_input(self, group_label, group_data):
-- 
2.43.0


From 683cec781c023cf958289960263ba3c9b540599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 53/54] fix: do not modify the characteristic map when applying
 the guide vane angle

Outside the range of the map evaluate_x and get_domain_errors_x return a view
of the map's own data, the in-place multiplication then changed the map with
every evaluation.
---
 src/tespy/components/turbomachinery/compressor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/components/turbomachinery/compressor.py b/src/tespy/components/turbomachinery/compressor.py
index 5bce0f5..380835d 100644
--- a/src/tespy/components/turbomachinery/compressor.py
+++ b/src/tespy/components/turbomachinery/compressor.py
@@ -381,8 +381,8 @@ class Compressor(Turbomachine):
 
         yarr, zarr = self.char_map_pr.char_func.evaluate_x(x)
         # value manipulation with igva
-        yarr *= (1 - self.igva.val / 100)
-        zarr *= (1 - self.igva.val / 100)
+        yarr = yarr * (1 - self.igva.val / 100)
+        zarr = zarr * (1 - self.igva.val / 100)
         pr = self.char_map_pr.char_func.evaluate_y(y, yarr, zarr)
 
         return (o.p.val_SI / i.p.val_SI) - pr * self.pr.design
@@ -484,8 +484,8 @@ class Compressor(Turbomachine):
 
         yarr, zarr = self.char_map_eta_s.char_func.evaluate_x(x)
         # value manipulation with igva
-        yarr *= (1 - self.igva.val / 100)
-        zarr *= (1 - self.igva.val ** 2 / 10000)
+        yarr = yarr * (1 - self.igva.val / 100)
+        zarr = zarr * (1 - self.igva.val ** 2 / 10000)
         eta = self.char_map_eta_s.char_func.evaluate_y(y, yarr, zarr)
 
         return (
@@ -674,7 +674,7 @@ class Compressor(Turbomachine):
                 y = (self.inl[0].m.val_SI * self.inl[0].p.design) / (
                     self.inl[0].m.design * self.inl[0].p.val_SI * x)
                 yarr = data.char_func.get_domain_errors_x(x, self.label)
-                yarr *= (1 - self.igva.val / 100)
+                yarr = yarr * (1 - self.igva.val / 100)
                 data.char_func.get_domain_errors_y(y, yarr, self.label)
 
     def exergy_balance(self, T0):
-- 
2.43.0


From 7d8c45faeff96366f6e9fa347fde71c722f47fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:27 +0000
Subject: [PATCH 54/54] fix: do not modify the fluid engine specification of
 the user

---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 3557409..9113bfa 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -489,7 +489,7 @@ class Connection:
             self.fluid.val0.update(value)
 
         elif key == "fluid_engines":
-            self.fluid.engine = value
+            self.fluid.engine = value.copy()
 
         elif key == "fluid_balance":
             self.fluid_balance.is_set = value
-- 
2.43.0

