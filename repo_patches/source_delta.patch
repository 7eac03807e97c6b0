From a25a98acfe893c98d172b77d616e27b863c65cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 01/25] fix: wrap() must take the remainder by a full turn

`x % 2.0 * np.pi` parses as `(x % 2.0) * np.pi`, so wrapped angles were wrong.
---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..42c1bf8 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0 * np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From 2613a5a1d699969a3859df85e71be3f14f19be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 02/25] fix: elements_safety() must not modify its argument

It clipped in place, which altered the user's initial elements and the recorded states.
---
 pyqlaw/_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_convergence.py b/pyqlaw/_convergence.py
index bb013c8..faa7aa7 100644
--- a/pyqlaw/_convergence.py
+++ b/pyqlaw/_convergence.py
@@ -58,7 +58,7 @@ def elements_safety(oe, oe_min, oe_max):
     Returns:
         (np.array): "cleaned" osculating elements
     """
-    oe_clean = oe
+    oe_clean = oe.copy()
     for idx in range(5):
         oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])
     return oe_clean
\ No newline at end of file
-- 
2.43.0


From c559a58b782f3eb694d9b7e64adf869281769a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 03/25] fix: solve() must reset the outcome of a previous run

A second solve() that ran out of time kept the exit code and convergence flag of the first.
---
 pyqlaw/_qlaw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..f904162 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -338,6 +338,10 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        # outcome of a previous run does not carry over
+        self.converge = False
+        self.exitcode = 0
+
         # initialize values for propagation
         t_iter = 0.0
         oe_iter = self.oe0
-- 
2.43.0


From 10e258fc1bf14115177c87d51d3fdd50777047b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 04/25] fix: Sundman steps with a negative angle must go
 backward in time

E1 is E0 plus the step, never wrapped, so M1 - M0 already has the sign of the step;
adding a revolution turned a backward step into almost a full forward period.
---
 pyqlaw/_qlaw.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f904162..43f90e4 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -394,10 +394,7 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From 9efaf29e12b75a888bd7281e2f598f5b41285ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 05/25] fix: true anomaly from equinoctial elements needs the
 quadrant of (f,g)

atan(g/f) is half a turn off for f < 0, which mirrors the in-plane control columns of the
semi-major axis, and divides by zero for f = 0.
---
 pyqlaw/_eom.py      | 2 +-
 pyqlaw/_symbolic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..101bd4d 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g, f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..270dac3 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g, f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From a4546ff61a70a778d83d438ce906234d2ba1c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 06/25] fix: J2 acceleration depends on (z/r)^2, not on z^2

The formula was only right at unit distance.
---
 pyqlaw/_perturbations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..33ac1aa 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -43,10 +43,11 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     r = np.linalg.norm(rECI)
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
+    z2_r2 = (rPA[2]/r)**2
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*z2_r2) * rPA[0],
+        (1 - 5*z2_r2) * rPA[1],
+        (3 - 5*z2_r2) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From 6f33d26c41b3c591bdf12d19114686645b987c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 07/25] fix: rkf45() stages, fourth weight and step suggestion

The stages already include the step, so multiplying by it again loses the order of the method;
the weight of k4 is 2197/4104; a vanishing error estimate divided by zero.
---
 pyqlaw/_integrate.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..2029d0b 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,12 +42,13 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    error = max(np.linalg.norm(z_next - y_next), 1e-16)     # may vanish exactly
+    h_next = h*0.84*(tol/error)**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From 0c82db87157e58a47039f802d46adb2ce1bbb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 08/25] fix: battery level must change over the step taken

With rkf45 it used the suggested next step instead.
---
 pyqlaw/_qlaw.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 43f90e4..7732031 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -517,6 +517,9 @@ class QLaw:
             else:
                 ptrb_RTN = np.zeros(3,)
 
+            # step actually taken, `t_step_local` may be changed by the integrator
+            t_step_taken = t_step_local
+
             # ODE parameters
             ode_params = (self.mu, u, psi[0], psi[1], psi[2], ptrb_RTN)  # control fixed in RTN for step
             if self.integrator == "rk4":
@@ -551,10 +554,10 @@ class QLaw:
             
             # update battery
             if duty:
-                battery_iter = np.clip(battery_iter-self.battery_charge_discharge_rate[1]*t_step_local,
+                battery_iter = np.clip(battery_iter-self.battery_charge_discharge_rate[1]*t_step_taken,
                                        self.battery_capacity[0], self.battery_capacity[1])
             else:
-                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,
+                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_taken,
                                        self.battery_capacity[0], self.battery_capacity[1])
                 if battery_iter == self.battery_capacity[1]:
                     charging = False        # turn OFF charging mode
-- 
2.43.0


From 2b76e6ef6be17edf98fb03d26122cd1be51053b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 09/25] fix: save_to_dict() must convert Keplerian states to
 MEE

It treated Keplerian elements as equinoctial ones.
---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 7732031..b4249d7 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -24,6 +24,7 @@ from ._elements import (
     mee_with_a2sv,
     get_orbit_coordinates, 
     mee_with_a2mee,
+    kep2mee,
     mee2mee_with_a,
     mee_with_a2kep,
     ta2ea,
@@ -735,12 +736,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        to_mee = kep2mee if self.elements_type == "keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From 8690ba39d5c316349b7b4ef747c0e28141192291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 10/25] fix: reject an invalid type of eta_r like one of eta_a

An integer was accepted and silently ignored.
---
 pyqlaw/_qlaw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index b4249d7..3518994 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -339,6 +339,9 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
+
         # outcome of a previous run does not carry over
         self.converge = False
         self.exitcode = 0
-- 
2.43.0


From 2a6360e3d1856f53c573203f12c647b1aa693b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 11/25] fix: effectivities and recorded angles of backward
 propagation

The negative acceleration made all rates of Q negative, which swapped the best and the worst
of a revolution, and the recorded angles pointed opposite to the applied acceleration.
Apply a positive acceleration in the opposite direction instead.
---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 3518994..7f675ac 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -428,7 +428,7 @@ class QLaw:
                 duty = False                # turn off
 
             # compute instantaneous acceleration magnitude due to thrust
-            accel_thrust = np.sign(t_step_local) * self.tmax/mass_iter
+            accel_thrust = self.tmax/mass_iter
 
             # initialize efficiency parameters for storage
             val_eta_a, val_eta_r = np.nan, np.nan
@@ -464,6 +464,8 @@ class QLaw:
                         self.exitcode = -3
                         break
                 else:
+                    if t_step_local < 0:    # backward in time, Q decreases when thrusting the other way
+                        alpha, beta = np.arctan2(-np.sin(alpha), -np.cos(alpha)), -beta
                     u = accel_thrust*np.array([
                         np.cos(beta)*np.sin(alpha),
                         np.cos(beta)*np.cos(alpha),
-- 
2.43.0


From 13697b043f4b086347363ac45a309704ed9ae1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 12/25] fix: mee2kep() must keep the periapsis direction of
 equatorial orbits

---
 pyqlaw/_elements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..96d7268 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -264,7 +264,10 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    if h == 0.0 and k == 0.0:
+        om = np.arctan2(g, f)       # equatorial: raan is 0, periapsis measured from x-axis
+    else:
+        om = np.arctan2(g*h-f*k, f*h+g*k)
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From b418048ae71d8f8c1f1009ae5345e5296c1ca98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 13/25] fix: argument of periapsis and inclination must not be
 nan due to round-off

The cosine may exceed one by round-off when periapsis is at a node or the orbit equatorial.
---
 pyqlaw/_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 96d7268..ec8df48 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -23,7 +23,7 @@ def get_inclination(state):
     # angular momentum
     h = np.cross(r,v)
     # inclination
-    inc = np.arccos(h[2] / la.norm(h))
+    inc = np.arccos( max(-1.0, min(1.0, h[2] / la.norm(h))) )
     return inc
 
 
@@ -97,7 +97,8 @@ def get_omega(state, mu):
 
     # compute argument of periapsis
     if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:
-        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )
+        cos_omega = np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc))
+        omega = np.arccos( max(-1.0, min(1.0, cos_omega)) )
         if ecc[2] < 0:
             omega = 2*np.pi - omega
     else:
-- 
2.43.0


From a3b33de27b4d30302769b0a18880988f47e0b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 14/25] fix: shorten steps to the battery level exactly when it
 is being drawn

Without full recharge the charging flag stays up after the engine is back on, so the battery was
overdrawn; and steps were shortened while the duty cycle had the engine off and the battery charging.
---
 pyqlaw/_qlaw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 7f675ac..50b3801 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -416,17 +416,16 @@ class QLaw:
                 duty = False                # turn off
                 t_last_OFF = t_iter         # latest time when we turn off
                 charging = True
-            
-            # overwrite time-step to time until we hit bottom of battery capacity
-            elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
-                t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
             if (self.require_full_recharge is True) and (charging is True) and\
                 (battery_iter < self.battery_capacity[1]):
                 duty = False                # turn off
 
+            # overwrite time-step to time until we hit bottom of battery capacity
+            if duty and (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]):
+                t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
+
             # compute instantaneous acceleration magnitude due to thrust
             accel_thrust = self.tmax/mass_iter
 
-- 
2.43.0


From 57362eceb62cb963bc9d5240e4b51142533a3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 15/25] fix: honour the duty cycle in backward propagation

Elapsed times were negative, so the engine was never turned off.
---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 50b3801..b2855dd 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -403,11 +403,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From a3cf7f2e013e45230adee6b9865dd2d48b79e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 16/25] fix: Keplerian scaling of the semi-major axis error
 uses its magnitude

As documented and as in the equinoctial formulation; it was undefined or below one for a < a_T
unless the exponent is an even integer.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 270dac3..7236318 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From 56110fd1c667f196bb03007f4fff5d59872b57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 17/25] fix: Keplerian angle errors must be differentiable
 where they vanish

The derivative of acos(cos(x)) is 0/0 at x = 0, so thrust angles were nan whenever the node or
periapsis coincides with its target.
---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 7236318..1c190af 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -51,8 +51,8 @@ def symbolic_qlaw_keplerian(cse = True):
         # -------- compute quotient Q -------- #
         doe = [
             a-aT, e-eT, i-iT, 
-            sym.acos(sym.cos(ra - raT)),
-            sym.acos(sym.cos(om - omT)),
+            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),
+            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),
             #sym.acos(sym.cos(ta - taT)),
         ]
 
-- 
2.43.0


From d3c63943bb4b7bd8b3829a74d4a52f59f23c6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 18/25] fix: out-of-plane thrust angle of a purely normal
 vector

It divided by zero.
---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0


From bf9fd41ec233bb69df197e713496d3e549ace761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 19/25] fix: SpicePerturbations without third bodies

third_bodies_names=None is handled by the constructor but failed at evaluation.
---
 pyqlaw/_perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 33ac1aa..c779757 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -132,7 +132,7 @@ class SpicePerturbations:
         self.obs_id = obs_id
         self.frame_qlaw = frame_qlaw
         self.frame_PA = frame_PA
-        self.third_bodies_names = third_bodies_names
+        self.third_bodies_names = third_bodies_names if third_bodies_names is not None else []
         self.J2 = J2
         self.Re = Re_km / LU
         self.k_srp = P_SRP_SI * Cr_SRP * Am_SI / (1e3 * LU/TU**2)
@@ -148,7 +148,7 @@ class SpicePerturbations:
         if (third_bodies_gms is None) and (third_bodies_names is not None):
             self.third_bodies_gms = [spice.bodvrd(ID, "GM", 1)[1][0]/MU_REF for ID in third_bodies_names]
         else:
-            self.third_bodies_gms = third_bodies_gms
+            self.third_bodies_gms = third_bodies_gms if third_bodies_gms is not None else []
         return
     
     def get_perturbations_RTN(self, t, oe, elements_type):
-- 
2.43.0


From f85db961427b079e4131470564fd41b4874db650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 20/25] fix: mee2kep() of equatorial orbits whose h is a
 negative zero

arctan2(0, -0.0) is pi, so the node returned is not always 0; periapsis is measured from it.
---
 pyqlaw/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index ec8df48..a186aec 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -266,7 +266,7 @@ def mee2kep(oe_mee):
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
     if h == 0.0 and k == 0.0:
-        om = np.arctan2(g, f)       # equatorial: raan is 0, periapsis measured from x-axis
+        om = np.arctan2(g, f) - raan    # equatorial: raan is arbitrary (0 or pi by the signs of zeros)
     else:
         om = np.arctan2(g*h-f*k, f*h+g*k)
     ta = l - raan - om
-- 
2.43.0


From afd329aaf84ebb9e08b93a16588a03f4e8459850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 21/25] fix: periapsis overlay of equinoctial element histories

---
 pyqlaw/_plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 42705b6..14ed785 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -73,7 +73,11 @@ def plot_elements_history(
 
     # overlay periapsis
     if plot_periapsis:
-        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - oes[1,:]))
+        if self.elements_type == "mee_with_a" and to_keplerian != True:
+            ecc = np.sqrt(oes[1,:]**2 + oes[2,:]**2)
+        else:
+            ecc = oes[1,:]
+        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - ecc))
 
     # plot mass or TA
     if plot_mass:
-- 
2.43.0


From c122227ff3f203a3a58673d9b4401b7e18f47cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 22/25] fix: solve() of a problem that starts with an empty
 battery

---
 pyqlaw/_qlaw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index b2855dd..33dd9e3 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -375,6 +375,9 @@ class QLaw:
         t_last_OFF = 0.0
         charging = False
 
+        # thrust angles recorded while the engine is unavailable from the start
+        alpha, beta = 0.0, 0.0
+
         # iterate until nmax
         idx = 0
         while abs(self.times[-1]) < abs(self.tf_max):  #for idx in tqdm(range(nmax), disable=self.disable_tqdm, desc="qlaw"):
-- 
2.43.0


From c80070a0c9b808f2c98c25bf976f1237361be7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 23/25] fix: Keplerian steering of nearly circular orbits was
 nan by cancellation

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 1c190af..a7f664e 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -60,7 +60,7 @@ def symbolic_qlaw_keplerian(cse = True):
         radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
-        ta_xx_term2 = (-(1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
+        ta_xx_term2 = 1/(3*ta_xx_term1)     # = (-(1-e**2)/(2*e**3) + cos_ta_xx_sqrt)**(1/3), which cancels for small e
         cos_ta_xx = ta_xx_term1 - ta_xx_term2 - 1/e
         r_xx = p / (1 + e*cos_ta_xx)
         omdot_i = f/(e*h)*sym.sqrt(
-- 
2.43.0


From 2ffe5212d88162fe1511abc623432ac34081b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 24/25] fix: set_problem() keeps its own copies of initial
 state and target

---
 pyqlaw/_qlaw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 33dd9e3..3261135 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -293,11 +293,11 @@ class QLaw:
         self.tf_max = tf_max
         self.t_step = t_step
         # spacecraft parameters
-        self.oe0   = oe0
+        self.oe0   = np.array(oe0, dtype=float)      # own copies, the caller may reuse its arrays
         if len(oeT) == 6:
-            self.oeT = oeT[0:5]
+            self.oeT = np.array(oeT[0:5], dtype=float)
         else:
-            self.oeT = oeT
+            self.oeT = np.array(oeT, dtype=float)
         self.mass0 = mass0
         self.tmax  = tmax
         self.mdot  = mdot
@@ -348,7 +348,7 @@ class QLaw:
 
         # initialize values for propagation
         t_iter = 0.0
-        oe_iter = self.oe0
+        oe_iter = np.array(self.oe0, dtype=float)
         mass_iter = self.mass0
         battery_iter = self.battery_initial
 
-- 
2.43.0


From 84fce0ca549cbe144077eef72ca3b0ef88a973db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 25/25] fix: exported times are a copy of the history

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 3261135..0dc4a43 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -747,7 +747,7 @@ class QLaw:
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
-            "times": self.times,
+            "times": list(self.times),
             "canonical_units": canonical_units,
             "states": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
-- 
2.43.0

