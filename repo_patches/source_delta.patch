From d41c2b593ec897721a6e7e4261d8aba80c9d91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 001/123] fix: remove spurious sin(theta) factor from spherical
 harmonics

---
 pyTMD/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 3967821..19b610f 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -280,7 +280,7 @@ def sph_harm(
     Plm = norm*legendre(l, np.cos(theta), m=m)
     # spherical harmonics of degree l and order m
     dfactor = np.sqrt((2.0*l + 1.0)/(4.0*np.pi))
-    Ylm = dfactor*Plm*np.sin(theta)*np.exp(1j*m*phi)
+    Ylm = dfactor*Plm*np.exp(1j*m*phi)
     # return values
     if singular_values:
         return Ylm[0]
-- 
2.43.0


From 2fec5d324f213462345278a07380e15f4223252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 002/123] fix: allow degree 0 in fully-normalized Legendre
 polynomials

---
 pyTMD/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 19b610f..51fc90d 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -223,8 +223,9 @@ def assoc_legendre(lmax, x):
     Plm = np.zeros((lmax+1,lmax+1,nx))
     # initial polynomials for the recursion
     Plm[0,0,:] = 1.0
-    Plm[1,0,:] = np.sqrt(3.0)*x
-    Plm[1,1,:] = np.sqrt(3.0)*u
+    if (lmax > 0):
+        Plm[1,0,:] = np.sqrt(3.0)*x
+        Plm[1,1,:] = np.sqrt(3.0)*u
     for l in range(2, lmax+1):
         # normalization factor
         norm = np.sqrt(2.0*l+1.0)
-- 
2.43.0


From 12934d14a3aa1eb898da0846a2a323482e9c77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 003/123] fix: correct Doodson coefficients of 2MNS4, NSK5,
 2MN6, 3MN8 and 4MSN8

---
 pyTMD/data/doodson.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/data/doodson.json b/pyTMD/data/doodson.json
index aca114f..5192ae1 100644
--- a/pyTMD/data/doodson.json
+++ b/pyTMD/data/doodson.json
@@ -267,7 +267,7 @@
     "4m2s4": [4.0, -4.0, 4.0, 0.0, 0.0, 0.0, 0.0],
     "2mnk4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "moq4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 2.0],
-    "2mns4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
+    "2mns4": [4.0, -3.0, 2.0, 1.0, 0.0, 0.0, 0.0],
     "2mnus4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
     "3mk4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "2om4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 2.0],
@@ -329,7 +329,7 @@
     "2ms5": [5.0, 1.0, -1.0, 0.0, 0.0, 0.0, 2.0],
     "2mk5": [5.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0],
     "nks5": [5.0, 2.0, -1.0, 1.0, 0.0, 0.0, 2.0],
-    "nsk5": [5.0, 2.0, -2.0, -1.0, 0.0, 0.0, 1.0],
+    "nsk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "msm5": [5.0, 2.0, -2.0, 0.0, 0.0, 0.0, 2.0],
     "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, -1.0],
     "3mq5": [5.0, 2.0, 0.0, -1.0, 0.0, 0.0, 1.0],
@@ -361,7 +361,7 @@
     "2mnls6": [6.0, -2.0, 2.0, 0.0, 0.0, 0.0, 2.0],
     "2nmks6": [6.0, -2.0, 2.0, 2.0, 0.0, 0.0, 0.0],
     "2msnk6": [6.0, -1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "2mn6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "2mn6": [6.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "2mnu6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "3mls6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "2mno6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
@@ -428,7 +428,7 @@
     "2mn8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "2(mn)8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "5ms8": [8.0, -2.0, 2.0, 0.0, 0.0, 0.0, 0.0],
-    "3mn8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "3mn8": [8.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "3mnu8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "4mls8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "ma8": [8.0, 0.0, -1.0, 0.0, 0.0, 0.0, 0.0],
@@ -443,7 +443,7 @@
     "2smn8": [8.0, 3.0, -4.0, 1.0, 0.0, 0.0, 0.0],
     "2msl8": [8.0, 3.0, -2.0, -1.0, 0.0, 0.0, 2.0],
     "msnk8": [8.0, 3.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "4msn8": [8.0, 3.0, 0.0, -1.0, 0.0, 0.0, 0.0],
+    "4msn8": [8.0, 3.0, -2.0, -1.0, 0.0, 0.0, 0.0],
     "2(ms)8": [8.0, 4.0, -4.0, 0.0, 0.0, 0.0, 0.0],
     "2msk8": [8.0, 4.0, -2.0, 0.0, 0.0, 0.0, 0.0],
     "2(mk)8": [8.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0],
-- 
2.43.0


From 20e99017cd7c3902d76e84d45d7c7c5317323e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 004/123] fix: convert perigee to radians in FES minor
 constituent nodal terms

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8897342..a2300c8 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -280,9 +280,9 @@ def minor_arguments(
         xi = np.arctan2(np.sin(xi), np.cos(xi))
         nu = at1 - at2
         I2 = np.tan(II/2.0)
-        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p - xi)) + 36.0*(I2**4))
-        P2 = np.sin(2.0*(p - xi))
-        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p - xi))
+        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p*dtr - xi)) + 36.0*(I2**4))
+        P2 = np.sin(2.0*(p*dtr - xi))
+        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p*dtr - xi))
         R = np.arctan(P2/Q2)
 
         # nodal factor corrections for minor constituents
-- 
2.43.0


From 7b58adbe8c4ae1a614c777587437e3279b7ad0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 005/123] fix: use cosine in nodal angle correction for minor
 constituent 2Q1

---
 pyTMD/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index a2300c8..cfde565 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -256,7 +256,7 @@ def minor_arguments(
     # nodal angle corrections for minor constituents
     u = np.zeros((nt, 20))
     u[:,0] = np.arctan2(0.189*sinn - 0.0058*sin2n,
-        1.0 + 0.189*cosn - 0.0058*sin2n)# 2Q1
+        1.0 + 0.189*cosn - 0.0058*cos2n)# 2Q1
     u[:,1] = u[:,0]# sigma1
     u[:,2] = u[:,0]# rho1
     u[:,3] = np.arctan2( 0.185*sinn, 1.0 + 0.185*cosn)# M12
-- 
2.43.0


From a19f3d090de539a97fcd791134f1ffd1e6fcb4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 006/123] fix: sign of nodal angle for sum compounds MSK6 and
 SNK6

---
 pyTMD/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index cfde565..70a9fc8 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1051,14 +1051,14 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]**3
             u[:,i] = utmp[:,0] + 3.0*utmp[:,1]
             continue
-        elif c in ('mk4','nk4','mks2'):
+        elif c in ('mk4','nk4','mks2','msk6','snk6'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('msk2','2smk4','msk6','snk6'):
+        elif c in ('msk2','2smk4'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 964c209fad1a0ca10716f597afce168b56a7fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 007/123] fix: nodal corrections for 2(MN)8, 2(MN)K9 and
 M2(KS)2 use the tabulated names

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 70a9fc8..97fd180 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -924,7 +924,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn):8','3msn10',
+        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn)8','3msn10',
                 '4ms10','2(mn)S10','4m2s12'):
             # compound tides calculated using recursion
             parents = ['m2']
@@ -1037,7 +1037,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('4mk9','3mnk9','2m2nk9','2(mn):k9','3nmk9','4msk11'):
+        elif c in ('4mk9','3mnk9','2m2nk9','2(mn)k9','3nmk9','4msk11'):
             # compound tides calculated using recursion
             parents = ['m2','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -1100,7 +1100,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('m2(ks):2',):
+        elif c in ('m2(ks)2',):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From e9fe9bd0dc7571a4466461f3839dc0f89d306800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 008/123] fix: phase multiples of 2OOK1, NK3, 2(KJ)4 and SNK5

---
 pyTMD/data/doodson.json | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/data/doodson.json b/pyTMD/data/doodson.json
index 5192ae1..9d3ac8b 100644
--- a/pyTMD/data/doodson.json
+++ b/pyTMD/data/doodson.json
@@ -94,7 +94,7 @@
     "kq1": [1.0, 4.0, 0.0, -1.0, 0.0, 0.0, 1.0],
     "2jo1": [1.0, 5.0, 0.0, -2.0, 0.0, 0.0, -1.0],
     "kjq1": [1.0, 5.0, 0.0, -2.0, 0.0, 0.0, -1.0],
-    "2ook1": [1.0, 5.0, 0.0, 0.0, 0.0, 0.0, -1.0],
+    "2ook1": [1.0, 5.0, 0.0, 0.0, 0.0, 0.0, 1.0],
     "2oop1": [1.0, 5.0, 2.0, 0.0, 0.0, 0.0, -1.0],
     "2jq1": [1.0, 6.0, 0.0, -3.0, 0.0, 0.0, -1.0],
     "2mn2s2": [2.0, -5.0, 4.0, 1.0, 0.0, 0.0, 0.0],
@@ -229,7 +229,7 @@
     "2mm3": [3.0, 0.0, 0.0, -1.0, 0.0, 0.0, -1.0],
     "m3": [3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "m3'": [3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.0],
-    "nk3": [3.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0],
+    "nk3": [3.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0],
     "mp3": [3.0, 1.0, -2.0, 0.0, 0.0, 0.0, -1.0],
     "so3": [3.0, 1.0, -2.0, 0.0, 0.0, 0.0, -1.0],
     "lambda3": [3.0, 1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
@@ -310,7 +310,7 @@
     "3ks4": [4.0, 4.0, -1.0, 0.0, 0.0, 0.0, -1.0],
     "k4": [4.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "3sm4": [4.0, 6.0, -6.0, 0.0, 0.0, 0.0, 0.0],
-    "2(kj)4": [4.0, 6.0, 0.0, -2.0, 0.0, 0.0, 2.0],
+    "2(kj)4": [4.0, 6.0, 0.0, -2.0, 0.0, 0.0, 0.0],
     "2no5": [5.0, -3.0, 0.0, 2.0, 0.0, 0.0, -1.0],
     "mno5": [5.0, -2.0, 0.0, 1.0, 0.0, 0.0, -1.0],
     "2mq5": [5.0, -2.0, 0.0, 1.0, 0.0, 0.0, -1.0],
@@ -331,7 +331,7 @@
     "nks5": [5.0, 2.0, -1.0, 1.0, 0.0, 0.0, 2.0],
     "nsk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "msm5": [5.0, 2.0, -2.0, 0.0, 0.0, 0.0, 2.0],
-    "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, -1.0],
+    "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "3mq5": [5.0, 2.0, 0.0, -1.0, 0.0, 0.0, 1.0],
     "msp5": [5.0, 3.0, -4.0, 0.0, 0.0, 0.0, -1.0],
     "msk5": [5.0, 3.0, -2.0, 0.0, 0.0, 0.0, 1.0],
-- 
2.43.0


From 48b9175b91f05833cfafe3b05cb82d0205419414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 009/123] fix: decode Doodson numbers with trailing zeros after
 the decimal point

---
 pyTMD/arguments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 97fd180..63e83c8 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1618,10 +1618,14 @@ def _from_doodson_number(DO: str | float | np.ndarray, **kwargs):
     coef: np.ndarray
         Doodson coefficients (Cartwright numbers) for constituent
     """
+    # verify the number of digits before and after the decimal point
+    # (leading and trailing zeros are dropped in floating point numbers)
+    integer, _, decimal = str(DO).partition('.')
+    digits = integer.zfill(3) + decimal.ljust(3, '0')
     # convert from Doodson number to Cartwright numbers
     # replace 10 with X and 11 with E (Doodson convention)
     coef = np.array([c.replace('X', '10').replace('E', '11')
-        for c in re.findall(r'\w', str(DO).zfill(7))], dtype=int)
+        for c in re.findall(r'\w', digits)], dtype=int)
     # remove 5 from values following Doodson convention
     coef[1:] -= 5
     return coef
-- 
2.43.0


From d4819a9a6129c5664671182446df8727d763763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 010/123] fix: refuse extended Doodson numbers for multipliers
 without a digit

---
 pyTMD/arguments.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 63e83c8..f21db5a 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1588,14 +1588,23 @@ def _to_extended_doodson(coef: list | np.ndarray, **kwargs):
     ----------
     coef: list or np.ndarray
         Doodson coefficients (Cartwright numbers) for constituent
+    raise_error: bool, default True
+        Raise exception if constituent is unsupported
 
     Returns
     -------
     XDO: string
         Extended Doodson number for constituent
     """
+    # default keyword arguments
+    kwargs.setdefault('raise_error', True)
     # assert length and verify array
     coef = np.array(coef).astype(int)
+    # check for unsupported constituents
+    if (np.any(coef < -8) or np.any(coef > 15)) and kwargs['raise_error']:
+        raise ValueError('Unsupported constituent')
+    elif (np.any(coef < -8) or np.any(coef > 15)):
+        return None
     # digits for UKHO Extended Doodson number
     # Z = 0
     # A - P = 1 to 15
-- 
2.43.0


From 8a42dda52f5054cc3713ce746e4c3987216300b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 011/123] fix: nodal corrections for O2 matched a substring of
 KO2

---
 pyTMD/arguments.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index f21db5a..af9abc5 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -772,7 +772,7 @@ def nodal(
             # Linear 3rd degree terms
             term1 = 0.1705*sinn - 0.0035*sin2n - 0.0176*sin2p
             term2 = 1.0 + 0.1705*cosn - 0.0035*cos2n - 0.0176*cos2p
-        elif c in ("l2'"):
+        elif c in ("l2'",):
             # Linear 3rd degree terms
             term1 = -0.2495*sinn
             term2 = 1.0 + 0.1315*cosn
@@ -802,6 +802,13 @@ def nodal(
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
+        elif c in ('o2',):
+            # compound tides calculated using recursion
+            parents = ['o1']
+            utmp, ftmp = nodal(n, p, parents, **kwargs)
+            f[:,i] = ftmp[:,0]**2
+            u[:,i] = 2.0*utmp[:,0]
+            continue
         elif c in ('o3',):
             # compound tides calculated using recursion
             parents = ['o1']
@@ -809,42 +816,42 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('2k2'):
+        elif c in ('2k2',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('tk1'):
+        elif c in ('tk1',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
-        elif c in ('2oop1'):
+        elif c in ('2oop1',):
             # compound tides calculated using recursion
             parents = ['oo1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('oq2'):
+        elif c in ('oq2',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('2oq1'):
+        elif c in ('2oq1',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2 * ftmp[:,1]
             u[:,i] = 2.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('ko2'):
+        elif c in ('ko2',):
             # compound tides calculated using recursion
             parents = ['o1','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -872,7 +879,7 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('kjq1'):
+        elif c in ('kjq1',):
             # compound tides calculated using recursion
             parents = ['k1','j1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 2274a692ec094b3bf35a6a91ba4b0662847f3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 012/123] fix: sign of the sin(l - M) term in the approximate
 lunar longitude

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..3d2b48f 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -563,7 +563,7 @@ def lunar_approximate(MJD, **kwargs):
         4586.0*np.sin(l - 2.0*D) + 2370.0*np.sin(2.0*D) -
         668.0*np.sin(M) - 412.0*np.sin(2.0*F) -
         212.0*np.sin(2.0*l - 2.0*D) - 206.0*np.sin(l + M - 2.0*D) +
-        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) -
+        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) +
         148.0*np.sin(l - M) - 125.0*np.sin(D) -
         110.0*np.sin(l + M) - 55.0*np.sin(2.0*F - 2.0*D)
     )
-- 
2.43.0


From c851ef741d75d5067dcab9cac9e2c114951c1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 013/123] fix: convert equation of the equinoxes from radians
 to turns in GAST

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 3d2b48f..0df9bcc 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -661,7 +661,7 @@ def gast(T: float | np.ndarray):
     # traditional equation of the equinoxes
     c = _eqeq_complement(T)
     eqeq = dpsi*np.cos(epsilon + deps) + c
-    return np.mod(ts.st + eqeq/24.0, 1.0)
+    return np.mod(ts.st + eqeq/ts.tau, 1.0)
 
 def itrs(T: float | np.ndarray):
     """
-- 
2.43.0


From 80dac61a6fb3498d2f8eaa189af03fa5ab43c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 014/123] fix: direction of the polar motion rotation matrix

---
 pyTMD/astro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 0df9bcc..5123ce7 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -883,9 +883,10 @@ def _polar_motion_matrix(T: float | np.ndarray):
     sprime = -4.7e-5*T
     px, py = timescale.eop.iers_polar_motion(MJD)
     # calculate the rotation matrices
-    M1 = rotate(py*atr,'x')
-    M2 = rotate(px*atr,'y')
-    M3 = rotate(-sprime*atr,'z')
+    # (from the terrestrial intermediate to the terrestrial reference system)
+    M1 = rotate(-py*atr,'x')
+    M2 = rotate(-px*atr,'y')
+    M3 = rotate(sprime*atr,'z')
     # calculate the combined rotation matrix
     return np.einsum('ij...,jk...,kl...->il...', M1, M2, M3)
 
-- 
2.43.0


From 34f32cbc46f2f1240b7389d544e0a12ee1924fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 015/123] fix: order of rotations in the celestial to
 terrestrial matrix

---
 pyTMD/astro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 5123ce7..d43dfe6 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -694,12 +694,13 @@ def itrs(T: float | np.ndarray):
     # M1: precession
     # M2: nutation
     # M3: frame bias
-    # M4: polar motion
-    M = np.einsum('ijt...,jkt...,kl...,lmt...->imt...', M1, M2, M3, M4)
+    M = np.einsum('ijt...,jkt...,kl...->ilt...', M2, M1, M3)
     # compute the Greenwich Apparent Sidereal Time
     # use UT1 time as input to gast function
     GAST = rotate(ts.tau*gast(T), 'z')
-    R = np.einsum('ijt...,jkt->ikt...', GAST, M)
+    # calculate the combined rotation matrix including
+    # M4: polar motion
+    R = np.einsum('ijt...,jkt...,klt...->ilt...', M4, GAST, M)
     # return the combined rotation matrix
     return R
 
-- 
2.43.0


From f339077f5ff81970ccd20061111220d7339703e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 016/123] fix: include planetary arguments in the nutation
 series

---
 pyTMD/astro.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index d43dfe6..15d01e3 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -808,24 +808,34 @@ def _nutation_angles(T: float | np.ndarray):
     # convert dynamical time to modified Julian days
     MJD = ts.tt - _jd_mjd
     # get the fundamental arguments in radians
-    l, lp, F, D, Om = delaunay_arguments(MJD)
-    # non-polynomial terms in the equation of the equinoxes
-    # parse IERS lunisolar longitude table
+    fa = np.zeros((14, len(ts)))
+    fa[:5,:] = delaunay_arguments(MJD)
+    # mean longitudes of the planets (Mercury to Neptune)
+    fa[5,:] = polynomial_sum(np.array([4.402608842, 2608.7903141574]), ts.T)
+    fa[6,:] = polynomial_sum(np.array([3.176146697, 1021.3285546211]), ts.T)
+    fa[7,:] = polynomial_sum(np.array([1.753470314, 628.3075849991]), ts.T)
+    fa[8,:] = polynomial_sum(np.array([6.203480913, 334.0612426700]), ts.T)
+    fa[9,:] = polynomial_sum(np.array([0.599546497, 52.9690962641]), ts.T)
+    fa[10,:] = polynomial_sum(np.array([0.874016757, 21.3299104960]), ts.T)
+    fa[11,:] = polynomial_sum(np.array([5.481293872, 7.4781598567]), ts.T)
+    fa[12,:] = polynomial_sum(np.array([5.311886287, 3.8133035638]), ts.T)
+    # general accumulated precession in longitude
+    fa[13,:] = polynomial_sum(np.array([0, 0.024381750, 0.00000538691]), ts.T)
+    # names of the multipliers for each fundamental argument
+    names = ['l','lp','F','D','Om','L_Me','L_Ve','L_E','L_Ma','L_J',
+        'L_Sa','L_U','L_Ne','p_A']
+    # parse IERS lunisolar and planetary longitude table
     l0, l1 = _parse_table_5_3a()
-    n0 = np.c_[l0['l'], l0['lp'], l0['F'], l0['D'], l0['Om']]
-    n1 = np.c_[l1['l'], l1['lp'], l1['F'], l1['D'], l1['Om']]
-    arg0 = np.dot(n0, np.c_[l, lp, F, D, Om].T)
-    arg1 = np.dot(n1, np.c_[l, lp, F, D, Om].T)
+    arg0 = np.dot(np.stack([l0[n] for n in names], axis=1), fa)
+    arg1 = np.dot(np.stack([l1[n] for n in names], axis=1), fa)
     dpsi = np.dot(l0['As'], np.sin(arg0)) + \
         np.dot(l0['Ac'], np.cos(arg0)) + \
         ts.T*np.dot(l1['As'], np.sin(arg1)) + \
         ts.T*np.dot(l1['Ac'], np.cos(arg1))
-    # parse IERS lunisolar obliquity table
+    # parse IERS lunisolar and planetary obliquity table
     o0, o1 = _parse_table_5_3b()
-    n0 = np.c_[o0['l'], o0['lp'], o0['F'], o0['D'], o0['Om']]
-    n1 = np.c_[o1['l'], o1['lp'], o1['F'], o1['D'], o1['Om']]
-    arg0 = np.dot(n0, np.c_[l, lp, F, D, Om].T)
-    arg1 = np.dot(n1, np.c_[l, lp, F, D, Om].T)
+    arg0 = np.dot(np.stack([o0[n] for n in names], axis=1), fa)
+    arg1 = np.dot(np.stack([o1[n] for n in names], axis=1), fa)
     deps = np.dot(o0['Bs'], np.sin(arg0)) + \
         np.dot(o0['Bc'], np.cos(arg0)) + \
         ts.T*np.dot(o1['Bs'], np.sin(arg1)) + \
-- 
2.43.0


From 41beb1b5158d6015719343a398661af5b9a4bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 017/123] fix: cubic coefficient of the IAU 2006 mean obliquity

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 15d01e3..992ce18 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -366,7 +366,7 @@ def mean_obliquity(MJD: np.ndarray):
     T = (MJD - _mjd_j2000)/_century
     # mean obliquity of the ecliptic (arcseconds)
     epsilon0 = np.array([84381.406, -46.836769, -1.831e-4,
-        2.00340e-4, -5.76e-07, -4.34e-08])
+        2.00340e-3, -5.76e-07, -4.34e-08])
     return atr*polynomial_sum(epsilon0, T)
 
 # PURPOSE: compute coordinates of the sun in an ECEF frame
-- 
2.43.0


From c19886b54afd0c7e904e987ca3818b841f8da9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 018/123] fix: predict constituents without a tabulated
 frequency from their argument

---
 pyTMD/predict.py         | 9 +++++++++
 pyTMD/solve/constants.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..209144c 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -152,6 +152,9 @@ def map(t: float | np.ndarray,
                 pyTMD.arguments._constituent_parameters(c)
             # add component for constituent to output tidal elevation
             th = omega*t*86400.0 + ph + pu[0,k]
+            # use equilibrium argument if frequency is not tabulated
+            if (omega == 0.0):
+                th = G[0,k]*np.pi/180.0 + pu[0,k]
         else:
             th = G[0,k]*np.pi/180.0 + pu[0,k]
         # sum over all tides
@@ -212,6 +215,9 @@ def drift(t: float | np.ndarray,
                 pyTMD.arguments._constituent_parameters(c)
             # add component for constituent to output tidal elevation
             th = omega*t*86400.0 + ph + pu[:,k]
+            # use equilibrium argument if frequency is not tabulated
+            if (omega == 0.0):
+                th = G[:,k]*np.pi/180.0 + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
         # sum over all tides
@@ -272,6 +278,9 @@ def time_series(t: float | np.ndarray,
                 pyTMD.arguments._constituent_parameters(c)
             # add component for constituent to output tidal time series
             th = omega*t*86400.0 + ph + pu[:,k]
+            # use equilibrium argument if frequency is not tabulated
+            if (omega == 0.0):
+                th = G[:,k]*np.pi/180.0 + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
         # sum over all tides at location
diff --git a/pyTMD/solve/constants.py b/pyTMD/solve/constants.py
index 06c314a..158d9d6 100644
--- a/pyTMD/solve/constants.py
+++ b/pyTMD/solve/constants.py
@@ -109,6 +109,9 @@ def constants(t: float | np.ndarray,
             amp, ph, omega, alpha, species = \
                 pyTMD.arguments._constituent_parameters(c)
             th = omega*t*86400.0 + ph + pu[:,k]
+            # use equilibrium argument if frequency is not tabulated
+            if (omega == 0.0):
+                th = G[:,k]*np.pi/180.0 + pu[:,k]
         else:
             th = G[:,k]*np.pi/180.0 + pu[:,k]
         # add constituent to design matrix
-- 
2.43.0


From ea4e6e34af88b84a1d643d46385d67d0ec28ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 019/123] fix: infer minor constituents when only the first one
 is requested

---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 209144c..b2c4870 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -425,7 +425,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
@@ -573,7 +573,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
@@ -734,7 +734,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
@@ -887,7 +887,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if len(minor_indices) == 0:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From 56a16123d1395c3b8fcdd4165a892596407f2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 020/123] fix: return arrays when no minor constituents can be
 inferred

---
 pyTMD/predict.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index b2c4870..bd29654 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -412,7 +412,7 @@ def _infer_short_period(
         raise Exception(msg)
     elif (nz < 6):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1',
@@ -427,7 +427,7 @@ def _infer_short_period(
     msg = 'No short-period tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # relationship between major and minor constituent amplitude and phase
     zmin = np.zeros((n, 20), dtype=np.complex64)
@@ -560,7 +560,7 @@ def _infer_semi_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['eps2', '2n2', 'mu2', 'nu2', 'gamma2',
@@ -575,7 +575,7 @@ def _infer_semi_diurnal(
     msg = 'No semi-diurnal tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -721,7 +721,7 @@ def _infer_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'tau1', 'beta1',
@@ -736,7 +736,7 @@ def _infer_diurnal(
     msg = 'No diurnal tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -875,7 +875,7 @@ def _infer_long_period(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['sa', 'ssa', 'sta', 'msm', 'msf',
@@ -889,7 +889,7 @@ def _infer_long_period(
     msg = 'No long-period tidal constituents to infer'
     if len(minor_indices) == 0:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
-- 
2.43.0


From 8cf666a22be142385a5e8d05d7d81ebecd2e04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 021/123] fix: keep masks of the major constituents in the
 inferred minor tides

---
 pyTMD/predict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index bd29654..009ff7a 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -430,7 +430,7 @@ def _infer_short_period(
         return dh
 
     # relationship between major and minor constituent amplitude and phase
-    zmin = np.zeros((n, 20), dtype=np.complex64)
+    zmin = np.ma.zeros((n, 20), dtype=np.complex64)
     zmin[:,0] = 0.263*z[:,0] - 0.0252*z[:,1]# 2Q1
     zmin[:,1] = 0.297*z[:,0] - 0.0264*z[:,1]# sigma1
     zmin[:,2] = 0.164*z[:,0] + 0.0048*z[:,1]# rho1
@@ -620,7 +620,7 @@ def _infer_semi_diurnal(
             Ainv = np.array([[3.3133, -4.2538, 1.9405],
                 [-3.3133, 4.2538, -0.9405],
                 [1.5018, -3.2579, 1.7561]])
-            coef = np.dot(Ainv, z.T)
+            coef = np.ma.dot(Ainv, z.T, strict=True)
             # convert frequency to radians per 48 hours
             # following Munk and Cartwright (1966)
             f = 2.0*omega[k]*86400.0
@@ -788,7 +788,7 @@ def _infer_diurnal(
             Ainv = np.array([[3.1214, -3.8494, 1.728],
                 [-3.1727, 3.9559, -0.7832],
                 [1.438, -3.0297, 1.5917]])
-            coef = np.dot(Ainv, z.T)
+            coef = np.ma.dot(Ainv, z.T, strict=True)
             # convert frequency to radians per 48 hours
             # following Munk and Cartwright (1966)
             f = 2.0*omega[k]*86400.0
-- 
2.43.0


From f9cfdf6bd9ca7887d7e0a0c0b7b3f2fd1f209411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 022/123] fix: accept unmasked harmonic constants in tide
 prediction

---
 pyTMD/predict.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 009ff7a..04a1bdc 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -134,6 +134,7 @@ def map(t: float | np.ndarray,
     npts, nc = np.shape(hc)
     # verify dimensions of harmonic constants
     hc = np.ma.atleast_2d(hc)
+    mask = np.ma.getmaskarray(hc)
     # load the nodal corrections
     # convert time to Modified Julian Days (MJD)
     pu, pf, G = pyTMD.arguments.arguments(t + _mjd_tide,
@@ -160,7 +161,7 @@ def map(t: float | np.ndarray,
         # sum over all tides
         ht.data[:] += pf[0,k]*hc.real[:,k]*np.cos(th) - \
             pf[0,k]*hc.imag[:,k]*np.sin(th)
-        ht.mask[:] |= (hc.real.mask[:,k] | hc.imag.mask[:,k])
+        ht.mask[:] |= mask[:,k]
     # return the tidal elevation after removing singleton dimensions
     return np.squeeze(ht)
 
@@ -197,6 +198,7 @@ def drift(t: float | np.ndarray,
     nt = len(t)
     # verify dimensions of harmonic constants
     hc = np.ma.atleast_2d(hc)
+    mask = np.ma.getmaskarray(hc)
     # load the nodal corrections
     # convert time to Modified Julian Days (MJD)
     pu, pf, G = pyTMD.arguments.arguments(t + _mjd_tide,
@@ -223,7 +225,7 @@ def drift(t: float | np.ndarray,
         # sum over all tides
         ht.data[:] += pf[:,k]*hc.real[:,k]*np.cos(th) - \
             pf[:,k]*hc.imag[:,k]*np.sin(th)
-        ht.mask[:] |= (hc.real.mask[:,k] | hc.imag.mask[:,k])
+        ht.mask[:] |= mask[:,k]
     # return tides
     return ht
 
@@ -260,6 +262,7 @@ def time_series(t: float | np.ndarray,
     nt = len(t)
     # verify dimensions of harmonic constants
     hc = np.ma.atleast_2d(hc)
+    mask = np.ma.getmaskarray(hc)
     # load the nodal corrections
     # convert time to Modified Julian Days (MJD)
     pu, pf, G = pyTMD.arguments.arguments(t + _mjd_tide,
@@ -286,7 +289,7 @@ def time_series(t: float | np.ndarray,
         # sum over all tides at location
         ht.data[:] += pf[:,k]*hc.real[0,k]*np.cos(th) - \
             pf[:,k]*hc.imag[0,k]*np.sin(th)
-        ht.mask[:] |= np.any(hc.real.mask[0,k] | hc.imag.mask[0,k])
+        ht.mask[:] |= mask[0,k]
     # return the tidal time series
     return ht
 
-- 
2.43.0


From e7ae654b0236c7139f7c5ad17d13f55f8835ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 023/123] fix: compare data types case-insensitively in all
 correction functions

---
 pyTMD/compute.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..208a3cc 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -878,15 +878,15 @@ def LPET_elevations(
     tide_time = ts.tide + ts.tt_ut1
 
     # predict long-period equilibrium tides at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_lpe = np.zeros((ny,nx,nt))
         for i in range(nt):
             lpet = pyTMD.predict.equilibrium_tide(tide_time[i], lat)
             tide_lpe[:,:,i] = np.reshape(lpet,(ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         tide_lpe = pyTMD.predict.equilibrium_tide(tide_time, lat)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_lpe = np.zeros((nstation,nt))
         for s in range(nstation):
@@ -1031,7 +1031,7 @@ def LPT_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Srad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1051,7 +1051,7 @@ def LPT_displacements(
             # reshape to output dimensions
             Srad.data[:,:,i] = np.reshape(S[:,2], (ny,nx))
             Srad.mask[:,:,i] = np.isnan(Srad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate load pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.load_pole_tide(ts.tide, XYZ,
@@ -1068,7 +1068,7 @@ def LPT_displacements(
         Srad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Srad.data[:] = S[:,2].copy()
         Srad.mask = np.isnan(Srad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Srad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1253,7 +1253,7 @@ def OPT_displacements(
     UXYZ = np.einsum('ti...,tji...->tj...', np.c_[un, ue, ur], R)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Urad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1275,7 +1275,7 @@ def OPT_displacements(
             # reshape to output dimensions
             Urad.data[:,:,i] = np.reshape(U[:,2], (ny,nx))
             Urad.mask[:,:,i] = np.isnan(Urad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate ocean pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.ocean_pole_tide(ts.tide, XYZ, UXYZ,
@@ -1294,7 +1294,7 @@ def OPT_displacements(
         Urad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Urad.data[:] = U[:,2].copy()
         Urad.mask = np.isnan(Urad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Urad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1455,7 +1455,7 @@ def SET_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_se = np.zeros((ny,nx,nt))
         # convert coordinates to column arrays
@@ -1474,7 +1474,7 @@ def SET_displacements(
             SE = np.einsum('ti...,tji...->tj...', dxi, R)
             # reshape to output dimensions
             tide_se[:,:,i] = np.reshape(SE[:,2], (ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # convert coordinates to column arrays
         XYZ = np.c_[X, Y, Z]
         SXYZ = np.c_[SX, SY, SZ]
@@ -1487,7 +1487,7 @@ def SET_displacements(
         SE = np.einsum('ti...,tji...->tj...', dxi, R)
         # reshape to output dimensions
         tide_se = SE[:,2].copy()
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_se = np.zeros((nstation,nt))
         # convert coordinates to column arrays
-- 
2.43.0


From 14443a427e38197504dbf81b82d1cc450a1a4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 024/123] fix: semi-major axis and flattening of the GRS80 and
 NAD83 datums

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 3e3ba55..ea1c565 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -321,8 +321,8 @@ class datum:
         elif self.name in ('GRS80', 'NAD83'):
             # Geodetic Reference System 1980
             # North American Datum 1983
-            self.a_axis = 6378135.0# [m] semimajor axis of the ellipsoid
-            self.flat = 1.0/298.26# flattening of the ellipsoid
+            self.a_axis = 6378137.0# [m] semimajor axis of the ellipsoid
+            self.flat = 1.0/298.257222101# flattening of the ellipsoid
             self.GM = 3.986005e14# [m^3/s^2] Geocentric Gravitational Constant
 
         elif (self.name == 'GRS67'):
-- 
2.43.0


From 5ac8a21ff4c38341f146b78d59eabccbe2514b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 025/123] fix: use equatorial gravity in the ratio of polar to
 equatorial gravity

---
 pyTMD/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index ea1c565..aba0ce1 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -580,7 +580,7 @@ class datum:
     def dk(self) -> float:
         """Ratio between gravity at pole versus gravity at equator
         """
-        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_b) - 1.0
+        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_a) - 1.0
 
     # Normal potential at the ellipsoid
     # p. 68, Eqn.(2-123)
-- 
2.43.0


From 5816d810669a63a55eb199fa759218a1f7c8b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 026/123] fix: include the upper bounds of the grid in bilinear
 interpolation

---
 pyTMD/interpolate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..02444a0 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -72,7 +72,7 @@ def bilinear(
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
     valid, = np.nonzero((lon >= ilon.min()) & (lon <= ilon.max()) &
-        (lat > ilat.min()) & (lat < ilat.max()))
+        (lat >= ilat.min()) & (lat <= ilat.max()))
     # interpolate gridded data values to data
     npts = len(lon)
     # allocate to output interpolated data array
@@ -83,8 +83,9 @@ def bilinear(
     # for each valid point
     for i in valid:
         # calculating the indices for the original grid
-        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
-        iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
+        # (points on the upper bounds are within the last grid cells)
+        ix = np.searchsorted(ilon[1:-1], lon[i:i+1], side='right')
+        iy = np.searchsorted(ilat[1:-1], lat[i:i+1], side='right')
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
         IM.mask = np.ones((4), dtype=bool)
-- 
2.43.0


From 3735f0a8f74e8e4ace818e5cc0d04e29c9d818ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 027/123] fix: interpolate masked arrays without an allocated
 mask

---
 pyTMD/interpolate.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index 02444a0..489d0c1 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -66,8 +66,8 @@ def bilinear(
     data: np.ndarray
         interpolated data
     """
-    # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    # verify that input data is masked array with an allocated mask
+    if np.ma.getmask(idata) is np.ma.nomask:
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # find valid points (within bounds)
@@ -168,8 +168,8 @@ def spline(
     # set default keyword arguments
     kwargs.setdefault('kx', 1)
     kwargs.setdefault('ky', 1)
-    # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    # verify that input data is masked array with an allocated mask
+    if np.ma.getmask(idata) is np.ma.nomask:
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # interpolate gridded data values to data
@@ -256,8 +256,8 @@ def regulargrid(
     # set default keyword arguments
     kwargs.setdefault('bounds_error', False)
     kwargs.setdefault('method', 'linear')
-    # verify that input data is masked array
-    if not isinstance(idata, np.ma.MaskedArray):
+    # verify that input data is masked array with an allocated mask
+    if np.ma.getmask(idata) is np.ma.nomask:
         idata = np.ma.array(idata)
         idata.mask = np.zeros_like(idata, dtype=bool)
     # interpolate gridded data values to data
@@ -328,6 +328,10 @@ def extrapolate(
     # verify output dimensions
     lon = np.atleast_1d(lon)
     lat = np.atleast_1d(lat)
+    # verify that input data is masked array with an allocated mask
+    if np.ma.getmask(idata) is np.ma.nomask:
+        idata = np.ma.array(idata)
+        idata.mask = np.zeros_like(idata, dtype=bool)
     # extrapolate valid data values to data
     npts = len(lon)
     # return none if no invalid points
-- 
2.43.0


From 275de86030884c45bda026ce55939b6eeed49d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 028/123] fix: use the requested fill value when extrapolating

---
 pyTMD/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index 489d0c1..a0b2432 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -342,7 +342,7 @@ def extrapolate(
     data = np.ma.zeros((npts), dtype=dtype, fill_value=fill_value)
     data.mask = np.ones((npts), dtype=bool)
     # initially set all data to fill value
-    data.data[:] = idata.fill_value
+    data.data[:] = idata.fill_value if fill_value is None else fill_value
 
     # create combined valid mask
     valid_mask = (~idata.mask) & np.isfinite(idata.data)
-- 
2.43.0


From 1bc25b2182cfde75de51383195e7d80551ffc026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 029/123] fix: shift the ocean pole tide map so that it covers
 all longitudes

---
 pyTMD/io/IERS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 1758510..89288b8 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -202,7 +202,7 @@ def read_binary_file(**kwargs):
     # shift ocean pole tide grid to -180:180
     longitudes = np.copy(glon)
     for key, val in U.items():
-        U[key], glon = _shift(val, longitudes, lon0=180.0,
+        U[key], glon = _shift(val, longitudes, lon0=180.0+dlon/2.0,
             cyclic=360.0, direction='west')
     # extend matrix for bilinear interpolation
     glon = _extend_array(glon, dlon)
-- 
2.43.0


From 6b6f7c561fb6304aa6ef88401e59cab63bae338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 030/123] fix: adjust the longitudes of points for ocean pole
 tide coefficients

---
 pyTMD/io/IERS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 89288b8..c9f27f9 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -105,6 +105,8 @@ def extract_coefficients(
     # default keyword arguments
     kwargs.setdefault('model_file', _ocean_pole_tide_file)
     kwargs.setdefault('method', 'spline')
+    # adjust longitudinal convention of input points to -180:180
+    lon = np.where(np.abs(lon) > 180.0, np.mod(lon + 180.0, 360.0) - 180.0, lon)
     # number of points
     npts = len(np.atleast_1d(lat))
     # read ocean pole tide map from Desai (2002)
-- 
2.43.0


From 7a0790d492553dbaeb25d47f36a2f3557983074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 031/123] fix: bilinear interpolation of ocean pole tide
 coefficients

---
 pyTMD/io/IERS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index c9f27f9..646a335 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -91,7 +91,8 @@ def extract_coefficients(
         Interpolation method
 
             - ``'spline'``: scipy bivariate spline interpolation
-            - ``'linear'``, ``'nearest'``: scipy regular grid interpolations
+            - ``'bilinear'``, ``'linear'``, ``'nearest'``:
+              scipy regular grid interpolations
 
     Returns
     -------
@@ -126,10 +127,12 @@ def extract_coefficients(
             Uint[key].imag = f2.ev(lon, lat)
     else:
         # use scipy regular grid to interpolate values for a given method
+        # (bilinear is the linear interpolation of a map without gaps)
+        method = re.sub(r'bilinear', 'linear', kwargs['method'])
         for key,val in Umap.items():
             Uint[key] = np.zeros((npts), dtype=np.clongdouble)
             r1 = scipy.interpolate.RegularGridInterpolator((ilon,ilat[::-1]),
-                val[:,::-1], bounds_error=False, method=kwargs['method'])
+                val[:,::-1], bounds_error=False, method=method)
             Uint[key][:] = r1.__call__(np.c_[lon, lat])
     # return the interpolated values
     return (Uint['R'], Uint['N'], Uint['E'])
-- 
2.43.0


From 713c11f269a48311db99933dc399a506b60b18b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 032/123] fix: compare interpolation methods case-insensitively

---
 pyTMD/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 208a3cc..4c23877 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -365,7 +365,7 @@ def tide_elevations(
 
     # read tidal constants and interpolate to grid points
     amp, ph, c = model.extract_constants(lon, lat, type=model.type,
-        crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD,
+        crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD.lower(),
         extrapolate=EXTRAPOLATE, cutoff=CUTOFF,
         append_node=APPEND_NODE, apply_flexure=APPLY_FLEXURE)
     # calculate complex phase in radians for Euler's
@@ -589,7 +589,7 @@ def tide_currents(
     for t in model.type:
         # read tidal constants and interpolate to grid points
         amp, ph, c = model.extract_constants(lon, lat, type=t,
-            crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD,
+            crop=CROP, bounds=BOUNDS, buffer=BUFFER, method=METHOD.lower(),
             extrapolate=EXTRAPOLATE, cutoff=CUTOFF)
         # calculate complex phase in radians for Euler's
         cph = -1j*ph*np.pi/180.0
@@ -1235,7 +1235,7 @@ def OPT_displacements(
 
     # read and interpolate ocean pole tide map from Desai (2002)
     ur, un, ue = pyTMD.io.IERS.extract_coefficients(lon.flatten(),
-        latitude_geocentric, method=METHOD)
+        latitude_geocentric, method=METHOD.lower())
     # rotation matrix for converting to/from cartesian coordinates
     R = np.zeros((npts, 3, 3))
     R[:,0,0] = np.cos(phi)*np.cos(theta)
-- 
2.43.0


From 1ca0c38688a3ee9dd9ae950a07c5ab66f86a95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 033/123] fix: interpolate tide masks at the converted
 coordinates of any shape

---
 pyTMD/compute.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 4c23877..07672e3 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -770,27 +770,26 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X[lt0] += 360.0
 
     # interpolate masks
-    if (METHOD == 'bilinear'):
+    if (METHOD.lower() == 'bilinear'):
         # replace invalid values with nan
-        mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y)
-        mask = np.floor(mz1).astype(mz.dtype)
-    elif (METHOD == 'spline'):
+        mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y, fill_value=1)
+        mask = np.floor(mz1.data).astype(mz.dtype)
+    elif (METHOD.lower() == 'spline'):
         f1 = scipy.interpolate.RectBivariateSpline(xi, yi, mz.T,
             kx=1, ky=1)
         mask = np.floor(f1.ev(X, Y)).astype(mz.dtype)
     else:
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
-            method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
+            method=METHOD.lower(), bounds_error=False, fill_value=1)
+        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
-    # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
     # replace points outside model domain with invalid
+    valid = np.logical_not(mask).astype(mz.dtype)
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-    # return the valid mask
-    return valid
+    # return the valid mask reshaped to original dimensions
+    return valid.reshape(idim)
 
 # PURPOSE: compute long-period equilibrium tidal elevations
 def LPET_elevations(
-- 
2.43.0


From 66da76c72a966f66f98a079d6d5270b976b0565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 034/123] fix: read GOT netCDF4 files for tide masks

---
 pyTMD/compute.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 07672e3..9a7cef3 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -747,9 +747,14 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed)
+        if (model.format == 'GOT-ascii'):
+            hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
+                pathlib.Path(model.model_file[0]).expanduser(),
+                compressed=model.compressed)
+        else:
+            hc, xi, yi, c = pyTMD.io.GOT.read_netcdf_file(
+                pathlib.Path(model.model_file[0]).expanduser(),
+                compressed=model.compressed)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
         # copy latitude and longitude and adjust longitudes
-- 
2.43.0


From 0729f66de0c919928909d14cce5176e6fae13705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 035/123] fix: read compressed FES ascii files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..83a2b91 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -623,7 +623,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From cadf9e93a96f13029769919049e28891921f765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 036/123] fix: read FES ascii files with any number of
 longitudes

---
 pyTMD/io/FES.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 83a2b91..944b2fe 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -651,21 +651,13 @@ def read_ascii_file(
     i1 = 5
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//30):
-            j1 = j*30
+        # lines of (up to) 30 tidal variables
+        for j1 in range(0, nlon, 30):
             amplitude_data = file_contents[i1].split()
             amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[i1+1].split()
             ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
             i1 += 2
-        # add last tidal variables
-        j1 = (j+1)*30
-        j2 = nlon % 30
-        amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
-- 
2.43.0


From 09d2351d1e976bf8633d8d996fbe59b42af02b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 037/123] fix: output FES netCDF4 files of tidal currents

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 944b2fe..aa08c0d 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -825,7 +825,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From 7fbcd2bd316c7020fed14ac326b2e117777c0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 038/123] fix: read GOT ascii files with any number of
 longitudes

---
 pyTMD/io/GOT.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..f30b004 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -591,25 +591,17 @@ def read_ascii_file(
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting lines to fill amplitude and phase variables
     l1 = 7
-    l2 = 14 + int(nlon//11)*nlat + nlat
+    l2 = 14 + int(np.ceil(nlon/11))*nlat
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//11):
-            j1 = j*11
+        # lines of (up to) 11 tidal variables
+        for j1 in range(0, nlon, 11):
             amplitude_data = file_contents[l1].split()
             amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[l2].split()
             ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
             l1 += 1
             l2 += 1
-        # add last tidal variables
-        j1 = (j+1)*11; j2 = nlon % 11
-        amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        l1 += 1
-        l2 += 1
     # set masks
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     # calculate complex form of constituent oscillation
-- 
2.43.0


From 99346670b5194c26383e0015f374d12bc3963572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 039/123] fix: shift regional and cell-centered grids to a new
 base longitude

---
 pyTMD/io/ATLAS.py | 16 +++++++++-------
 pyTMD/io/FES.py   | 16 +++++++++-------
 pyTMD/io/GOT.py   | 16 +++++++++-------
 pyTMD/io/IERS.py  | 16 +++++++++-------
 pyTMD/io/OTIS.py  | 16 +++++++++-------
 5 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..862184f 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1351,23 +1351,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    i0 = np.searchsorted(ilon, lon0 - 1e-4)
+    # number of columns after the starting index
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index aa08c0d..f1776eb 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -1012,23 +1012,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    i0 = np.searchsorted(ilon, lon0 - 1e-4)
+    # number of columns after the starting index
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index f30b004..4d0473d 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -898,23 +898,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    i0 = np.searchsorted(ilon, lon0 - 1e-4)
+    # number of columns after the starting index
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 646a335..e9c66a0 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -307,23 +307,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    i0 = np.searchsorted(ilon, lon0 - 1e-4)
+    # number of columns after the starting index
+    n0 = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n0] = ilon[i0:]
+    lon[n0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:-i0,:] = input_matrix[i0:, :]
-    temp[-i0:,:] = input_matrix[offset: i0+offset, :]
+    temp[:n0,:] = input_matrix[i0:, :]
+    temp[n0:,:] = input_matrix[offset: i0+offset, :]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..d508bb4 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2070,24 +2070,26 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ix[-1]-ix[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ix - x0))
+    i0 = np.searchsorted(ix, x0 - 1e-4)
+    # number of columns after the starting index
+    n0 = len(ix) - i0
     # shift longitudinal values
     x = np.zeros(ix.shape, ix.dtype)
-    x[0:-i0] = ix[i0:]
-    x[-i0:] = ix[offset: i0+offset]
+    x[0:n0] = ix[i0:]
+    x[n0:] = ix[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        x[-i0:] += cyclic
+        x[n0:] += cyclic
     elif (direction == 'west'):
-        x[0:-i0] -= cyclic
+        x[0:n0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n0] = input_matrix[:,i0:]
+    temp[:,n0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, x)
 
-- 
2.43.0


From 02dc5de816fc4f716d09d31e014dea4aa4d65782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 040/123] fix: adjust the longitudinal convention of each point
 to fit tide model

---
 pyTMD/io/ATLAS.py | 22 +++++-----------------
 pyTMD/io/FES.py   | 22 +++++-----------------
 pyTMD/io/GOT.py   | 22 +++++-----------------
 pyTMD/io/OTIS.py  | 20 +++++++-------------
 4 files changed, 22 insertions(+), 64 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 862184f..d8ee2c2 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -245,21 +245,12 @@ def extract_constants(
     is_global = False
 
     # crop bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mlon, mlat = np.copy(lon), np.copy(lat)
         bathymetry, lon, lat = _crop(bathymetry, mlon, mlat,
             bounds=bounds,
             buffer=buffer
         )
-    elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
 
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -267,6 +258,9 @@ def extract_constants(
         bathymetry = _extend_matrix(bathymetry)
         # set global grid flag
         is_global = True
+    # adjust longitudinal convention of each point to fit tide model
+    ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+    ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
     # create masks
     bathymetry.mask = (bathymetry.data == 0)
     # determine if any input points are outside of the model bounds
@@ -565,14 +559,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+    ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index f1776eb..5e7437e 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -262,25 +262,19 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
 
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of each point to fit tide model
+        ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+        ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
                   (ilat < lat.min()) | (ilat > lat.max())
@@ -498,14 +492,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+    ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 4d0473d..331615e 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -239,24 +239,18 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of each point to fit tide model
+        ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+        ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -447,14 +441,8 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+    ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
     # number of points
     npts = len(ilon)
     # number of constituents
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index d508bb4..fa25673 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -300,21 +300,12 @@ def extract_constants(
     buffer = kwargs['buffer'] or 4*dx
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mx, my = np.copy(xi), np.copy(yi)
         mz, xi, yi = _crop(mz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        x[x > 180] -= 360.0
 
     # if global: extend limits
     is_global = False
@@ -323,6 +314,10 @@ def extract_constants(
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
+    # adjust longitudinal convention of each point to fit tide model
+    if is_geographic:
+        x = np.where(x < np.min(xi), x + 360.0, x)
+        x = np.where(x > np.max(xi), x - 360.0, x)
 
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
@@ -802,10 +797,9 @@ def interpolate_constants(
     is_geographic = constituents.crs.is_geographic
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        x[x > 180] -= 360.0
+    if is_geographic:
+        x = np.where(x < np.min(xi), x + 360.0, x)
+        x = np.where(x > np.max(xi), x - 360.0, x)
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
-- 
2.43.0


From 4c5731bf1e591ff177ce5d79f1b3dc2aac27958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 041/123] fix: detect global OTIS grids when reading constants

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index fa25673..f392955 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -609,7 +609,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From 9ad6d2dfafd88c6f30392b953020e0e44b49b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 042/123] fix: write the bathymetry once to OTIS grid files

---
 pyTMD/io/OTIS.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index f392955..e3ac948 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1793,7 +1793,6 @@ def output_otis_grid(
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
     for m in range(ny):
         hz[m,:].tofile(fid,format='>f4')
     fid.write(struct.pack('>i',reclen))
-- 
2.43.0


From 734ef752de0a106944caa86f1ebf8cb765533cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 043/123] fix: write OTIS files as big-endian single precision
 for any input type

---
 pyTMD/io/OTIS.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index e3ac948..cdaa473 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1776,8 +1776,8 @@ def output_otis_grid(
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     fid.write(struct.pack('>f',dt))
     fid.write(struct.pack('>i',nob))
     fid.write(struct.pack('>i',reclen))
@@ -1788,17 +1788,17 @@ def output_otis_grid(
     else:
         reclen = 8*nob
         fid.write(struct.pack('>i',reclen))
-        iob.tofile(fid,format='>i4')
+        np.array(iob, dtype='>i4').tofile(fid)
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-        hz[m,:].tofile(fid,format='>f4')
+        hz[m,:].astype('>f4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-        mz[m,:].tofile(fid,format='>i4')
+        mz[m,:].astype('>i4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     # close the output OTIS file
     fid.close()
@@ -1838,8 +1838,8 @@ def output_otis_elevation(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1848,10 +1848,10 @@ def output_otis_elevation(
     for ic in range(nc):
         fid.write(struct.pack('>i',constituent_header))
         for m in range(ny):
-            temp = np.zeros((2*nx),dtype='>f')
+            temp = np.zeros((2*nx),dtype='>f4')
             temp[0:2*nx-1:2] = h.real[m,:,ic]
             temp[1:2*nx:2] = h.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            temp.tofile(fid)
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
@@ -1894,8 +1894,8 @@ def output_otis_transport(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.array(ylim, dtype='>f4').tofile(fid)
+    np.array(xlim, dtype='>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1904,12 +1904,12 @@ def output_otis_transport(
     for ic in range(nc):
         fid.write(struct.pack('>i',constituent_header))
         for m in range(ny):
-            temp = np.zeros((4*nx),dtype='>f')
+            temp = np.zeros((4*nx),dtype='>f4')
             temp[0:4*nx-3:4] = u.real[m,:,ic]
             temp[1:4*nx-2:4] = u.imag[m,:,ic]
             temp[2:4*nx-1:4] = v.real[m,:,ic]
             temp[3:4*nx:4] = v.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            temp.tofile(fid)
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
-- 
2.43.0


From 034246fe28a96b35f5d09c5f0e073c4680859346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 044/123] fix: read adjacent 4-character constituents from OTIS
 files

---
 pyTMD/io/OTIS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index cdaa473..8941f52 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1158,7 +1158,8 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        # constituent IDs are strings with a fixed width of 4 characters
+        constituents = [fid.read(4).decode("utf8").strip() for c in range(nc)]
         fid.close()
     return (constituents, nc)
 
-- 
2.43.0


From 47d03a27385100588d66e90eddfb6b370dc22b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 045/123] fix: do not wrap the masks of u and v nodes for
 regional grids

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 8941f52..c22dd31 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2147,7 +2147,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From 26e5b449ad3ce729a5edf4c499195a5771708df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 046/123] fix: do not interpolate zero constants of OTIS models
 as fill values

---
 pyTMD/io/OTIS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index c22dd31..63ced7c 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -862,8 +862,8 @@ def interpolate_constants(
             hci.mask = D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace zero values with fill value
-            hc.data[(hc.data == 0) | hc.mask] = fill_value
+            # replace invalid values with fill value
+            hc.data[hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(xi, yi, hc, x, y,
                 fill_value=fill_value,
-- 
2.43.0


From 01854ad5316346b00641f0cacd1f58bafe2d1607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 047/123] fix: default tidal variable when interpolating OTIS
 constants

---
 pyTMD/io/OTIS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 63ced7c..7936c56 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -780,6 +780,7 @@ def interpolate_constants(
         bathymetry of tide model
     """
     # set default keyword arguments
+    kwargs.setdefault('type', 'z')
     kwargs.setdefault('method', 'spline')
     kwargs.setdefault('extrapolate', False)
     kwargs.setdefault('cutoff', 10.0)
-- 
2.43.0


From 0f4fa43431c1f62352be788b0f12f78e0b86d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 048/123] fix: mask points in bilinear interpolation with no
 weight on valid nodes

---
 pyTMD/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index a0b2432..b18713f 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -109,7 +109,7 @@ def bilinear(
         elif (np.isclose(lat[i],ilat[iy+1]) & np.isclose(lon[i],ilon[ix+1])):
             data.data[i] = np.squeeze(idata.data[iy+1,ix+1]).astype(dtype)
             data.mask[i] = np.squeeze(idata.mask[iy+1,ix+1])
-        elif np.any(np.isfinite(IM) & (~IM.mask)):
+        elif np.any(np.isfinite(IM) & (~IM.mask) & (WM > 0)):
             # find valid indices for data summation and weight matrix
             ii, = np.nonzero(np.isfinite(IM) & (~IM.mask))
             # calculate interpolated value for i
-- 
2.43.0


From b88442aeb19e7dae75541ec0f45e91c0fcb60ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 049/123] fix: extract constants of FES tidal currents

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..e6213bd 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1037,7 +1037,7 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = self.constituents
-- 
2.43.0


From f6273dcb818dfd98fd6300e3bb988ff44866e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 050/123] fix: do not add the node tide to the constituents of
 FES models

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index e6213bd..0b359ff 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1040,7 +1040,7 @@ class model:
                 model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From f71d12c16e4f4fae58113046c3a26c2f9195848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 051/123] fix: use coordinates of transport nodes for OTIS
 model bounds

---
 pyTMD/io/OTIS.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 7936c56..d38d1ae 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -314,13 +314,6 @@ def extract_constants(
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-    # adjust longitudinal convention of each point to fit tide model
-    if is_geographic:
-        x = np.where(x < np.min(xi), x + 360.0, x)
-        x = np.where(x > np.max(xi), x - 360.0, x)
-
-    # determine if any input points are outside of the model bounds
-    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
     # update masks for each type
     if (kwargs['type'] == 'z'):
@@ -362,6 +355,14 @@ def extract_constants(
         # y-coordinates for v transports
         yi -= dy/2.0
 
+    # adjust longitudinal convention of each point to fit tide model
+    if is_geographic:
+        x = np.where(x < np.min(xi), x + 360.0, x)
+        x = np.where(x > np.max(xi), x - 360.0, x)
+
+    # determine if any input points are outside of the model bounds
+    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
+
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
-- 
2.43.0


From 815362413123cf375dafa8a5ff729f87a261b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 052/123] fix: invalidate points outside of the domain of GOT
 models

---
 pyTMD/io/GOT.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 331615e..f782867 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -251,6 +251,9 @@ def extract_constants(
         # adjust longitudinal convention of each point to fit tide model
         ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
         ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
+        # determine if any input points are outside of the model bounds
+        invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+                  (ilat < lat.min()) | (ilat > lat.max())
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -293,6 +296,9 @@ def extract_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
@@ -443,6 +449,9 @@ def interpolate_constants(
     # to fit tide model convention
     ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
     ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
+    # determine if any input points are outside of the model bounds
+    invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+              (ilat < lat.min()) | (ilat > lat.max())
     # number of points
     npts = len(ilon)
     # number of constituents
@@ -512,6 +521,9 @@ def interpolate_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
-- 
2.43.0


From cd9b5c49f661613f06dd29228e81501b3f6e286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 053/123] fix: replace invalid values of masked nodes in FES
 and GOT netCDF files

---
 pyTMD/io/FES.py | 2 ++
 pyTMD/io/GOT.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 5e7437e..f6df31b 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -735,6 +735,8 @@ def read_netcdf_file(
         np.isnan(amp.data) | np.isnan(ph.data)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
         fill_value=np.ma.default_fill_value(np.dtype(complex)))
+    # replace invalid values with fill_value
+    hc.data[hc.mask] = hc.fill_value
     # return output variables
     return (hc, lon, lat)
 
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index f782867..409d84a 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -665,6 +665,8 @@ def read_netcdf_file(
         np.isnan(amp.data) | np.isnan(ph.data)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
         fill_value=np.ma.default_fill_value(np.dtype(complex)))
+    # replace invalid values with fill_value
+    hc.data[hc.mask] = hc.fill_value
     # return output variables
     return (hc, lon, lat, cons)
 
-- 
2.43.0


From 633d5bd4fb1f4b28c93b42a6598199f1eb351e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 054/123] fix: read fixed-width constituents of ATLAS-compact
 local solutions

---
 pyTMD/io/OTIS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index d38d1ae..4ecf23b 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1281,7 +1281,7 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for c in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1446,7 +1446,7 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        cons = [fid.read(4).decode("utf8").strip() for c in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From ae9adf54486a6e655820b907212d7939cb927885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 055/123] fix: crop cyclic and regional grids in the
 longitudinal convention of the bounds

---
 pyTMD/io/ATLAS.py | 41 +++++++++++++++++++++++++++++------------
 pyTMD/io/FES.py   | 41 +++++++++++++++++++++++++++++------------
 pyTMD/io/GOT.py   | 41 +++++++++++++++++++++++++++++------------
 pyTMD/io/OTIS.py  | 43 +++++++++++++++++++++++++++++++------------
 4 files changed, 118 insertions(+), 48 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index d8ee2c2..9068b0a 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1278,27 +1278,44 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # check if the model is cyclic in longitude
+    # (with or without a repeated meridian)
+    dx = np.abs(ilon[1] - ilon[0])
+    width = ilon[-1] - ilon[0]
+    repeated = np.isclose(width, 360.0)
+    cyclic = repeated or np.isclose(width, 360.0 - dx)
+    # number of independent columns
+    nx = len(ilon) - 1 if repeated else len(ilon)
+    # columns in each longitudinal convention
+    cycles = (-720.0, -360.0, 0.0, 360.0, 720.0)
+    cols = np.tile(np.arange(nx), len(cycles))
+    lon = np.concatenate([ilon[:nx] + c for c in cycles])
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
-    # slices for cropping axes
+    xind = np.flatnonzero((lon >= xmin) & (lon <= xmax))
+    if cyclic:
+        # reduce to a single cycle
+        xind = xind[:nx]
+    elif (len(np.unique(xind//nx)) > 1):
+        # bounds are within different cycles of a regional model
+        # use the original longitudinal convention
+        first, last = np.min(cols[xind]), np.max(cols[xind])
+        xind = np.arange(first, last + 1) + nx*(len(cycles)//2)
+    # interpolation needs at least two nodes in each dimension
+    if (len(xind) < 2):
+        xind = np.arange(nx) + nx*(len(cycles)//2)
+    if (len(yind) < 2):
+        yind = np.arange(len(ilat))
+    # slice for cropping rows
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
+    temp = input_matrix[rows, cols[xind]]
+    lon = lon[xind]
     lat = ilat[rows]
     # return cropped data
     return (temp, lon, lat)
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index f6df31b..8b393a1 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -941,27 +941,44 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # check if the model is cyclic in longitude
+    # (with or without a repeated meridian)
+    dx = np.abs(ilon[1] - ilon[0])
+    width = ilon[-1] - ilon[0]
+    repeated = np.isclose(width, 360.0)
+    cyclic = repeated or np.isclose(width, 360.0 - dx)
+    # number of independent columns
+    nx = len(ilon) - 1 if repeated else len(ilon)
+    # columns in each longitudinal convention
+    cycles = (-720.0, -360.0, 0.0, 360.0, 720.0)
+    cols = np.tile(np.arange(nx), len(cycles))
+    lon = np.concatenate([ilon[:nx] + c for c in cycles])
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
-    # slices for cropping axes
+    xind = np.flatnonzero((lon >= xmin) & (lon <= xmax))
+    if cyclic:
+        # reduce to a single cycle
+        xind = xind[:nx]
+    elif (len(np.unique(xind//nx)) > 1):
+        # bounds are within different cycles of a regional model
+        # use the original longitudinal convention
+        first, last = np.min(cols[xind]), np.max(cols[xind])
+        xind = np.arange(first, last + 1) + nx*(len(cycles)//2)
+    # interpolation needs at least two nodes in each dimension
+    if (len(xind) < 2):
+        xind = np.arange(nx) + nx*(len(cycles)//2)
+    if (len(yind) < 2):
+        yind = np.arange(len(ilat))
+    # slice for cropping rows
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
+    temp = input_matrix[rows, cols[xind]]
+    lon = lon[xind]
     lat = ilat[rows]
     # return cropped data
     return (temp, lon, lat)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 409d84a..d4066ce 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -839,27 +839,44 @@ def _crop(
     lat: np.ndarray
         cropped latitude
     """
-    # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # check if the model is cyclic in longitude
+    # (with or without a repeated meridian)
+    dx = np.abs(ilon[1] - ilon[0])
+    width = ilon[-1] - ilon[0]
+    repeated = np.isclose(width, 360.0)
+    cyclic = repeated or np.isclose(width, 360.0 - dx)
+    # number of independent columns
+    nx = len(ilon) - 1 if repeated else len(ilon)
+    # columns in each longitudinal convention
+    cycles = (-720.0, -360.0, 0.0, 360.0, 720.0)
+    cols = np.tile(np.arange(nx), len(cycles))
+    lon = np.concatenate([ilon[:nx] + c for c in cycles])
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
-    # slices for cropping axes
+    xind = np.flatnonzero((lon >= xmin) & (lon <= xmax))
+    if cyclic:
+        # reduce to a single cycle
+        xind = xind[:nx]
+    elif (len(np.unique(xind//nx)) > 1):
+        # bounds are within different cycles of a regional model
+        # use the original longitudinal convention
+        first, last = np.min(cols[xind]), np.max(cols[xind])
+        xind = np.arange(first, last + 1) + nx*(len(cycles)//2)
+    # interpolation needs at least two nodes in each dimension
+    if (len(xind) < 2):
+        xind = np.arange(nx) + nx*(len(cycles)//2)
+    if (len(yind) < 2):
+        yind = np.arange(len(ilat))
+    # slice for cropping rows
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    lon = ilon[cols]
+    temp = input_matrix[rows, cols[xind]]
+    lon = lon[xind]
     lat = ilat[rows]
     # return cropped data
     return (temp, lon, lat)
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 4ecf23b..01c54e0 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2005,27 +2005,46 @@ def _crop(
     y: np.ndarray
         cropped y-coordinates
     """
-    # adjust longitudinal convention of tide model
-    if is_geographic & (np.min(bounds[:2]) < 0.0) & (np.max(ix) > 180.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=180.0, cyclic=360.0, direction='west')
-    elif is_geographic & (np.max(bounds[:2]) > 180.0) & (np.min(ix) < 0.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=0.0, cyclic=360.0, direction='east')
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
     ymin = bounds[2] - buffer
     ymax = bounds[3] + buffer
+    # check if the model is cyclic in longitude
+    # (with or without a repeated meridian)
+    dx = np.abs(ix[1] - ix[0])
+    width = ix[-1] - ix[0]
+    repeated = is_geographic and np.isclose(width, 360.0)
+    cyclic = repeated or (is_geographic and np.isclose(width, 360.0 - dx))
+    # number of independent columns
+    nx = len(ix) - 1 if repeated else len(ix)
+    # columns in each longitudinal convention
+    cycles = (0.0,)
+    if is_geographic:
+        cycles = (-720.0, -360.0, 0.0, 360.0, 720.0)
+    cols = np.tile(np.arange(nx), len(cycles))
+    x = np.concatenate([ix[:nx] + c for c in cycles])
     # find indices for cropping
     yind = np.flatnonzero((iy >= ymin) & (iy <= ymax))
-    xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
-    # slices for cropping axes
+    xind = np.flatnonzero((x >= xmin) & (x <= xmax))
+    if cyclic:
+        # reduce to a single cycle
+        xind = xind[:nx]
+    elif (len(np.unique(xind//nx)) > 1):
+        # bounds are within different cycles of a regional model
+        # use the original longitudinal convention
+        first, last = np.min(cols[xind]), np.max(cols[xind])
+        xind = np.arange(first, last + 1) + nx*(len(cycles)//2)
+    # interpolation needs at least two nodes in each dimension
+    if (len(xind) < 2):
+        xind = np.arange(nx) + nx*(len(cycles)//2)
+    if (len(yind) < 2):
+        yind = np.arange(len(iy))
+    # slice for cropping rows
     rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
     # crop matrix
-    temp = input_matrix[rows, cols]
-    x = ix[cols]
+    temp = input_matrix[rows, cols[xind]]
+    x = x[xind]
     y = iy[rows]
     # return cropped data
     return (temp, x, y)
-- 
2.43.0


From 07cabf05545884c398e956517775d181266fc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 056/123] fix: extrapolate the bathymetry for the units of
 extrapolated currents

---
 pyTMD/io/ATLAS.py | 16 ++++++++++++++--
 pyTMD/io/OTIS.py  | 18 ++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 9068b0a..f728e71 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -290,7 +290,13 @@ def extract_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        depth = np.ma.copy(D)
+        # extrapolate the bathymetry for the extrapolated points
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat,
+                bathymetry, ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -591,7 +597,13 @@ def interpolate_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        depth = np.ma.copy(D)
+        # extrapolate the bathymetry for the extrapolated points
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat,
+                bathymetry, ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 01c54e0..be933ef 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -384,7 +384,14 @@ def extract_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        depth = np.ma.copy(D)
+        # extrapolate the bathymetry for the extrapolated points
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi,
+                bathymetry, x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -823,7 +830,14 @@ def interpolate_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        depth = np.ma.copy(D)
+        # extrapolate the bathymetry for the extrapolated points
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi,
+                bathymetry, x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From 4c691a37d1000d2522114cb51f69e84a11cb7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 057/123] fix: do not shift the original coordinates of cropped
 OTIS transports

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index be933ef..4ae3d75 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2059,7 +2059,7 @@ def _crop(
     # crop matrix
     temp = input_matrix[rows, cols[xind]]
     x = x[xind]
-    y = iy[rows]
+    y = np.copy(iy[rows])
     # return cropped data
     return (temp, x, y)
 
-- 
2.43.0


From b8648fde354dec37113d838e6565172bacae5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 058/123] fix: do not modify the bathymetry of ATLAS
 constituents when interpolating

---
 pyTMD/io/ATLAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index f728e71..078b07c 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -574,7 +574,7 @@ def interpolate_constants(
     # number of points
     npts = len(ilon)
     # create masked array of model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry,
+    bathymetry = np.ma.array(np.copy(constituents.bathymetry),
         mask=constituents.mask, fill_value=0.0)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
-- 
2.43.0


From c06286905256e6a541c42c01a5c8595efbd328c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 059/123] fix: read the constituent names of ATLAS netCDF files
 with encoded characters

---
 pyTMD/io/ATLAS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 078b07c..62f82ef 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -835,7 +835,8 @@ def read_netcdf_elevation(
         fileID = netCDF4.Dataset(uuid.uuid4().hex, 'r', memory=f.read())
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
-    # constituent name
+    # constituent name (as an array of characters)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
@@ -894,7 +895,8 @@ def read_netcdf_transport(
         fileID = netCDF4.Dataset(uuid.uuid4().hex, 'r', memory=f.read())
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
-    # constituent name
+    # constituent name (as an array of characters)
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
-- 
2.43.0


From ae26b397042840652ebc13e3489de76844101382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 060/123] fix: write constituents with more than four
 characters to ATLAS and FES files

---
 pyTMD/io/ATLAS.py | 4 ++--
 pyTMD/io/FES.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 62f82ef..23b6e61 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1047,7 +1047,7 @@ def output_netcdf_elevation(
     ny, nx = np.shape(h)
     fileID.createDimension('nx', nx)
     fileID.createDimension('ny', ny)
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(4, len(constituent)))
     # defining the NetCDF variables
     nc = {}
     nc['lon_z'] = fileID.createVariable('lon_z', lon_z.dtype, ('nx',))
@@ -1140,7 +1140,7 @@ def output_netcdf_transport(
     ny, nx = np.shape(u)
     fileID.createDimension('nx', nx)
     fileID.createDimension('ny', ny)
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(4, len(constituent)))
     # defining the NetCDF variables
     nc = {}
     nc['lon_u'] = fileID.createVariable('lon_u', lon_u.dtype, ('nx',))
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8b393a1..faa2ddc 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -780,7 +780,7 @@ def output_netcdf_file(
     # define the NetCDF dimensions
     fileID.createDimension('lon', len(lon))
     fileID.createDimension('lat', len(lat))
-    fileID.createDimension('nct', 4)
+    fileID.createDimension('nct', max(4, len(constituent)))
     # calculate amplitude and phase
     amp = np.abs(hc)
     ph = 180.0*np.arctan2(-np.imag(hc), np.real(hc))/np.pi
-- 
2.43.0


From f23d34cfdc9998f1b6328e2952b111f9ea02cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 061/123] fix: compute the solid earth tides of grids for the
 requested day

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 9a7cef3..4b0ab27 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1466,7 +1466,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From e83c0b303192b1f7f2565b857fbda8046e6f49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 062/123] fix: accept single model files in definition files
 without a directory

---
 pyTMD/io/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 0b359ff..950e646 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -734,11 +734,11 @@ class model:
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
                     temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                        np.atleast_1d(model_file)]
             elif (temp.type == 'z') and isinstance(temp.model_file, list):
                 # resolve paths to model files
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                    np.atleast_1d(temp.model_file)]
             else:
                 # fully defined single file case
                 temp.model_file = pathlib.Path(temp.model_file).expanduser()
@@ -779,11 +779,11 @@ class model:
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
                     temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                        np.atleast_1d(model_file)]
             elif (temp.type == 'z'):
                 # resolve paths to model files
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                    np.atleast_1d(temp.model_file)]
         elif temp.format in ('FES-ascii','FES-netcdf','GOT-ascii','GOT-netcdf'):
             # extract model files
             if (temp.type == ['u','v']) and (temp.directory is not None):
@@ -814,11 +814,11 @@ class model:
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
                     temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                        np.atleast_1d(model_file)]
             elif (temp.type == 'z'):
                 # resolve paths to model files
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                    np.atleast_1d(temp.model_file)]
         # verify that projection attribute exists for projected models
         if temp.format in ('OTIS','ATLAS-compact','TMD3'):
             assert temp.projection
-- 
2.43.0


From 39fdd16b2017d63cf1ade5e29a761c9936308f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 063/123] fix: read every constituent of a single model file in
 a list of OTIS files

---
 pyTMD/io/OTIS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 4ae3d75..21c5b70 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -397,6 +397,9 @@ def extract_constants(
     elif kwargs['type'] in ('z','V','U'):
         unit_conv = 1.0
 
+    # a single file can contain multiple constituents
+    if isinstance(model_file, list) and (len(model_file) == 1):
+        model_file, = model_file
     # read and interpolate each constituent
     if isinstance(model_file,list):
         constituents = [read_constituents(m)[0].pop() for m in model_file]
@@ -667,6 +670,9 @@ def read_constants(
     gridx, gridy = np.meshgrid(xi, yi)
     lon, lat = crs.transform(gridx, gridy, direction='INVERSE')
 
+    # a single file can contain multiple constituents
+    if isinstance(model_file, list) and (len(model_file) == 1):
+        model_file, = model_file
     # read each constituent
     if isinstance(model_file, list):
         cons = [read_constituents(m)[0].pop() for m in model_file]
-- 
2.43.0


From 1325c92bdccadcfa0b068a25f0f72ac9f5443a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 064/123] fix: accept the documented FES-ascii format in
 definition files

---
 pyTMD/io/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 950e646..f849407 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -462,6 +462,8 @@ class model:
         for variable, models in parameters.items():
             for model, val in models.items():
                 format_list.append(val['format'])
+        # add formats only available using definition files
+        format_list.append('FES-ascii')
         # return unique list of formats
         return sorted(set(format_list))
 
-- 
2.43.0


From 9522ac25448845be14b747372c697388437cbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 065/123] fix: return the pole coordinates from the deprecated
 eop wrapper

---
 pyTMD/eop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/eop.py b/pyTMD/eop.py
index c07221c..c8e66d6 100644
--- a/pyTMD/eop.py
+++ b/pyTMD/eop.py
@@ -119,7 +119,7 @@ def pull_pole_coordinates(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.pull_pole_coordinates",
         DeprecationWarning)
-    timescale.eop.pull_pole_coordinates(*args, **kwargs)
+    return timescale.eop.pull_pole_coordinates(*args, **kwargs)
 
 # PURPOSE: connects to servers and downloads finals files
 def update_finals_file(**kwargs):
-- 
2.43.0


From bc26f503dccb3b9a3e964f271373d110df77a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 066/123] fix: read the grids of TMD3 and compact ATLAS models
 for tide masks

---
 pyTMD/compute.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 4b0ab27..78dba50 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -726,9 +726,21 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
 
     # read tidal constants and interpolate to grid points
     if model.format in ('OTIS','ATLAS-compact','TMD3'):
-        # if reading a single OTIS solution
-        xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(
-            pathlib.Path(model.grid_file).expanduser())
+        grid_file = pathlib.Path(model.grid_file).expanduser()
+        if (model.format == 'ATLAS-compact'):
+            # if reading a global solution with localized solutions
+            x0, y0, hz0, mz0, iob, dt, pmask, local = \
+                pyTMD.io.OTIS.read_atlas_grid(grid_file)
+            xi, yi, hz = pyTMD.io.OTIS.combine_atlas_model(x0, y0, hz0,
+                pmask, local, variable='depth')
+            mz = pyTMD.io.OTIS.create_atlas_mask(x0, y0, mz0, local,
+                variable='depth')
+        elif (model.format == 'TMD3'):
+            # if reading a single TMD3 netCDF4 solution
+            xi, yi, hz, mz, sf = pyTMD.io.OTIS.read_netcdf_grid(grid_file)
+        else:
+            # if reading a single OTIS solution
+            xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(grid_file)
         # invert model mask
         mz = np.logical_not(mz)
         # adjust dimensions of input coordinates to be iterable
-- 
2.43.0


From 674b8ff224f1edd803ffa072de1684b12e63321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 067/123] fix: compute tide masks for FES models in ascii
 format

---
 pyTMD/compute.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 78dba50..72402b5 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -773,12 +773,17 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X, Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
-    elif (model.format == 'FES-netcdf'):
-        # if reading a FES netCDF solution
-        hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
-            pathlib.Path(model.model_file[0]).expanduser(),
-            compressed=model.compressed, type=model.type,
-            version=model.version)
+    elif model.format in ('FES-ascii', 'FES-netcdf'):
+        # if reading a FES solution
+        if (model.format == 'FES-ascii'):
+            hc, xi, yi = pyTMD.io.FES.read_ascii_file(
+                pathlib.Path(model.model_file[0]).expanduser(),
+                compressed=model.compressed)
+        else:
+            hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
+                pathlib.Path(model.model_file[0]).expanduser(),
+                compressed=model.compressed, type=model.type,
+                version=model.version)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
         # copy latitude and longitude and adjust longitudes
-- 
2.43.0


From 913457a9f8a4bfe979e884e5f65a382b6e68dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 068/123] fix: use the longitude convention and extent of the
 model in tide masks

---
 pyTMD/compute.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 72402b5..c6c5d62 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -753,10 +753,8 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             compressed=model.compressed, type=model.type)
         # copy bathymetry mask
         mz = np.copy(hz.mask)
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X,Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
         if (model.format == 'GOT-ascii'):
@@ -769,10 +767,8 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
                 compressed=model.compressed)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
     elif model.format in ('FES-ascii', 'FES-netcdf'):
         # if reading a FES solution
         if (model.format == 'FES-ascii'):
@@ -786,10 +782,20 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
                 version=model.version)
         # copy tidal constituent mask
         mz = np.copy(hc.mask)
-        # copy latitude and longitude and adjust longitudes
+        # copy latitude and longitude
         X, Y = np.copy([lon,lat]).astype(np.float64)
-        lt0, = np.nonzero(X < 0)
-        X[lt0] += 360.0
+
+    # adjust longitudinal convention of each point to fit tide model
+    is_geographic = (model.format not in ('OTIS','ATLAS-compact','TMD3')) or \
+        pyTMD.crs().get(model.projection).is_geographic
+    if is_geographic:
+        # if global: extend limits to cover all longitudes
+        dx = xi[1] - xi[0]
+        if np.isclose(xi[-1] - xi[0], 360.0 - dx):
+            xi = np.concatenate(([xi[0] - dx], xi, [xi[-1] + dx]))
+            mz = np.concatenate((mz[:,-1:], mz, mz[:,:1]), axis=1)
+        X = np.where(X < np.min(xi), X + 360.0, X)
+        X = np.where(X > np.max(xi), X - 360.0, X)
 
     # interpolate masks
     if (METHOD.lower() == 'bilinear'):
-- 
2.43.0


From 89ff6c93ecdeb069d2528d4d68777ad8f0a11e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 069/123] fix: read the grid of ATLAS netCDF models for tide
 masks

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index c6c5d62..7e2af1e 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -750,7 +750,7 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
             pathlib.Path(model.grid_file).expanduser(),
-            compressed=model.compressed, type=model.type)
+            model.type, compressed=model.compressed)
         # copy bathymetry mask
         mz = np.copy(hz.mask)
         # copy latitude and longitude
-- 
2.43.0


From 414c5857709fa3128deddfc67990960bfa9c178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 070/123] fix: allow for round-off of the interpolated tide
 masks

---
 pyTMD/compute.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 7e2af1e..31fa25c 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -798,19 +798,21 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X = np.where(X > np.max(xi), X - 360.0, X)
 
     # interpolate masks
+    # sums of the interpolation weights can be less than 1 by round-off
+    eps = 1e-9
     if (METHOD.lower() == 'bilinear'):
         # replace invalid values with nan
         mz1 = pyTMD.interpolate.bilinear(xi, yi, mz, X, Y, fill_value=1)
-        mask = np.floor(mz1.data).astype(mz.dtype)
+        mask = np.floor(mz1.data + eps).astype(mz.dtype)
     elif (METHOD.lower() == 'spline'):
         f1 = scipy.interpolate.RectBivariateSpline(xi, yi, mz.T,
             kx=1, ky=1)
-        mask = np.floor(f1.ev(X, Y)).astype(mz.dtype)
+        mask = np.floor(f1.ev(X, Y) + eps).astype(mz.dtype)
     else:
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD.lower(), bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
+        mask = np.floor(r1.__call__(np.c_[Y, X]) + eps).astype(mz.dtype)
 
     # replace points outside model domain with invalid
     valid = np.logical_not(mask).astype(mz.dtype)
-- 
2.43.0


From 84a83bc2ef6132f9098dd1cc812a050249a39d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 071/123] fix: forward the deprecated time functions to the
 timescale package

---
 pyTMD/time.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyTMD/time.py b/pyTMD/time.py
index c5400b0..5505e0c 100644
--- a/pyTMD/time.py
+++ b/pyTMD/time.py
@@ -54,6 +54,8 @@ import logging
 import warnings
 import numpy as np
 import timescale.time
+# the class defined below has the name of the package
+import timescale as _timescale
 
 __all__ = [
     "parse",
@@ -109,7 +111,7 @@ def parse(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse",
         DeprecationWarning)
-    return timescale.time.parse(date_string)
+    return _timescale.time.parse(date_string)
 
 # PURPOSE: parse a date string into epoch and units scale
 def parse_date_string(date_string: str):
@@ -133,7 +135,7 @@ def parse_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse_date_string",
         DeprecationWarning)
-    return timescale.time.parse_date_string(date_string)
+    return _timescale.time.parse_date_string(date_string)
 
 # PURPOSE: split a date string into units and epoch
 def split_date_string(date_string: str):
@@ -147,7 +149,7 @@ def split_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.split_date_string",
         DeprecationWarning)
-    return timescale.time.split_date_string(date_string)
+    return _timescale.time.split_date_string(date_string)
 
 # PURPOSE: convert a datetime object into a list
 def datetime_to_list(date):
@@ -166,7 +168,7 @@ def datetime_to_list(date):
     """
     warnings.warn("Deprecated. Please use timescale.time.datetime_to_list",
         DeprecationWarning)
-    return timescale.time.datetime_to_list(date)
+    return _timescale.time.datetime_to_list(date)
 
 # days per month in a leap and a standard year
 # only difference is February (29 vs. 28)
@@ -190,7 +192,7 @@ def calendar_days(year: int | float | np.ndarray) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.calendar_days",
         DeprecationWarning)
-    return timescale.time.calendar_days(year)
+    return _timescale.time.calendar_days(year)
 
 # PURPOSE: convert a numpy datetime array to delta times since an epoch
 def convert_datetime(*args, **kwargs):
@@ -211,7 +213,7 @@ def convert_datetime(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_datetime",
         DeprecationWarning)
-    return timescale.time.convert_datetime(*args, **kwargs)
+    return _timescale.time.convert_datetime(*args, **kwargs)
 
 # PURPOSE: convert times from seconds since epoch1 to time since epoch2
 def convert_delta_time(*args, **kwargs):
@@ -231,7 +233,7 @@ def convert_delta_time(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_delta_time",
         DeprecationWarning)
-    return timescale.time.convert_delta_time(*args, **kwargs)
+    return _timescale.time.convert_delta_time(*args, **kwargs)
 
 # PURPOSE: calculate the delta time from calendar date
 # http://scienceworld.wolfram.com/astronomy/JulianDate.html
@@ -265,7 +267,7 @@ def convert_calendar_dates(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_dates",
         DeprecationWarning)
-    return timescale.time.convert_calendar_dates(*args, **kwargs)
+    return _timescale.time.convert_calendar_dates(*args, **kwargs)
 
 # PURPOSE: Converts from calendar dates into decimal years
 def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
@@ -297,7 +299,7 @@ def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_calendar_decimal(*args, **kwargs)
+    return _timescale.time.convert_calendar_decimal(*args, **kwargs)
 
 # PURPOSE: Converts from Julian day to calendar date and time
 def convert_julian(*args, **kwargs):
@@ -335,7 +337,7 @@ def convert_julian(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_julian(*args, **kwargs)
+    return _timescale.time.convert_julian(*args, **kwargs)
 
 # delta time (TT - UT1) file
 _delta_file = timescale.utilities.get_data_path(['data','merged_deltat.data'])
-- 
2.43.0


From 7f8c6b70989e8f1441363acebaa563162c4ed1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 072/123] fix: iterate over constituents independently of other
 iterations

---
 pyTMD/io/constituents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index e8308f7..ceef0d3 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -289,7 +289,7 @@ class constituents:
         """Iterate over constituents
         """
         self.__index__ = 0
-        return self
+        return ((field, getattr(self, field)) for field in self.fields)
 
     def __next__(self):
         """Get the next constituent
-- 
2.43.0


From d6a6004afa0639c8627c4ebc8df3e4a65ceb8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 073/123] fix: load model definitions from open file handles

---
 pyTMD/io/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f849407..b867400 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -645,7 +645,12 @@ class model:
         kwargs.setdefault('format', 'json')
         # Opening definition file and assigning file ID number
         if isinstance(definition_file, io.IOBase):
-            fid = copy.copy(definition_file)
+            # copy the contents of the file object
+            position = definition_file.tell()
+            contents = definition_file.read()
+            definition_file.seek(position)
+            fid = io.BytesIO(contents) if isinstance(contents, bytes) \
+                else io.StringIO(contents)
         else:
             definition_file = pathlib.Path(definition_file).expanduser()
             fid = definition_file.open(mode='r', encoding='utf8')
-- 
2.43.0


From 28d2385f42659712ef7be466c3aa7e3a366c614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 074/123] fix: complete model paths given as pathlib objects

---
 pyTMD/io/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index b867400..148f185 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -619,9 +619,9 @@ class model:
         if isinstance(model_file, list):
             output_file = [self.pathfinder(f) for f in model_file]
             valid = all([f.exists() for f in output_file])
-        elif isinstance(model_file, str):
+        elif isinstance(model_file, (str, pathlib.Path)):
             output_file = self.directory.joinpath(
-                ''.join([model_file, self.gzip]))
+                ''.join([str(model_file), self.gzip]))
             valid = output_file.exists()
         # check that (all) output files exist
         if self.verify and not valid:
-- 
2.43.0


From 45b0fa323717086ecb71c7550e54a9880c42056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 075/123] fix: export the compression of model files

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 148f185..f08c333 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -881,7 +881,8 @@ class model:
         """
         # default fields
         keys = ['name', 'format', 'type', 'grid_file', 'model_file', 'projection',
-            'variable', 'scale', 'constituents', 'version', 'reference']
+            'variable', 'scale', 'constituents', 'version', 'compressed',
+            'reference']
         # set default keyword arguments
         kwargs.setdefault('fields', keys)
         kwargs.setdefault('serialize', False)
-- 
2.43.0


From ddd2b5dbae54fdbd1f9f32abf52a4e02d9ae21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 076/123] fix: node tide of interpolated constants in output
 units

---
 pyTMD/io/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f08c333..7393b1b 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1124,6 +1124,10 @@ class model:
                 ph = np.broadcast_to(ph[:,None], c.shape, subok=True)
                 amp.mask = np.zeros_like(amp.data, dtype=bool)
                 ph.mask = np.zeros_like(ph.data, dtype=bool)
+            # convert from meters to the units of the model files
+            # (constants are scaled to output units when interpolating)
+            if self.format not in ('OTIS','ATLAS-compact','TMD3'):
+                amp = amp/(self.scale or 1.0)
             # calculate complex phase in radians for Euler's
             cph = -1j*ph*np.pi/180.0
             hc = amp*np.exp(cph)
-- 
2.43.0


From b4d5b8def596407dcf0cdac30fbf1c38cabb08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 077/123] fix: interpolate the constants of the requested type

---
 pyTMD/io/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 7393b1b..c97e99e 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1135,6 +1135,7 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        self._constituents_type = copy.copy(kwargs['type'])
         return c
 
     def interpolate_constants(self,
@@ -1166,8 +1167,9 @@ class model:
         # set default keyword arguments
         kwargs.setdefault('type', self.type)
         kwargs.setdefault('scale', self.scale)
-        # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        # verify constituents have been read for the model type
+        if not hasattr(self, '_constituents') or \
+                (self._constituents_type != kwargs['type']):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From 225be02b9c519fa0a3434743e08344b6037fc9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 078/123] fix: name the constituents of each current component
 by its files

---
 pyTMD/io/model.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index c97e99e..18f93cb 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -940,6 +940,15 @@ class model:
         # return the model parameters
         return self
 
+    def _parse_files(self, model_file: str | pathlib.Path | list) -> list:
+        """
+        Parses tide model file(s) for a list of constituents
+        """
+        if isinstance(model_file, list):
+            return [self.parse_file(f) for f in model_file]
+        else:
+            return [self.parse_file(model_file)]
+
     @staticmethod
     def parse_file(
             model_file: str | pathlib.Path,
@@ -1049,6 +1058,10 @@ class model:
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = copy.copy(self.constituents)
+            # the files of each current component can be in different orders
+            if isinstance(self.model_file, dict) and \
+                    (c == self._parse_files(self.model_file['u'])):
+                c = self._parse_files(model_file)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From 9066b016489f1a0694deb3de789abc5d74d4139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 079/123] fix: serialize empty lists of model files

---
 pyTMD/io/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 18f93cb..ac74cc2 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -912,8 +912,9 @@ class model:
             val = copy.copy(d[key])
             if isinstance(val, pathlib.Path):
                 d[key] = str(val)
-            elif isinstance(val, (list, tuple)) and isinstance(val[0], pathlib.Path):
-                d[key] = [str(v) for v in val]
+            elif isinstance(val, (list, tuple)):
+                d[key] = [str(v) if isinstance(v, pathlib.Path) else v
+                    for v in val]
             elif isinstance(val, dict):
                 d[key] = self.serialize(val)
         # return the model dictionary
-- 
2.43.0


From 373261d3df8f1b3bccec177c13cef873779b2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 080/123] fix: geodetic coordinates at the poles using the
 Moritz method

---
 pyTMD/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..f6a8150 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1830,7 +1830,7 @@ def _moritz_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for phi using h=0
-    phi = np.arctan(z/(p*(1.0 - ecc1**2)))
+    phi = np.arctan2(z, p*(1.0 - ecc1**2))
     # iterate to tolerance or to maximum number of iterations
     i = 0
     while np.any(np.abs(h - h0) > eps) and (i <= iterations):
@@ -1838,10 +1838,10 @@ def _moritz_iterative(
         h0 = np.copy(h)
         # calculate radius of curvature
         N = a_axis/np.sqrt(1.0 - ecc1**2 * np.sin(phi)**2)
-        # estimate new value of height
-        h = p/np.cos(phi) - N
+        # estimate new value of height (also valid near the poles)
+        h = p*np.cos(phi) + z*np.sin(phi) - a_axis**2/N
         # estimate new value for latitude using heights
-        phi = np.arctan(z/(p*(1.0 - ecc1**2*N/(N + h))))
+        phi = np.arctan2(z, p*(1.0 - ecc1**2*N/(N + h)))
         # add to iterator
         i += 1
     # return longitude, latitude and height
-- 
2.43.0


From 217edbb00a7c20ca767c5f2455e6d7ba93c5a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 081/123] fix: geodetic coordinates at the poles using the
 Bowring method

---
 pyTMD/spatial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f6a8150..be779ca 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1891,10 +1891,10 @@ def _bowring_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for reduced parametric latitude
-    u = np.arctan(a_axis*z/(b_axis*p))
+    u = np.arctan2(a_axis*z, b_axis*p)
     # initial estimated value for latitude
-    phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-        (p - e12*a_axis*np.cos(u)**3))
+    phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+        p - e12*a_axis*np.cos(u)**3)
     phi0 = np.inf*np.ones_like(lon)
     # iterate to tolerance or to maximum number of iterations
     i = 0
@@ -1904,8 +1904,8 @@ def _bowring_iterative(
         # calculate reduced parametric latitude
         u = np.arctan(b_axis*np.tan(phi)/a_axis)
         # estimate new value of latitude
-        phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-            (p - e12*a_axis*np.cos(u)**3))
+        phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+            p - e12*a_axis*np.cos(u)**3)
         # add to iterator
         i += 1
     # calculate final radius of curvature
-- 
2.43.0


From bced9660876bff87722b5450a7bb50e24e6deabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 082/123] fix: convert batches with polar points using the Zhu
 closed form

---
 pyTMD/spatial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index be779ca..dda3d84 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1956,12 +1956,12 @@ def _zhu_closed_form(
     h = np.zeros_like(lon)
     if np.any(w == 0):
         # special case where w == 0 (exact polar solution)
-        ind, = np.nonzero(w == 0)
+        ind = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
-    else:
+    if np.any(w != 0):
         # all other cases
-        ind, = np.nonzero(w != 0)
+        ind = np.nonzero(w != 0)
         l = e12/2.0
         m = (w[ind]/a_axis)**2.0
         n = ((1.0 - e12)*z[ind]/b_axis)**2.0
@@ -1972,11 +1972,11 @@ def _zhu_closed_form(
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
             np.sign(m - n)*np.sqrt((B - i)/2.0)
-        wi = w/(t + l)
+        wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
         lat[ind] = np.arctan2(zi, ((1.0 - e12)*wi))/dtr
-        h[ind] = np.sign(t-1.0+l)*np.sqrt((w-wi)**2.0 + (z[ind]-zi)**2.0)
+        h[ind] = np.sign(t-1.0+l)*np.sqrt((w[ind]-wi)**2.0 + (z[ind]-zi)**2.0)
     # return longitude, latitude and height
     return (lon, lat, h)
 
-- 
2.43.0


From cefce8e3475ff26aa779e4739df96ac17cb61347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 083/123] fix: local coordinates with arrays of reference
 points

---
 pyTMD/spatial.py | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index dda3d84..9c2acc5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -2031,19 +2031,14 @@ def to_ENU(
     z = np.atleast_1d(np.copy(z)).astype(np.float64)
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
-    # calculate the rotation matrix
-    R = np.zeros((3, 3))
-    R[0,0] = -np.sin(dtr*lon0)
-    R[0,1] = np.cos(dtr*lon0)
-    R[0,2] = 0.0
-    R[1,0] = -np.sin(dtr*lat0)*np.cos(dtr*lon0)
-    R[1,1] = -np.sin(dtr*lat0)*np.sin(dtr*lon0)
-    R[1,2] = np.cos(dtr*lat0)
-    R[2,0] = np.cos(dtr*lat0)*np.cos(dtr*lon0)
-    R[2,1] = np.cos(dtr*lat0)*np.sin(dtr*lon0)
-    R[2,2] = np.sin(dtr*lat0)
+    # calculate the rotation terms at each reference point
+    slon, clon = np.sin(dtr*lon0), np.cos(dtr*lon0)
+    slat, clat = np.sin(dtr*lat0), np.cos(dtr*lat0)
     # calculate the ENU coordinates
-    E, N, U = np.dot(R, np.vstack((x - X0, y - Y0, z - Z0)))
+    dx, dy, dz = (x - X0, y - Y0, z - Z0)
+    E = -slon*dx + clon*dy
+    N = -slat*clon*dx - slat*slon*dy + clat*dz
+    U = clat*clon*dx + clat*slon*dy + slat*dz
     # return the ENU coordinates
     # flattened to singular values if necessary
     if singular_values:
@@ -2102,23 +2097,13 @@ def from_ENU(
     U = np.atleast_1d(np.copy(U)).astype(np.float64)
     # convert latitude and longitude to ECEF
     X0, Y0, Z0 = to_cartesian(lon0, lat0, h=h0, a_axis=a_axis, flat=flat)
-    # calculate the rotation matrix
-    R = np.zeros((3, 3))
-    R[0,0] = -np.sin(dtr*lon0)
-    R[1,0] = np.cos(dtr*lon0)
-    R[2,0] = 0.0
-    R[0,1] = -np.sin(dtr*lat0)*np.cos(dtr*lon0)
-    R[1,1] = -np.sin(dtr*lat0)*np.sin(dtr*lon0)
-    R[2,1] = np.cos(dtr*lat0)
-    R[0,2] = np.cos(dtr*lat0)*np.cos(dtr*lon0)
-    R[1,2] = np.cos(dtr*lat0)*np.sin(dtr*lon0)
-    R[2,2] = np.sin(dtr*lat0)
-    # calculate the ECEF coordinates
-    x, y, z = np.dot(R, np.vstack((E, N, U)))
-    # add reference coordinates
-    x += X0
-    y += Y0
-    z += Z0
+    # calculate the rotation terms at each reference point
+    slon, clon = np.sin(dtr*lon0), np.cos(dtr*lon0)
+    slat, clat = np.sin(dtr*lat0), np.cos(dtr*lat0)
+    # calculate the ECEF coordinates from the reference coordinates
+    x = X0 - slon*E - slat*clon*N + clat*clon*U
+    y = Y0 + clon*E - slat*slon*N + clat*slon*U
+    z = Z0 + clat*N + slat*U
     # return the ECEF coordinates
     # flattened to singular values if necessary
     if singular_values:
-- 
2.43.0


From 1297dd7e975f3a25d4a9cead64e43d2d211c81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 084/123] fix: do not modify latitudes when converting between
 ellipsoids

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 9c2acc5..e63c4bb 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1413,6 +1413,8 @@ def convert_ellipsoid(
     """
     if (len(phi1) != len(h1)):
         raise ValueError('phi and h have incompatible dimensions')
+    # copy latitudes to not modify the original values
+    phi1 = np.copy(phi1)
     # semiminor axis of input and output ellipsoid
     b1 = (1.0 - f1)*a1
     b2 = (1.0 - f2)*a2
-- 
2.43.0


From 47cbfb2c7ce4085dac5d736b37ffed4cb90c84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 085/123] fix: polar stereographic scale factors with true
 scale at the pole

---
 pyTMD/spatial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e63c4bb..70891dd 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -2250,9 +2250,13 @@ def scale_factors(
     mref = np.cos(theta_ref)/np.sqrt(1.0 - ecc2*np.sin(theta_ref)**2)
     tref = np.tan(np.pi/4.0 - theta_ref/2.0)/((1.0 - ecc*np.sin(theta_ref)) / \
         (1.0 + ecc*np.sin(theta_ref)))**(ecc/2.0)
+    # ratio of t and m in the limit of the pole
+    tm_pole = 0.5*np.sqrt(((1.0+ecc)**(1.0+ecc))*((1.0-ecc)**(1.0-ecc)))
+    # ratio of m and t at the reference latitude
+    mt_ref = 1.0/tm_pole if np.isclose(theta_ref, np.pi/2.0) else mref/tref
     # distance scaling
-    k = (mref/m)*(t/tref)
-    kp = 0.5*mref*np.sqrt(((1.0+ecc)**(1.0+ecc))*((1.0-ecc)**(1.0-ecc)))/tref
+    k = mt_ref*(t/m)
+    kp = mt_ref*tm_pole
     if (metric.lower() == 'distance'):
         # distance scaling
         scale = np.where(np.isclose(theta, np.pi/2.0), 1.0/kp, 1.0/k)
-- 
2.43.0


From ede35d4c0d6340f0c0e573e752bacfa9c12c580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 086/123] fix: decimal degrees of angles smaller than one
 degree

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 70891dd..62d962a 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1621,7 +1621,8 @@ def from_dms(
     d: np.ndarray
         decimal degrees
     """
-    sign = np.sign(degree)
+    # sign of the angle (including for angles between -1 and 1 degrees)
+    sign = np.copysign(1.0, degree)
     d = np.abs(degree) + minute/60.0 + second/3600.0
     return sign*d
 
-- 
2.43.0


From 894f4e606931e7f54f46e19f7e1a5c3162106e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 087/123] fix: match complete file names without case
 dependence

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 62d962a..33d0e4c 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -177,7 +177,7 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     if not filename.exists():
         # search for filename without case dependence
         f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+            (filename.name.lower() == f.name.lower())]
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From 1ba0bdd5f4f245f8938f0e0feaf47d0fea5a6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 088/123] fix: decode ascii files from byte streams as from
 paths

---
 pyTMD/spatial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 33d0e4c..093c186 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -282,10 +282,14 @@ def from_ascii(filename: str, **kwargs):
         # read input ascii data from gzip compressed file and split lines
         filename = case_insensitive_filename(filename)
         with gzip.open(filename, 'r') as f:
-            file_contents = f.read().decode('ISO-8859-1').splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = filename.read()
+        # decode contents of binary file objects
+        if isinstance(file_contents, bytes):
+            file_contents = file_contents.decode('utf8')
+        file_contents = file_contents.splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
-- 
2.43.0


From 310ed7e370d5576b06fbd618755059933bd3abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 089/123] fix: only convert fortran exponents in numerical
 columns

---
 pyTMD/spatial.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 093c186..f346452 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -346,17 +346,15 @@ def from_ascii(filename: str, **kwargs):
         # extract columns of interest and assign to dict
         # convert fortran exponentials if applicable
         if kwargs['delimiter']:
-            column = {c:l.replace('D', 'E') for c, l in
-                zip(columns, line.split(kwargs['delimiter']))}
+            column = dict(zip(columns, line.split(kwargs['delimiter'])))
         else:
-            column = {c:r.replace('D', 'E') for c, r in
-                zip(columns, rx.findall(line))}
+            column = dict(zip(columns, rx.findall(line)))
         # copy variables from column dict to output dictionary
         for c in columns:
             if (c == 'time') and kwargs['parse_dates']:
                 dinput[c][i] = timescale.time.parse(column[c])
             else:
-                dinput[c][i] = np.float64(column[c])
+                dinput[c][i] = np.float64(column[c].replace('D', 'E'))
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-- 
2.43.0


From 5595aaf6f941c3dc221d52890acde38c32393530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 090/123] fix: mask missing values for text and not-a-number
 fill values

---
 pyTMD/spatial.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f346452..0c05a72 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -248,6 +248,26 @@ def from_file(filename: str, format: str, **kwargs):
         raise ValueError(f'Invalid format {format}')
     return dinput
 
+def _mask_fill_value(data: np.ndarray, fill_value):
+    """
+    Create a masked array with the fill values of a file
+
+    Parameters
+    ----------
+    data: np.ndarray
+        data values
+    fill_value: float or str
+        fill value (can be NaN)
+    """
+    data = np.ma.asarray(data)
+    # convert the fill value to the data type of the array
+    fill_value = np.asarray(fill_value).astype(data.dtype)
+    data.fill_value = fill_value
+    # not-a-number values are not equal to themselves
+    data.mask = (data.data == fill_value) | \
+        ((data.data != data.data) & (fill_value != fill_value))
+    return data
+
 def from_ascii(filename: str, **kwargs):
     """
     Read data from an ascii file
@@ -357,9 +377,8 @@ def from_ascii(filename: str, **kwargs):
                 dinput[c][i] = np.float64(column[c].replace('D', 'E'))
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = _mask_fill_value(dinput['data'],
+            dinput['attributes']['data']['_FillValue'])
     # return the spatial variables
     return dinput
 
@@ -465,9 +484,8 @@ def from_netCDF4(filename: str, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = _mask_fill_value(dinput['data'],
+            dinput['attributes']['data']['_FillValue'])
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
@@ -576,9 +594,8 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = _mask_fill_value(dinput['data'],
+            dinput['attributes']['data']['_FillValue'])
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
@@ -674,9 +691,8 @@ def from_geotiff(filename: str, **kwargs):
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
     if ds.GetRasterBand(1).GetNoDataValue():
         # mask invalid values
-        dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
-        # create mask array for bad values
-        dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = _mask_fill_value(dinput['data'],
+            ds.GetRasterBand(1).GetNoDataValue())
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
-- 
2.43.0


From db19b985f5cfdabac44463de23d8f71d0e61191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 091/123] fix: mask geotiff values with a fill value of zero

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 0c05a72..a00c110 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -689,7 +689,7 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
         # mask invalid values
         dinput['data'] = _mask_fill_value(dinput['data'],
             ds.GetRasterBand(1).GetNoDataValue())
-- 
2.43.0


From ac037f3f07a852ef02365aab299fe870cb0f191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 092/123] fix: match complete netCDF4 attribute names

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a00c110..d77dcb5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -435,7 +435,7 @@ def from_netCDF4(filename: str, **kwargs):
     for attr in ['title', 'description', 'projection']:
         # try getting the attribute
         try:
-            ncattr, = [s for s in fileID.ncattrs() if re.match(attr, s, re.I)]
+            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
             dinput['attributes'][attr] = fileID.getncattr(ncattr)
         except (ValueError, AttributeError):
             pass
@@ -462,7 +462,7 @@ def from_netCDF4(filename: str, **kwargs):
             # try getting the attribute
             try:
                 ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.match(attr, s, re.I)]
+                    if re.fullmatch(attr, s, re.I)]
                 dinput['attributes'][key][attr] = \
                     group.variables[nc].getncattr(ncattr)
             except (ValueError, AttributeError):
-- 
2.43.0


From 877d9053dbdd99b2c3f1d15cf55fe4002fc8e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 093/123] fix: read compressed HDF5 files from path strings

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index d77dcb5..453c9e5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -529,7 +529,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From 977e926aa9a9365c08837fdc47e988321535c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 094/123] fix: read scalar HDF5 variables

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 453c9e5..ed536a5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -569,7 +569,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     # for each variable
     for key, h5 in kwargs['field_mapping'].items():
         # Getting the data from each HDF5 variable
-        dinput[key] = np.copy(group[h5][:])
+        dinput[key] = np.copy(group[h5][()])
         # get attributes for the included variables
         dinput['attributes'][key] = {}
         for attr in attributes_list:
-- 
2.43.0


From f60f8aea9edad679f980b4eba0f7855360b05ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 095/123] fix: keep missing values when writing HDF5, ascii and
 geotiff files

---
 pyTMD/spatial.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index ed536a5..bd486a8 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -820,6 +820,22 @@ def to_file(
     else:
         raise ValueError(f'Invalid format {format}')
 
+def _fill_missing(data: np.ndarray, attributes: dict):
+    """
+    Replace the masked values of a variable with its fill value
+
+    Parameters
+    ----------
+    data: np.ndarray
+        data values
+    attributes: dict
+        variable attributes
+    """
+    if np.ma.isMaskedArray(data) and ('_FillValue' in attributes.keys()):
+        return data.filled(attributes['_FillValue'])
+    else:
+        return data
+
 def to_ascii(
         output: dict,
         attributes: dict,
@@ -856,7 +872,8 @@ def to_ascii(
     # open the output file
     fid = filename.open(mode='w', encoding='utf8')
     # create a column stack arranging data in column order
-    data_stack = np.c_[[output[col] for col in columns]]
+    data_stack = np.c_[[_fill_missing(output[col], attributes.get(col, {}))
+        for col in columns]]
     ncol, nrow = np.shape(data_stack)
     # print YAML header to top of file
     if kwargs['header']:
@@ -1107,13 +1124,14 @@ def to_HDF5(
     # Defining the HDF5 dataset variables
     h5 = {}
     for key, val in output.items():
+        # fill values for missing data
+        val = _fill_missing(val, attributes[key])
         if key in fileID:
             fileID[key][...] = val[:]
         elif '_FillValue' in attributes[key].keys():
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-            attributes[key].pop('_FillValue')
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
@@ -1202,7 +1220,8 @@ def to_geotiff(
             fill_value = attributes[varname]['_FillValue']
             ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
         # write band to geotiff array
-        ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
+        val = _fill_missing(output[varname], attributes[varname])
+        ds.GetRasterBand(band+1).WriteArray(val[:, :, band])
     # print filename if verbose
     logging.info(str(filename))
     # close dataset
-- 
2.43.0


From be9a70a5166175e05a1c1b152ef69b894ad8cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 096/123] fix: write scalars and existing variables to HDF5
 files

---
 pyTMD/spatial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index bd486a8..5d2a6ee 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1127,7 +1127,8 @@ def to_HDF5(
         # fill values for missing data
         val = _fill_missing(val, attributes[key])
         if key in fileID:
-            fileID[key][...] = val[:]
+            h5[key] = fileID[key]
+            h5[key][...] = val
         elif '_FillValue' in attributes[key].keys():
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
@@ -1136,7 +1137,7 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From d9edd4a01dfcda8f38405c86249d19099057656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 097/123] fix: do not remove fill values from attributes when
 writing netCDF4 files

---
 pyTMD/spatial.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 5d2a6ee..704e68e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -990,7 +990,6 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('time',),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
@@ -999,7 +998,9 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1032,7 +1033,6 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 3):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
@@ -1049,7 +1049,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
@@ -1081,7 +1083,6 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
         elif val.shape and (len(val) == nt):
@@ -1094,7 +1095,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-            nc[key].setncattr(att_name, att_val)
+            # fill values are set when creating the variable
+            if (att_name != '_FillValue'):
+                nc[key].setncattr(att_name, att_val)
 
 def to_HDF5(
         output: dict,
-- 
2.43.0


From 1472059442f9ecdb8b436aed761a8791eede9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 098/123] fix: write to existing netCDF4 files

---
 pyTMD/spatial.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 704e68e..481d670 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -966,6 +966,24 @@ def to_netCDF4(
     # Closing the NetCDF file
     fileID.close()
 
+def _dimension_netCDF4(fileID, name: str, size: int):
+    """
+    Define a netCDF4 dimension if it is not already within the file
+
+    Parameters
+    ----------
+    fileID: obj
+        open netCDF4 file object
+    name: str
+        dimension name
+    size: int
+        dimension size
+    """
+    if name not in fileID.dimensions:
+        fileID.createDimension(name, size)
+    elif (len(fileID.dimensions[name]) != size):
+        raise ValueError(f'Incompatible size for dimension {name}')
+
 def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
     Write drift data variables to a netCDF4 file object
@@ -981,7 +999,7 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
 
     # Defining the NetCDF dimensions
-    fileID.createDimension('time', len(np.atleast_1d(output['time'])))
+    _dimension_netCDF4(fileID, 'time', len(np.atleast_1d(output['time'])))
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -1022,9 +1040,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 3]
     ny, nx, nt = output[reference_fields[0]].shape
-    fileID.createDimension('y', ny)
-    fileID.createDimension('x', nx)
-    fileID.createDimension('time', nt)
+    _dimension_netCDF4(fileID, 'y', ny)
+    _dimension_netCDF4(fileID, 'x', nx)
+    _dimension_netCDF4(fileID, 'time', nt)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
@@ -1073,8 +1091,8 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 2]
     nstation, nt = output[reference_fields[0]].shape
-    fileID.createDimension('station', nstation)
-    fileID.createDimension('time', nt)
+    _dimension_netCDF4(fileID, 'station', nstation)
+    _dimension_netCDF4(fileID, 'time', nt)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
-- 
2.43.0


From c6f88169cefa641c05fe554282ab38683f585c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 099/123] fix: write netCDF4 coordinates and grids that have
 fill values

---
 pyTMD/spatial.py | 67 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 481d670..15226d0 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -984,6 +984,28 @@ def _dimension_netCDF4(fileID, name: str, size: int):
     elif (len(fileID.dimensions[name]) != size):
         raise ValueError(f'Incompatible size for dimension {name}')
 
+def _variable_netCDF4(fileID, name: str, dtype, dimensions, attributes: dict):
+    """
+    Define a netCDF4 variable with a fill value if one is in its attributes
+
+    Parameters
+    ----------
+    fileID: obj
+        open netCDF4 file object
+    name: str
+        variable name
+    dtype: obj
+        variable data type
+    dimensions: tuple
+        variable dimensions
+    attributes: dict
+        variable attributes
+    """
+    kwds = {}
+    if '_FillValue' in attributes.keys():
+        kwds.update(fill_value=attributes['_FillValue'], zlib=bool(dimensions))
+    return fileID.createVariable(name, dtype, dimensions, **kwds)
+
 def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
     Write drift data variables to a netCDF4 file object
@@ -1005,13 +1027,12 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
         elif val.shape:
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('time',),
+                attributes[key])
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, (),
+                attributes[key])
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
@@ -1048,21 +1069,24 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
         elif (val.ndim == 3):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('y', 'x', 'time'),
+                attributes[key])
         elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('y', 'x'),
+                attributes[key])
         elif val.shape and (len(val) == ny):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y',))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('y',),
+                attributes[key])
         elif val.shape and (len(val) == nx):
-            nc[key] = fileID.createVariable(key, val.dtype, ('x',))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('x',),
+                attributes[key])
         elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('time',),
+                attributes[key])
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, (),
+                attributes[key])
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
@@ -1098,17 +1122,18 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
         elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('station', 'time'),
+                attributes[key])
         elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('time',),
+                attributes[key])
         elif val.shape and (len(val) == nstation):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station',))
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, ('station',),
+                attributes[key])
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = _variable_netCDF4(fileID, key, val.dtype, (),
+                attributes[key])
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
-- 
2.43.0


From 2612004ac8c2f977aa27044d639311a5b1710722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 100/123] fix: write HDF5 scalars that have fill values

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 15226d0..9b245b7 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1175,7 +1175,7 @@ def to_HDF5(
         if key in fileID:
             h5[key] = fileID[key]
             h5[key][...] = val
-        elif '_FillValue' in attributes[key].keys():
+        elif ('_FillValue' in attributes[key].keys()) and val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-- 
2.43.0


From d76ab8bb1813d3b1ca376146be9a966c32db2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 101/123] fix: quote attributes in YAML headers

---
 pyTMD/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 9b245b7..f421c14 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -896,6 +896,9 @@ def to_ascii(
         for i, v in enumerate(columns):
             fid.write('    {0:22}:\n'.format(v))
             for atn, atv in attributes[v].items():
+                # quote strings that would not be plain text in YAML
+                if isinstance(atv, str):
+                    atv = json.dumps(atv, ensure_ascii=False)
                 fid.write('      {0:20}: {1}\n'.format(atn, atv))
             # add precision and column attributes for ascii yaml header
             fid.write('      {0:20}: double_precision\n'.format('precision'))
-- 
2.43.0


From f672be026400212dcf0b0a556a1723a1bad11ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 102/123] fix: do not modify attributes when writing parquet
 files

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index f421c14..10070dd 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1315,6 +1315,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # copy attributes to not modify the original values
+    attributes = copy.copy(attributes)
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
-- 
2.43.0


From 7e0b30f8164ff419f2bfafc92ea5956cbe8231d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 103/123] fix: read parquet files without a coordinate
 reference system

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 10070dd..67924b9 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -756,7 +756,7 @@ def from_parquet(filename: str, **kwargs):
         # add projection information to attributes
         attr['projection'] = srs.ExportToProj4()
         attr['wkt'] = srs.ExportToWkt()
-    elif 'pyTMD' in attr.keys():
+    elif ('pyTMD' in attr.keys()) and ('crs' in attr['pyTMD'].keys()):
         # extract crs from pyTMD metadata
         crs_metadata = attr['pyTMD']['crs']
         # create spatial reference object from PROJJSON
-- 
2.43.0


From b4b8c939fc8043e44035f0751c62bb4747f502cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 104/123] fix: do not modify data when writing geotiff files

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 67924b9..1b04db8 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1243,7 +1243,7 @@ def to_geotiff(
     kwargs.setdefault('options', ['COMPRESS=LZW'])
     varname = copy.copy(kwargs['varname'])
     # verify grid dimensions to be iterable
-    output = expand_dims(output, varname=varname)
+    output = expand_dims(copy.copy(output), varname=varname)
     # grid shape
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
-- 
2.43.0


From 4e4cd62b006ce5466f21b6cd5278ac03b9f7c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 105/123] fix: write cloud optimized geotiffs

---
 pyTMD/spatial.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 1b04db8..697722c 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1250,8 +1250,14 @@ def to_geotiff(
     driver = osgeo.gdal.GetDriverByName(kwargs['driver'])
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
-    ds = driver.Create(str(filename), nx, ny, nband,
-        kwargs['dtype'], kwargs['options'])
+    # drivers without a creation method (such as cog) copy from memory
+    create_copy = driver.GetMetadataItem('DCAP_CREATE') is None
+    if create_copy:
+        mem = osgeo.gdal.GetDriverByName('MEM')
+        ds = mem.Create('', nx, ny, nband, kwargs['dtype'])
+    else:
+        ds = driver.Create(str(filename), nx, ny, nband,
+            kwargs['dtype'], kwargs['options'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
     xmin, xmax, ymin, ymax = attributes['extent']
@@ -1274,8 +1280,12 @@ def to_geotiff(
         ds.GetRasterBand(band+1).WriteArray(val[:, :, band])
     # print filename if verbose
     logging.info(str(filename))
+    # copy dataset to output file
+    if create_copy:
+        ds = driver.CreateCopy(str(filename), ds, options=kwargs['options'])
     # close dataset
     ds.FlushCache()
+    ds = None
 
 def to_parquet(
         output: dict,
-- 
2.43.0


From af381b1a20008f2781e8a045c3ee2f02f1205b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 106/123] fix: unix times of other date formats independent of
 the local time zone

---
 pyTMD/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..a4842ed 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -68,6 +68,7 @@ import posixpath
 import subprocess
 import lxml.etree
 import calendar, time
+import datetime
 import dateutil.parser
 if sys.version_info[0] == 2:
     from urllib import quote_plus
@@ -409,6 +410,9 @@ def get_unix_time(
     except (TypeError, ValueError):
         return None
     else:
+        # times without a time zone are in UTC
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=datetime.timezone.utc)
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From e59408508877c6f89a871f75900ac2cb27ef0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 107/123] fix: unix times of formats with an offset from UTC

---
 pyTMD/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index a4842ed..55d7b6b 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -403,7 +403,8 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # offset from UTC (if within the formatted date string)
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-- 
2.43.0


From bde011010d116f28b6afaa35401b1ffd50063888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 108/123] fix: refuse incomplete downloads

---
 pyTMD/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 55d7b6b..55f7984 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -884,6 +884,11 @@ def from_http(
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
         remote_buffer.seek(0)
+        # check that the complete file was downloaded
+        length = response.headers.get('Content-Length')
+        if length and (int(length) != remote_buffer.getbuffer().nbytes):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
         # generate checksum hash for remote file
@@ -1450,6 +1455,11 @@ def from_cddis(
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
         remote_buffer.seek(0)
+        # check that the complete file was downloaded
+        length = response.headers.get('Content-Length')
+        if length and (int(length) != remote_buffer.getbuffer().nbytes):
+            raise Exception('Incomplete download from {0}'.format(
+                posixpath.join(*HOST)))
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
         # generate checksum hash for remote file
-- 
2.43.0


From 270375538a4c77a2b16010979a4d3e43e04dfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 109/123] fix: modification times of ftp files with fractions
 of seconds

---
 pyTMD/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 55f7984..06f9faa 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -578,7 +578,7 @@ def ftp_list(
                 pass
             else:
                 # convert the modification time into unix time
-                mtimes[i] = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+                mtimes[i] = get_unix_time(mdtm[4:18], format="%Y%m%d%H%M%S")
         # reduce to basenames
         if basename:
             output = [posixpath.basename(i) for i in output]
@@ -670,7 +670,7 @@ def from_ftp(
         remote_hash = hashlib.md5(remote_buffer.getvalue()).hexdigest()
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {ftp_remote_path}')
-        remote_mtime = get_unix_time(mdtm[4:], format="%Y%m%d%H%M%S")
+        remote_mtime = get_unix_time(mdtm[4:18], format="%Y%m%d%H%M%S")
         # compare checksums
         if local and (hash != remote_hash):
             # convert to absolute path
-- 
2.43.0


From 6de4e7d2efdfa22f6b51741a4144d63a0b899823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 110/123] fix: return None for numbers that are not dates

---
 pyTMD/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 06f9faa..3da0fda 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -408,7 +408,7 @@ def get_unix_time(
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return None
     else:
         # times without a time zone are in UTC
@@ -429,7 +429,7 @@ def isoformat(time_string: str):
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return None
     else:
         return parsed_time.isoformat()
-- 
2.43.0


From bb4d119a27b85c0a73a5a50b7bc096247c64db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 111/123] fix: read csv files by the default column names in
 the programs

---
 scripts/compute_LPET_elevations.py   | 4 +++-
 scripts/compute_LPT_displacements.py | 4 +++-
 scripts/compute_OPT_displacements.py | 4 +++-
 scripts/compute_SET_displacements.py | 4 +++-
 scripts/compute_tidal_currents.py    | 4 +++-
 scripts/compute_tidal_elevations.py  | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..d476e7e 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -160,7 +160,9 @@ def compute_LPET_elevations(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # geographic coordinates are the x and y coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..102f4bc 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -184,7 +184,9 @@ def compute_LPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # geographic coordinates are the x and y coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..edb596f 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -204,7 +204,9 @@ def compute_OPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # geographic coordinates are the x and y coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..5f0605c 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -182,7 +182,9 @@ def compute_SET_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # geographic coordinates are the x and y coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..5326ac1 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -251,7 +251,9 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # geographic coordinates are the x and y coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..887dbd4 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -259,7 +259,9 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # geographic coordinates are the x and y coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
-- 
2.43.0


From cca812dcbdfbd01597be37e87e63da83603adb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 112/123] fix: compute the solid earth tides of gridded files
 for the requested day

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 5f0605c..0ea0041 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -278,7 +278,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 8ca953164770b795f9e89d00f2fcda2749068f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 113/123] fix: compute the solid earth tides of gridded files

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 0ea0041..cb84f57 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -247,7 +247,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
-- 
2.43.0


From 14cfc3a447b67fcfd43bfab02c502c3e9a98c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 114/123] fix: write tides of definition files that name no
 reference

---
 scripts/compute_tidal_currents.py   | 4 ++--
 scripts/compute_tidal_elevations.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 5326ac1..0d8bf97 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -399,7 +399,7 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # zonal tidal currents
     attrib['u'] = {}
     attrib['u']['description'] = model.description['u']
-    attrib['u']['reference'] = model.reference
+    attrib['u']['reference'] = model.reference or ''
     attrib['u']['model'] = model.name
     attrib['u']['units'] = 'cm/s'
     attrib['u']['long_name'] = model.long_name['u']
@@ -407,7 +407,7 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # meridional tidal currents
     attrib['v'] = {}
     attrib['v']['description'] = model.description['v']
-    attrib['v']['reference'] =  model.reference
+    attrib['v']['reference'] = model.reference or ''
     attrib['v']['model'] = model.name
     attrib['v']['units'] = 'cm/s'
     attrib['v']['long_name'] = model.long_name['v']
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 887dbd4..a3844e4 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -405,7 +405,7 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     output_variable = model.variable
     attrib[output_variable] = {}
     attrib[output_variable]['description'] = model.description
-    attrib[output_variable]['reference'] = model.reference
+    attrib[output_variable]['reference'] = model.reference or ''
     attrib[output_variable]['model'] = model.name
     attrib[output_variable]['units'] = 'meters'
     attrib[output_variable]['long_name'] = model.long_name
-- 
2.43.0


From 207d52544ac8ef3300fce9f5572a08876d181c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 115/123] fix: write the grids of masked arrays to OTIS files

---
 pyTMD/io/OTIS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 21c5b70..d9653e7 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1814,6 +1814,9 @@ def output_otis_grid(
         np.array(iob, dtype='>i4').tofile(fid)
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
+    # replace invalid values of masked arrays (land)
+    hz = np.ma.filled(hz, 0)
+    mz = np.ma.filled(mz, 0)
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-- 
2.43.0


From 0a7f5daf6286e0fc4fe7922670bc8cce42114782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 116/123] fix: longitudes of points for each file of FES and
 GOT models

---
 pyTMD/io/FES.py | 4 +++-
 pyTMD/io/GOT.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index faa2ddc..b684f25 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -230,6 +230,8 @@ def extract_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
+    # original longitudes (model files can have different conventions)
+    xlon = np.copy(ilon)
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
@@ -273,7 +275,7 @@ def extract_constants(
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
         # adjust longitudinal convention of each point to fit tide model
-        ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+        ilon = np.where(xlon < np.min(lon), xlon + 360.0, xlon)
         ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index d4066ce..a992ef3 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -203,6 +203,8 @@ def extract_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
+    # original longitudes (model files can have different conventions)
+    xlon = np.copy(ilon)
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
@@ -249,7 +251,7 @@ def extract_constants(
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
         # adjust longitudinal convention of each point to fit tide model
-        ilon = np.where(ilon < np.min(lon), ilon + 360.0, ilon)
+        ilon = np.where(xlon < np.min(lon), xlon + 360.0, xlon)
         ilon = np.where(ilon > np.max(lon), ilon - 360.0, ilon)
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
-- 
2.43.0


From 55013d58762f43e81aa4af9b70d1db6a0db506eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:11 +0000
Subject: [PATCH 117/123] fix: use the files of the tide model when reducing
 OTIS models

---
 scripts/reduce_OTIS_files.py | 42 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 0ccfa48..00efa6a 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -89,10 +89,6 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         model = pyTMD.io.model(directory=tide_dir).elevation(TIDE_MODEL)
     except Exception as exc:
         model = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
-    # directionaries with input and output files
-    model_file = {}
-    new_model_file = {}
-
     # read the OTIS-format tide grid file
     if (model.format == 'ATLAS-compact'):
         # if reading a global solution with localized solutions
@@ -143,63 +139,69 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     # reduce elevation files to bounds
     try:
         # get parameters for tide model
-        model = model.elevation(TIDE_MODEL)
+        model = pyTMD.io.model(directory=tide_dir).elevation(TIDE_MODEL)
     except Exception as exc:
-        pass
+        model_files = []
     else:
+        model_files = np.atleast_1d(model.model_file)
+    # for each elevation file
+    for model_file in model_files:
         # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['z'])
+        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file)
         z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         for i,c in enumerate(constituents):
             # read constituent from elevation file
             if (model.format == 'ATLAS-compact'):
                 z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
-                    model_file['z'], i, c)
+                    model_file, i, c)
                 xi,yi,z=pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0, pmask,
                     zlocal, variable='z')
             else:
-                z = pyTMD.io.OTIS.read_otis_elevation(model_file['z'], i)
+                z = pyTMD.io.OTIS.read_otis_elevation(model_file, i)
             # reduce elevation to new bounds
             z1[:,:,i] = z[indy,indx].reshape(ny,nx)
         # output reduced elevation components
-        new_model_file['z'] = create_unique_filename(model_file['z'])
-        pyTMD.io.OTIS.output_otis_elevation(new_model_file['z'], z1,
+        new_model_file = create_unique_filename(model_file)
+        pyTMD.io.OTIS.output_otis_elevation(new_model_file, z1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
-        new_model_file['z'].chmod(mode=MODE)
+        new_model_file.chmod(mode=MODE)
 
     # combine ATLAS sub-grids into single output grid
     # reduce transport files to bounds
     try:
         # get parameters for tide model
-        model = model.current(TIDE_MODEL)
+        model = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
     except Exception as exc:
-        pass
+        model_files = []
     else:
+        model_files = np.atleast_1d(model.model_file['u'])
+    # for each transport file
+    for model_file in model_files:
         # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['u'])
+        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file)
         u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
         for i,c in enumerate(constituents):
             # read constituent from transport file
             if (model.format == 'ATLAS-compact'):
                 u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
-                    model_file['u'], i, c)
+                    model_file, i, c)
                 xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0, pmask,
                     uvlocal, variable='u')
                 xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0, pmask,
                     uvlocal, variable='v')
             else:
-                u,v = pyTMD.io.OTIS.read_otis_transport(model_file['u'],i)
+                u,v = pyTMD.io.OTIS.read_otis_transport(model_file,i)
             # reduce transport components to new bounds
             u1[:,:,i] = u[indy,indx].reshape(ny,nx)
             v1[:,:,i] = v[indy,indx].reshape(ny,nx)
         # output reduced transport components
-        new_model_file['uv'] = create_unique_filename(model_file['u'])
-        pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
+        new_model_file = create_unique_filename(model_file)
+        pyTMD.io.OTIS.output_otis_transport(new_model_file, u1, v1,
             xlim, ylim, constituents)
         # change the permissions level to MODE
-        new_model_file['u'].chmod(mode=MODE)
+        new_model_file.chmod(mode=MODE)
 
 # PURPOSE: create a unique filename adding a numerical instance if existing
 def create_unique_filename(filename):
-- 
2.43.0


From 736fbff8d6d287c7146a76e9ee963427e3c4441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 118/123] fix: prompt for the password when reattempting an
 Earthdata login

---
 pyTMD/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 3da0fda..85f3600 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1030,6 +1030,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From c417fea88d9665a2465efdb5756a9bff4c983fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 119/123] fix: maps without a control for the marker

---
 pyTMD/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/tools.py b/pyTMD/tools.py
index 9616eb6..a265077 100644
--- a/pyTMD/tools.py
+++ b/pyTMD/tools.py
@@ -191,6 +191,7 @@ class leaflet:
         kwargs.setdefault('scale_control',False)
         kwargs.setdefault('cursor_control',True)
         kwargs.setdefault('layer_control',True)
+        kwargs.setdefault('marker_control',False)
         kwargs.setdefault('center',(39,-108))
         # create basemap in projection
         if (projection == 'Global'):
-- 
2.43.0


From 83060889c431183d7c12c0b340d16eccc92c584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 120/123] fix: raise the error of unknown projections

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index aba0ce1..b3940b9 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -141,7 +141,7 @@ class crs:
         else:
             return self
         # projection not found or available
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Unknown projection: {PROJ}')
 
     def transform(self,
             i1: np.ndarray,
@@ -212,7 +212,7 @@ class crs:
         else:
             return CRS
         # no projection can be made
-        raise pyproj.exceptions.CRSError
+        raise pyproj.exceptions.CRSError(f'Unknown projection: {PROJECTION}')
 
     @property
     def direction(self):
-- 
2.43.0


From 16419f5905d8a1a31f631175b797d9cda38f6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 121/123] fix: download the velocities of FES2014

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 41f6933..3dc80d2 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -206,8 +206,8 @@ def aviso_fes_tar(MODEL, f, logger,
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
         FES['FES2014'].append([subdir,'eastward_velocity.tar.xz'])
         FES['FES2014'].append([subdir,'northward_velocity.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
 
     # for each file for a model
     for remotepath,tarmode,flatten in zip(FES[MODEL],TAR[MODEL],FLATTEN[MODEL]):
-- 
2.43.0


From 35fbf169b7c0451ed0b5d33d57584dfeeede8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 122/123] fix: modification times of AVISO files with fractions
 of seconds

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 3dc80d2..4fd5b6a 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -329,7 +329,7 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     elif LZMA:
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
-        mtime = calendar.timegm(time.strptime(mdtm[4:],"%Y%m%d%H%M%S"))
+        mtime = calendar.timegm(time.strptime(mdtm[4:18],"%Y%m%d%H%M%S"))
         # output file name for compressed and uncompressed cases
         stem = posixpath.basename(posixpath.splitext(remote_file)[0])
         base, sfx = posixpath.splitext(stem)
@@ -365,7 +365,7 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
-        mtime = calendar.timegm(time.strptime(mdtm[4:],"%Y%m%d%H%M%S"))
+        mtime = calendar.timegm(time.strptime(mdtm[4:18],"%Y%m%d%H%M%S"))
         # check if the local file exists
         if local_file.exists() and newer(mtime, local_file.stat().st_mtime):
             # check the modification time of the local file
-- 
2.43.0


From b820fb665b524d75877113d9e4ffa43280a1dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 123/123] fix: only compress the tide files of the download
 programs

---
 scripts/aviso_fes_tides.py | 18 ++++++++++++------
 scripts/gsfc_got_tides.py  |  7 ++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 4fd5b6a..c540b10 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -289,9 +289,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     ):
     # remote and local directory for data product
     remote_file = posixpath.join('auxiliary','tide_model',*remote_path)
-    # if compressing the output file
-    opener = gzip.open if GZIP else open
-
     # Printing files transferred
     remote_ftp_url = posixpath.join('ftp://', ftp.host, remote_file)
     logger.info(f'{remote_ftp_url} -->')
@@ -308,7 +305,10 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             member = posixpath.basename(m.name) if FLATTEN else m.name
             base, sfx = posixpath.splitext(m.name)
             # extract file contents to new file
-            output = f'{member}.gz' if sfx in ('.asc','.nc') and GZIP else member
+            compress = sfx in ('.asc','.nc') and GZIP
+            output = f'{member}.gz' if compress else member
+            # if compressing the output file
+            opener = gzip.open if compress else open
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -334,7 +334,10 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         stem = posixpath.basename(posixpath.splitext(remote_file)[0])
         base, sfx = posixpath.splitext(stem)
         # extract file contents to new file
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        compress = sfx in ('.asc','.nc') and GZIP
+        output = f'{stem}.gz' if compress else stem
+        # if compressing the output file
+        opener = gzip.open if compress else open
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -361,7 +364,10 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         stem = posixpath.basename(remote_file)
         base, sfx = posixpath.splitext(stem)
         # output file name for compressed and uncompressed cases
-        output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        compress = sfx in ('.asc','.nc') and GZIP
+        output = f'{stem}.gz' if compress else stem
+        # if compressing the output file
+        opener = gzip.open if compress else open
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 72b42b6..ab24d73 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -60,8 +60,6 @@ def gsfc_got_tides(MODEL: str,
 
     # create logger for verbosity level
     logger = pyTMD.utilities.build_logger(__name__,level=logging.INFO)
-    # if compressing the output files
-    opener = gzip.open if GZIP else open
 
     # url for each tide model tarfile
     PATH = {}
@@ -106,7 +104,10 @@ def gsfc_got_tides(MODEL: str,
         elif re.match(r'^._', posixpath.basename(m.name)):
             continue
         # output file name
-        output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
+        compress = sfx in ('.d','.nc') and GZIP
+        output = f'{m.name}.gz' if compress else m.name
+        # if compressing the output file
+        opener = gzip.open if compress else open
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
-- 
2.43.0

