From 424318f76418c370ae3deb97792900a93d7f66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 001/169] fix: Legendre functions with a maximum degree of 0 or
 1

---
 gravity_toolkit/associated_legendre.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index cfb11ab..724250a 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -116,11 +116,12 @@ def plm_colombo(LMAX, x,
 
     # Calculating the initial polynomials for the recursion
     plm[0,0,:] = 1.0
-    plm[1,0,:] = np.sqrt(3.0)*x
-    plm[1,1,:] = np.sqrt(3.0)*u
-    # calculating first derivatives for harmonics of degree 1
-    dplm[1,0,:] = (1.0/u)*(x*plm[1,0,:] - np.sqrt(3)*plm[0,0,:])
-    dplm[1,1,:] = (x/u)*plm[1,1,:]
+    if (LMAX > 0):
+        plm[1,0,:] = np.sqrt(3.0)*x
+        plm[1,1,:] = np.sqrt(3.0)*u
+        # calculating first derivatives for harmonics of degree 1
+        dplm[1,0,:] = (1.0/u)*(x*plm[1,0,:] - np.sqrt(3)*plm[0,0,:])
+        dplm[1,1,:] = (x/u)*plm[1,1,:]
     for l in range(2, LMAX+1):
         for m in range(0, l):# Zonal and Tesseral harmonics (non-sectorial)
             # Computes the non-sectorial terms from previously computed
@@ -215,7 +216,8 @@ def plm_holmes(LMAX, x,
 
     # Calculate P(l,0). These are not scaled.
     p[0,:] = 1.0
-    p[1,:]  = np.sqrt(3.0)*x
+    if (LMAX > 0):
+        p[1,:]  = np.sqrt(3.0)*x
     k = 1
     for l in range(2, LMAX+1):
         k += l
@@ -245,9 +247,10 @@ def plm_holmes(LMAX, x,
         p[k-LMAX,:] = p[k-LMAX,:] * rescalem
 
     # Calculate P(LMAX,LMAX)
-    rescalem = rescalem * u
-    kstart += m+2
-    p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
+    if (LMAX > 0):
+        rescalem = rescalem * u
+        kstart += LMAX+1
+        p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
     # reshape Legendre polynomials to output dimensions
     for m in range(LMAX+1):
         for l in range(m,LMAX+1):
-- 
2.43.0


From c6f6b1927e437e92a56455ef37183e6e1e1d29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 002/169] fix: shape of Mohlenkamp Legendre derivatives when
 truncated in order

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index 724250a..c867666 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -311,7 +311,7 @@ def plm_mohlenkamp(LMAX, x,
 
     # Initialize the output Legendre polynomials
     plm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
-    dplm = np.zeros((LMAX+1, LMAX+1, sx), dtype=astype)
+    dplm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
     # Jacobi polynomial for the recurrence relation
     jlmm = np.zeros((LMAX+1, MMAX+1, sx))
     # for x=cos(th): u= sin(th)
-- 
2.43.0


From 7b7b4f6ef0b7a0f6ef7022c11fb4aeae52767e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 003/169] fix: Legendre polynomials with a maximum degree of 0

---
 gravity_toolkit/legendre_polynomials.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/legendre_polynomials.py b/gravity_toolkit/legendre_polynomials.py
index 2aaedc2..a56ad43 100755
--- a/gravity_toolkit/legendre_polynomials.py
+++ b/gravity_toolkit/legendre_polynomials.py
@@ -91,10 +91,11 @@ def legendre_polynomials(lmax, x, ASTYPE=np.float64):
 
     # Initialize the recurrence relation
     ptemp[0,:] = 1.0
-    ptemp[1,:] = x
     # Normalization is geodesy convention
     pl[0,:] = ptemp[0,:]
-    pl[1,:] = np.sqrt(3.0)*ptemp[1,:]
+    if (lmax > 0):
+        ptemp[1,:] = x
+        pl[1,:] = np.sqrt(3.0)*ptemp[1,:]
     for l in range(2,lmax+1):
         ptemp[l,:] = (((2.0*l)-1.0)/l)*x*ptemp[l-1,:] - ((l-1.0)/l)*ptemp[l-2,:]
         # Normalization is geodesy convention
-- 
2.43.0


From 2ccb07ec3cfbc42b2cbea3cb84754d77a422cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 004/169] fix: squeezing harmonics without updating degree and
 order

---
 gravity_toolkit/harmonics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f021275..7265e31 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1419,9 +1419,6 @@ class harmonics(object):
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-        else:
-            self.ndim = self.clm.ndim
-            self.shape = self.clm.shape
         return self
 
     def flatten(self, date=True):
-- 
2.43.0


From daa32cb897967ff78cd813dd465c380b659563db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 005/169] fix: scaling of temporal harmonics by a time-variable
 scalar

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 7265e31..c792ccd 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1699,6 +1699,8 @@ class harmonics(object):
                 temp.clm[:,:,i] = v*self.clm
                 temp.slm[:,:,i] = v*self.slm
         elif (np.ndim(var) == 1) and (self.ndim == 3):
+            temp.clm = np.zeros_like(self.clm)
+            temp.slm = np.zeros_like(self.slm)
             for i,v in enumerate(var):
                 temp.clm[:,:,i] = v*self.clm[:,:,i]
                 temp.slm[:,:,i] = v*self.slm[:,:,i]
-- 
2.43.0


From 5d0b93292255c2052029c106d1ce4dfa26d15116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 006/169] fix: squeezing zonal harmonics removed the order
 dimension

---
 gravity_toolkit/harmonics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index c792ccd..4ad4ec5 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1408,14 +1408,13 @@ class harmonics(object):
         update_dimensions: bool, default True
             Update the degree and order dimensions
         """
-        # squeeze singleton dimensions
-        try:
+        # squeeze singleton time dimension (degree and order are retained)
+        ndim = 1 if self.flattened else 2
+        if (self.ndim > ndim) and (self.shape[-1] == 1):
             self.clm = np.squeeze(self.clm, axis=-1)
             self.slm = np.squeeze(self.slm, axis=-1)
             self.time = np.squeeze(self.time)
             self.month = np.squeeze(self.month)
-        except ValueError as exc:
-            pass
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-- 
2.43.0


From eaf0ad8d77c8762cbcec85cfd6139c649774979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 007/169] fix: string representation and length of objects with
 one or several months

---
 gravity_toolkit/geocenter.py | 8 ++++----
 gravity_toolkit/harmonics.py | 8 ++++----
 gravity_toolkit/spatial.py   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c30b562..b5709a4 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -1214,15 +1214,15 @@ class geocenter(object):
         """String representation of the ``geocenter`` object
         """
         properties = ['gravity_toolkit.geocenter']
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
         """Number of months
         """
-        return len(self.month) if np.any(self.month) else 0
+        return np.size(self.month) if np.any(self.month) else 0
 
     def __iter__(self):
         """Iterate over GRACE/GRACE-FO months
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4ad4ec5..862a212 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1886,15 +1886,15 @@ class harmonics(object):
         properties.append(f"    max_degree: {self.lmax}")
         if self.mmax and (self.mmax != self.lmax):
             properties.append(f"    max_order: {self.mmax}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
         """Number of months
         """
-        return len(self.month) if np.any(self.month) else 0
+        return np.size(self.month) if np.any(self.month) else 0
 
     def __iter__(self):
         """Iterate over GRACE/GRACE-FO months
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 255b57e..2368695 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1702,15 +1702,15 @@ class spatial(object):
         properties.append(f"    extent: {extent}")
         shape = ', '.join(map(str, self.shape))
         properties.append(f"    shape: {shape}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
         """Number of months
         """
-        return len(self.month) if np.any(self.month) else 0
+        return np.size(self.month) if np.any(self.month) else 0
 
     def __iter__(self):
         """Iterate over GRACE/GRACE-FO months
-- 
2.43.0


From aa876b34bb17ba2c67fba39d20ec79d759aacca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 008/169] fix: degree amplitude and complex form of harmonics
 were not updated after a modification

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 862a212..ad417c5 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -108,7 +108,7 @@ from gravity_toolkit.time import adjust_months,calendar_to_grace
 from gravity_toolkit.destripe_harmonics import destripe_harmonics
 from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
 from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
-from gravity_toolkit.utilities import import_dependency, reify
+from gravity_toolkit.utilities import import_dependency
 
 # attempt imports
 geoidtk = import_dependency('geoid_toolkit')
@@ -1826,7 +1826,7 @@ class harmonics(object):
         # return the destriped field
         return temp
 
-    @reify
+    @property
     def amplitude(self):
         """
         Degree amplitude of the spherical harmonics
@@ -1872,7 +1872,7 @@ class harmonics(object):
         """
         return np.ndim(self.clm)
 
-    @reify
+    @property
     def ilm(self):
         """
         Complex form of the spherical harmonics
-- 
2.43.0


From ebccc7db125c9035636054b1c97ce04a76b0bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 009/169] fix: truncating harmonics to zonal terms kept higher
 orders

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index ad417c5..7a54190 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1610,7 +1610,7 @@ class harmonics(object):
         temp = self.copy()
         # set new degree and order
         self.lmax = np.copy(lmax)
-        self.mmax = np.copy(mmax) if mmax else np.copy(lmax)
+        self.mmax = np.copy(mmax)
         # truncation levels
         l1 = self.lmax+1 if (temp.lmax > self.lmax) else temp.lmax+1
         m1 = self.mmax+1 if (temp.mmax > self.mmax) else temp.mmax+1
-- 
2.43.0


From 83749ddada47d82e0d4485d95e94e4b80a46d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 010/169] fix: adjusting a series with a single month returned
 a scalar

---
 gravity_toolkit/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 8ad52ce..cb0713e 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -349,6 +349,7 @@ def adjust_months(grace_month):
     For GSFC: Oct 2018 (202) is centered in Nov 2018 (203)
     """
     # verify dimensions
+    ndim = np.ndim(grace_month)
     grace_month = np.atleast_1d(grace_month)
     # number of months
     nmon = len(grace_month)
@@ -384,7 +385,7 @@ def adjust_months(grace_month):
             # case where month should be -1
             m[j] = grace_month[j] - 1
     # update months and remove singleton dimensions if necessary
-    return np.squeeze(m)
+    return np.squeeze(m) if (ndim == 0) else m
 
 # PURPOSE: convert calendar dates to GRACE/GRACE-FO months
 def calendar_to_grace(year,month=1,around=np.floor):
-- 
2.43.0


From 5888dd77db5e4bfb628d4250f3b1c130b3ef744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 011/169] fix: merging lists of dated objects (setting an
 element with a sequence)

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 7a54190..0d9329c 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -663,8 +663,8 @@ class harmonics(object):
             self.clm[:,:,t] = object_list[i].clm[:self.lmax+1,:self.mmax+1]
             self.slm[:,:,t] = object_list[i].slm[:self.lmax+1,:self.mmax+1]
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 2368695..bca2f5c 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -646,8 +646,8 @@ class spatial(object):
             if hasattr(object_list[i], 'error'):
                 self.error[:,:,t] = object_list[i].error[:,:].copy()
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From 1d6f760fa6a4bf47a5d6e3a8428903306bbdd9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 012/169] fix: subsetting with repeated months appended empty
 fields

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 0d9329c..3e9f28a 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1556,8 +1556,6 @@ class harmonics(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1565,6 +1563,8 @@ class harmonics(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output harmonics object
         temp = harmonics(lmax=np.copy(self.lmax), mmax=np.copy(self.mmax))
         # create output harmonics
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index bca2f5c..2855183 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1352,8 +1352,6 @@ class spatial(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1361,6 +1359,8 @@ class spatial(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output spatial object
         temp = self.zeros_like()
         # create output spatial object
-- 
2.43.0


From 0579c3e2680990bc132a0b397f057d4e3f3b77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 013/169] fix: iterating over temporal objects without dates

---
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 3e9f28a..d920b94 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1915,7 +1915,7 @@ class harmonics(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError,TypeError) as exc:
             pass
         # subset filename if applicable
         if getattr(self, 'filename'):
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 2855183..6191741 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1733,7 +1733,7 @@ class spatial(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError,TypeError) as exc:
             pass
         # subset output spatial error
         try:
-- 
2.43.0


From 2cedf9b1a9090235658268b60f64d7786180d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 014/169] fix: flipped and transposed grids shared their data
 with the original grid

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 6191741..b7bff50 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1521,7 +1521,7 @@ class spatial(object):
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.flip(getattr(self, key), axis=axis))
+                setattr(temp, key, np.flip(getattr(self, key), axis=axis).copy())
             except Exception as exc:
                 pass
         # update mask
@@ -1542,7 +1542,7 @@ class spatial(object):
         # attempt to transpose possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.transpose(getattr(self, key), axes=axes))
+                setattr(temp, key, np.transpose(getattr(self, key), axes=axes).copy())
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 0fba6cd693aef5686616ec735328599075975f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 015/169] fix: flipping grids in time did not reorder the
 months

---
 gravity_toolkit/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index b7bff50..b85f3fe 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1518,6 +1518,7 @@ class spatial(object):
             temp.lon = temp.lon[::-1].copy()
         elif (axis == 2):
             temp.time = temp.time[::-1].copy()
+            temp.month = temp.month[::-1].copy()
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From b83b76630fa8eeb50475b85c809d7c2ab6d278f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 016/169] fix: extended longitudes used the latitudinal grid
 spacing

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index b85f3fe..53e3dd2 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1261,7 +1261,7 @@ class spatial(object):
         temp.lon = np.zeros((nx+2), dtype=self.lon.dtype)
         temp.lon[0] = self.lon[0] - self.spacing[0]
         temp.lon[1:-1] = self.lon[:]
-        temp.lon[-1] = self.lon[-1] + self.spacing[1]
+        temp.lon[-1] = self.lon[-1] + self.spacing[0]
         # attempt to extend possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 628c37c7a39f2d411150ec57ef2d6a33a89b4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 017/169] fix: invalid cells of a powered grid did not hold the
 fill value

---
 gravity_toolkit/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 53e3dd2..9b3eb90 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1583,6 +1583,8 @@ class spatial(object):
         """
         temp = self.copy()
         temp.data = np.power(self.data,power)
+        # update mask
+        temp.update_mask()
         return temp
 
     def max(self):
-- 
2.43.0


From bae5e75688173f051dcbc281fdb4768df3cce0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 018/169] fix: removing the mean field computed values from
 invalid grid cells

---
 gravity_toolkit/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 9b3eb90..609e988 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1496,6 +1496,10 @@ class spatial(object):
         if apply:
             for i,t in enumerate(self.time):
                 self.data[:,:,i] -= temp.data[:,:]
+                # anomalies are invalid where the mean field is invalid
+                self.mask[:,:,i] |= temp.mask[:,:]
+            # update mask of the anomalies
+            self.update_mask()
         # update mask
         temp.update_mask()
         return temp
-- 
2.43.0


From 198a1300f7b8ea40bd9be26a998ea7d8680caff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 019/169] fix: case-insensitive file search matched other files
 with the same prefix

---
 gravity_toolkit/geocenter.py | 2 +-
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index b5709a4..02ce747 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -129,7 +129,7 @@ class geocenter(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index d920b94..8dd4d95 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -183,7 +183,7 @@ class harmonics(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 609e988..3653161 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -156,7 +156,7 @@ class spatial(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
-- 
2.43.0


From 2cb4b2d3bbe1890e52ece7c9e4b0030d449f1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 020/169] fix: reading ascii data from binary file objects

---
 gravity_toolkit/harmonics.py |  6 +++++-
 gravity_toolkit/spatial.py   | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 8dd4d95..5fb83a0 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -250,7 +250,11 @@ class harmonics(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            contents = self.filename.read()
+            # decode if a binary file object
+            if isinstance(contents, bytes):
+                contents = contents.decode('ISO-8859-1')
+            file_contents = contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with open(self.filename, mode='r', encoding='utf8') as f:
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3653161..c5ca6b0 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -242,7 +242,11 @@ class spatial(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            contents = self.filename.read()
+            # decode if a binary file object
+            if isinstance(contents, bytes):
+                contents = contents.decode('ISO-8859-1')
+            file_contents = contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
@@ -1862,7 +1866,11 @@ class scaling_factors(spatial):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            contents = self.filename.read()
+            # decode if a binary file object
+            if isinstance(contents, bytes):
+                contents = contents.decode('ISO-8859-1')
+            file_contents = contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From 8609e4804777187655edeac94b7828fde3ba5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 021/169] fix: copies of scaling factors lost their class and
 magnitude

---
 gravity_toolkit/spatial.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c5ca6b0..e5dce68 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1187,14 +1187,15 @@ class spatial(object):
         """
         Copy a ``spatial`` object to a new ``spatial`` object
         """
-        temp = spatial(fill_value=self.fill_value)
+        temp = self.__class__(fill_value=self.fill_value)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
             setattr(temp,'attributes',self.attributes)
         elif isinstance(self.attributes, dict):
             temp.attributes.update(self.attributes)
         # assign variables to self
-        var = ['lon','lat','data','mask','error','time','month','filename']
+        var = ['lon','lat','data','mask','error','magnitude',
+            'time','month','filename']
         for key in var:
             try:
                 val = getattr(self, key)
@@ -1807,8 +1808,6 @@ class scaling_factors(spatial):
     np.seterr(invalid='ignore')
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
-        self.error = None
-        self.magnitude = None
 
     def from_ascii(self, filename, **kwargs):
         """
@@ -2012,10 +2011,10 @@ class scaling_factors(spatial):
             self.mask |= np.isnan(self.data)
             self.data[self.mask] = self.fill_value
             # replace fill values within scaling factor errors
-            if getattr(self, 'error') is not None:
+            if getattr(self, 'error', None) is not None:
                 self.error[self.mask] = self.fill_value
             # replace fill values within scaling factor magnitudes
-            if getattr(self, 'magnitude') is not None:
+            if getattr(self, 'magnitude', None) is not None:
                 self.magnitude[self.mask] = self.fill_value
         return self
 
-- 
2.43.0


From 90921d98908e3e65724af9b8d82560b4fcbecf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 022/169] fix: scaling factor errors and magnitudes ignored
 cells with zero values

---
 gravity_toolkit/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e5dce68..c2294c2 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1992,11 +1992,11 @@ class scaling_factors(spatial):
         val2 = np.sum(temp1.data[indy,indx,:]**2,axis=1)
         temp.data[indy,indx] = val1/val2
         # calculate difference between scaled and original
-        variance = temp1.scale(temp.data).offset(-temp2.data)
+        variance = temp1.data*temp.data[:,:,None] - temp2.data
         # calculate scaling factor errors as RMS of variance
-        temp.error = np.sqrt((variance.sum(power=2).data)/nt)
+        temp.error = np.sqrt(np.sum(variance**2, axis=2)/nt)
         # calculate magnitude of original data
-        temp.magnitude = temp2.sum(power=2.0).power(0.5).data[:]
+        temp.magnitude = np.sqrt(np.sum(temp2.data**2, axis=2))
         # update mask
         temp.update_mask()
         # return the scaling factors and scaling factor errors
-- 
2.43.0


From f26065ca97bef224c7ad59c55bf6228c67324b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 023/169] fix: reading dates from ascii files of spatial data

---
 gravity_toolkit/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c2294c2..7c848b4 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -279,8 +279,8 @@ class spatial(object):
         # output spatial data
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
-        # remove time from list of column names if not date
-        columns = [c for c in kwargs['columns'] if (c != 'time')]
+        # list of column names
+        columns = kwargs['columns']
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
@@ -297,7 +297,7 @@ class spatial(object):
             self.lat[ilat] = np.float64(d['lat'])
             # if the ascii file contains date variables
             if date:
-                self.time = np.array(d['time'],dtype='f')
+                self.time = np.float64(d['time'])
                 self.month = calendar_to_grace(self.time)
         # if the ascii file contains date variables
         if date:
-- 
2.43.0


From f9615d8d886914569317e466e892ff33af5de10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 024/169] fix: grid positions of spatial data read from ascii
 files

---
 gravity_toolkit/spatial.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 7c848b4..eed5fa5 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -265,12 +265,16 @@ class spatial(object):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            nlat = np.int64(np.round((extent[3] - extent[2])/dlat)) + 1
+            nlon = np.int64(np.round((extent[1] - extent[0])/dlon)) + 1
+            self.lat = extent[3] - dlat*np.arange(nlat)
+            self.lon = extent[0] + dlon*np.arange(nlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
+            # assume a global grid
+            extent = [0.0, 360.0, -90.0, 90.0]
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
         # get spatial dimensions
@@ -289,8 +293,11 @@ class spatial(object):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0 - np.float64(d['lat']))//dlat)
+            # (with a tolerance for the precision of the coordinates)
+            ilon = np.int64(np.floor(
+                (np.float64(d['lon']) - extent[0])/dlon + 0.01))
+            ilat = np.int64(np.floor(
+                (extent[3] - np.float64(d['lat']))/dlat + 0.01))
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -1888,12 +1895,16 @@ class scaling_factors(spatial):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            nlat = np.int64(np.round((extent[3] - extent[2])/dlat)) + 1
+            nlon = np.int64(np.round((extent[1] - extent[0])/dlon)) + 1
+            self.lat = extent[3] - dlat*np.arange(nlat)
+            self.lon = extent[0] + dlon*np.arange(nlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
+            # assume a global grid
+            extent = [0.0, 360.0, -90.0, 90.0]
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
         # get spatial dimensions
@@ -1912,8 +1923,11 @@ class scaling_factors(spatial):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
+            # (with a tolerance for the precision of the coordinates)
+            ilon = np.int64(np.floor(
+                (np.float64(d['lon']) - extent[0])/dlon + 0.01))
+            ilat = np.int64(np.floor(
+                (extent[3] - np.float64(d['lat']))/dlat + 0.01))
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['data'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From 24ec68e676478ce4743d48c6ccccb58fc4e04f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 025/169] fix: reading ascii files of scaling factors, and
 cells missing from ascii files

---
 gravity_toolkit/spatial.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index eed5fa5..7406a35 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -282,7 +282,8 @@ class spatial(object):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        # grid cells not in the file are invalid
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # list of column names
         columns = kwargs['columns']
         # extract spatial data array and convert to matrix
@@ -1912,7 +1913,10 @@ class scaling_factors(spatial):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.error = np.zeros((nlat, nlon))
+        self.magnitude = np.zeros((nlat, nlon))
+        # grid cells not in the file are invalid
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
         # extract spatial data array and convert to matrix
@@ -1929,7 +1933,7 @@ class scaling_factors(spatial):
             ilat = np.int64(np.floor(
                 (extent[3] - np.float64(d['lat']))/dlat + 0.01))
             # get scaling factor, error and magnitude
-            self.data[ilat,ilon] = np.float64(d['data'])
+            self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
             self.magnitude[ilat,ilon] = np.float64(d['magnitude'])
             # set mask
-- 
2.43.0


From 5bcfc6a51abb214381251f2387e7454a7bf6c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 026/169] fix: writing spatial data modified the dimensions,
 reading transposed square grids

---
 gravity_toolkit/spatial.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 7406a35..7b44bc4 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -413,8 +413,10 @@ class spatial(object):
         # Closing the NetCDF file
         fileID.close()
         # switching data array to lat/lon if lon/lat
+        # (square grids are assumed to be lat/lon)
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -537,8 +539,10 @@ class spatial(object):
         # Closing the HDF5 file
         fileID.close()
         # switching data array to lat/lon if lon/lat
+        # (square grids are assumed to be lat/lon)
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -874,8 +878,9 @@ class spatial(object):
         dimensions.append('lat')
         dimensions.append('lon')
         # expand dimensions if containing date variables
+        # (copy to not modify the original object)
         if kwargs['date']:
-            self.expand_dims()
+            self = copy.deepcopy(self).expand_dims()
             dimensions.append('time')
         dims = tuple(kwargs['field_mapping'][key] for key in dimensions)
         # defining the NetCDF dimensions and variables
@@ -1018,8 +1023,9 @@ class spatial(object):
         dimensions.append('lat')
         dimensions.append('lon')
         # expand dimensions if containing date variables
+        # (copy to not modify the original object)
         if kwargs['date']:
-            self.expand_dims()
+            self = copy.deepcopy(self).expand_dims()
             dimensions.append('time')
         dims = tuple(kwargs['field_mapping'][key] for key in dimensions)
         # Defining the HDF5 dataset variables
-- 
2.43.0


From 0a193363194ea8f8b3ad7f1e919ece48b1ea667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 027/169] fix: Julian days of decimal years were one day early

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index cb0713e..a5b9c19 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -453,7 +453,7 @@ def calendar_to_julian(year_decimal):
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
         np.floor(3.0*(np.floor((7.0*year - 1.0)/700.0) + 1.0)/4.0) +
-        DofY + 1721058.5, dtype=np.float64)
+        DofY + 1721059.5, dtype=np.float64)
     return JD
 
 # days per month in a leap and a standard year
-- 
2.43.0


From b1c4bd332c4339d9ce6ea1bdcb2829ac88a35028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 028/169] fix: days of century years after February were one
 day late

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index a5b9c19..eae74c6 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -582,7 +582,7 @@ def convert_calendar_dates(year, month, day, hour=0.0, minute=0.0, second=0.0,
     # calculate date in Modified Julian Days (MJD) from calendar date
     # MJD: days since November 17, 1858 (1858-11-17T00:00:00)
     MJD = 367.0*year - np.floor(7.0*(year + np.floor((month+9.0)/12.0))/4.0) - \
-        np.floor(3.0*(np.floor((year + (month - 9.0)/7.0)/100.0) + 1.0)/4.0) + \
+        np.floor(3.0*(np.floor((year + np.trunc((month - 9.0)/7.0))/100.0) + 1.0)/4.0) + \
         np.floor(275.0*month/9.0) + day + hour/24.0 + minute/1440.0 + \
         second/86400.0 + 1721028.5 - 2400000.5
     # convert epochs to datetime variables
-- 
2.43.0


From d71f1a8ec8b8a44758ef2be615b205e5c75fdf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 029/169] fix: special months without adjoining months were
 numbered zero or shifted

---
 gravity_toolkit/time.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index eae74c6..95142fb 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -358,7 +358,8 @@ def adjust_months(grace_month):
     # find unique months
     _,i,c = np.unique(grace_month,return_inverse=True,return_counts=True)
     # simple unique months case
-    case1, = np.nonzero(c[i] == 1)
+    # (months repeated more than twice are not special months)
+    case1, = np.nonzero(c[i] != 2)
     m[case1] = grace_month[case1]
     # Special Months cases
     case2, = np.nonzero(c[i] == 2)
@@ -370,10 +371,13 @@ def adjust_months(grace_month):
         mp1 = grace_month[j+1] if (j < (nmon-1)) else (mon + 1)
         mp2 = grace_month[j+2] if (j < (nmon-2)) else (mp1 + 1)
         # determine the months which meet the criteria need to be adjusted
-        if (mon == (mm1 + 1)):
+        if (mon == (mm1 + 1)) or ((mon in (118, 160)) and (mon == mp1)):
             # case where month is correct
             # but subsequent month needs to be +1
             m[j] = np.copy(grace_month[j])
+        elif (mon in (121, 203)) and (mon == mp1):
+            # case where month should be -1
+            m[j] = grace_month[j] - 1
         elif (mon == mm1) and (mon != m[j-1]):
             # case where prior month needed to be -1
             # but current month is correct
@@ -384,6 +388,9 @@ def adjust_months(grace_month):
         elif (mon == mp1) and ((mon == (mm1 + 2)) or (mp2 == (mp1 + 1))):
             # case where month should be -1
             m[j] = grace_month[j] - 1
+        else:
+            # case where month cannot be determined from adjoining months
+            m[j] = np.copy(grace_month[j])
     # update months and remove singleton dimensions if necessary
     return np.squeeze(m) if (ndim == 0) else m
 
-- 
2.43.0


From 48c9eb92bd620094359f7f302e54f34f64b96932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 030/169] fix: months of a single file and dates in single
 precision when finding months

---
 gravity_toolkit/grace_find_months.py  | 5 +++--
 gravity_toolkit/grace_months_index.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_find_months.py b/gravity_toolkit/grace_find_months.py
index 2105fb0..d61387a 100644
--- a/gravity_toolkit/grace_find_months.py
+++ b/gravity_toolkit/grace_find_months.py
@@ -114,11 +114,12 @@ def grace_find_months(base_dir, PROC, DREL, DSET='GSM'):
 
     # names and formats of GRACE/GRACE-FO date ascii file
     names = ('t','mon','styr','stday','endyr','endday','total')
-    formats = ('f','i','i','i','i','i','i')
+    formats = ('f8','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     # read GRACE/GRACE-FO date ascii file
     # skip the header row and extract dates (decimal format) and months
-    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype,
+        ndmin=1)
     # date info dictionary
     var_info = {}
     var_info['time'] = date_input['t']
diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 00531d7..284ba89 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -115,7 +115,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
             grace_date_file = grace_dir.joinpath(f'{pr}_{rl}_DATES.txt')
             # names and formats of GRACE/GRACE-FO date ascii file
             names = ('t','mon','styr','stday','endyr','endday','total')
-            formats = ('f','i','i','i','i','i','i')
+            formats = ('f8','i','i','i','i','i','i')
             dtype = np.dtype({'names':names, 'formats':formats})
             # check that the GRACE/GRACE-FO date file exists
             if grace_date_file.exists():
@@ -123,7 +123,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_name = f'{pr}_{rl}'
                 # skip the header line
                 var_info[var_name] = np.loadtxt(grace_date_file,
-                    skiprows=1, dtype=dtype)
+                    skiprows=1, dtype=dtype, ndmin=1)
                 # Finding the maximum month measured
                 if (var_info[var_name]['mon'].max() > max_mon):
                     # if the maximum month in this dataset is greater
-- 
2.43.0


From 9f701842159e2f3522e69616c28440eb5ec2e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 031/169] fix: end days of GRAZ and Swarm files were rounded up
 in the date index

---
 gravity_toolkit/grace_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_date.py b/gravity_toolkit/grace_date.py
index 6201292..279faf0 100644
--- a/gravity_toolkit/grace_date.py
+++ b/gravity_toolkit/grace_date.py
@@ -274,7 +274,7 @@ def grace_date(base_dir, PROC='', DREL='', DSET='', OUTPUT=True, MODE=0o775):
         if OUTPUT:
             print((f'{tdec[t]:13.8f} {mon[t]:03d} '
                 f'{start_yr[t]:8.0f} {start_day[t]:03.0f} '
-                f'{end_yr[t]:8.0f} {end_day[t]:03.0f} '
+                f'{end_yr[t]:8.0f} {np.floor(end_day[t]):03.0f} '
                 f'{tot_days[t]:8.0f}'), file=fid)
 
     # close date file
-- 
2.43.0


From 48a3ccb400c8a94099ffada036edd478d3b34dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 032/169] fix: reducing GFZ release 5 files by date

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 95142fb..3ad681a 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -298,7 +298,7 @@ def reduce_by_date(granules):
     # COSTG: International Combined Time-variable Gravity Fields
     args = r'UTCSR|EIGEN|GFZOP|JPLEM|JPLMSC|GRGS|COSTG'
     regex_pattern = (r'(.*?)-2_(\d{{4}})(\d{{3}})-(\d{{4}})(\d{{3}})_(.*?)_'
-        r'({0})_(.*?)_(\d{{2}})(\d{{2}})(.*?)(\.gz|\.gfc)?$').format(args)
+        r'({0})_(.*?)_(\d{{2}})(\d{{1,2}})(.*?)(\.gz|\.gfc)?$').format(args)
     rx = re.compile(regex_pattern, re.VERBOSE)
     # for each unique date
     for d in sorted(set(date_list)):
-- 
2.43.0


From 7cd4fb012df42a3823b0afb7b393a72d96634acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 033/169] fix: month tables could not be made with the default
 permissions mode

---
 gravity_toolkit/grace_months_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 284ba89..864262d 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -178,7 +178,8 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
     # close months file
     fid.close()
     # set the permissions level of the output file
-    grace_months_file.chmod(mode=MODE)
+    if MODE is not None:
+        grace_months_file.chmod(mode=MODE)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From f4212950fdda8939eb480d0633c542adc8263970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 034/169] fix: Fourier coefficients of Legendre functions for
 odd, small and truncated upper bounds

---
 gravity_toolkit/fourier_legendre.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 6cc8b5c..25b0559 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -48,6 +48,12 @@ def fourier_legendre(lmax, mmax):
         Fourier coefficients
     """
 
+    # output upper bound of spherical harmonic degrees
+    LMAX = lmax
+    # recursion is over even upper bounds and
+    # for all of the fourier coefficients of each degree
+    lmax = np.maximum(lmax + lmax % 2, 4)
+    mmax = lmax
     # allocate for output fourier coefficients
     plm = np.zeros((lmax+1,lmax+1,lmax+1))
     l_even = np.arange(0,lmax+1,2)
@@ -209,7 +215,7 @@ def fourier_legendre(lmax, mmax):
             plm[l+2,m+2,m_odd] = (p1 - p2 + p3) / dfactor
 
     # return the fourier coefficients
-    return plm
+    return plm[:LMAX+1,:LMAX+1,:LMAX+1]
 
 def legendre_gradient(lmax, mmax):
     """
-- 
2.43.0


From 77af0285eef88ababb34df5a599e11c42af9f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 035/169] fix: Fourier coefficients for zonal gradients of
 Legendre functions

---
 gravity_toolkit/fourier_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 25b0559..28b2585 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -273,7 +273,7 @@ def legendre_gradient(lmax, mmax):
         lminus2 = np.arange(l-2,-1,-1)# from l-2 to 0
         lminus1 = np.arange(l-1,0,-1)# from l-1 to 1
         wlm[l,m,:] = np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l,m+1,:])
+            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l-1,m+1,:])
 
     # m-1 terms, m-1=0 has different coefficients
     # m=1 term
@@ -287,7 +287,7 @@ def legendre_gradient(lmax, mmax):
         lplus2 = np.arange(l+2,2*l+1)# from l+2 to 2*l
         lplus1 = np.arange(l+1,2*l)# from l+1 to (2*l-1)
         wlm[l,m,:] += np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lplus2*lplus1)/4.0), plm[l-1,m-1,:])
+            np.dot(np.diag(np.sqrt(lplus2*lplus1/4.0)), plm[l-1,m-1,:])
     # normalizations
     for l in range(1, lmax+1):
         wlm[l,:,:] /= np.sqrt((l+1)*l)
-- 
2.43.0


From 69b3243f018b4fb7fd4e512ca2a2b0fa56b230bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 036/169] fix: Fourier synthesis when truncated in order or on
 coarse grids

---
 gravity_toolkit/harmonic_summation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index 3eed02c..248c2d5 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -182,12 +182,18 @@ def harmonic_transform(clm1, slm1, lon, lat,
     # calculate Ylms summation for each theta band
     for k in range(0,thmax):
         # summation over all spherical harmonic degrees
-        delta_M[:,k] = np.sum(PLM[:,:,k]*Ylms[:,:],axis=0)/2.0
+        delta_M[:,k] = np.sum(PLM[:,:MMAX+1,k]*Ylms[:,:],axis=0)/2.0
+
+    # orders that differ by the number of longitudes are the same at each
+    # point: combine orders that are not resolved by the spacing of the grid
+    orders = np.arange(MMAX+1) % (phimax-1)
+    fourier = np.zeros((phimax-1,thmax),dtype=np.complex128)
+    np.add.at(fourier, orders, delta_M)
 
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
     # calculate fft for each theta band (over phis with axis=0)
-    s[:-1,:] = 2.0*(phimax-1)*np.fft.ifft(delta_M,n=phimax-1,axis=0).real
+    s[:-1,:] = 2.0*(phimax-1)*np.fft.ifft(fourier,n=phimax-1,axis=0).real
     # complete sphere (values at 360 == values at 0)
     s[-1,:] = s[0,:]
 
-- 
2.43.0


From ae879740d04cb2e412b130deb18fac463702b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 037/169] fix: harmonic summation on grids of a single
 longitude or latitude

---
 gravity_toolkit/harmonic_summation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index 248c2d5..6926c70 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -86,9 +86,9 @@ def harmonic_summation(clm1, slm1, lon, lat,
         MMAX = np.copy(LMAX)
 
     # Longitude in radians
-    phi = (np.squeeze(lon)*np.pi/180.0)[np.newaxis,:]
+    phi = (np.ravel(lon)*np.pi/180.0)[np.newaxis,:]
     # colatitude in radians
-    th = (90.0 - np.squeeze(lat))*np.pi/180.0
+    th = (90.0 - np.ravel(lat))*np.pi/180.0
     thmax = len(th)
 
     # if plms are not pre-computed: calculate Legendre polynomials
@@ -164,7 +164,7 @@ def harmonic_transform(clm1, slm1, lon, lat,
     # number of longitudinal points
     phimax = len(np.squeeze(lon))
     # colatitude in radians
-    th = (90.0 - np.squeeze(lat))*np.pi/180.0
+    th = (90.0 - np.ravel(lat))*np.pi/180.0
     thmax = len(th)
 
     # if plms are not pre-computed: calculate Legendre polynomials
-- 
2.43.0


From 56b585b62ce8c192e7e13d46008ddee6cdf47dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 038/169] fix: Clenshaw summation with the default maximum
 degree and of degree zero

---
 gravity_toolkit/clenshaw_summation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gravity_toolkit/clenshaw_summation.py b/gravity_toolkit/clenshaw_summation.py
index 19a9b68..88b10fd 100644
--- a/gravity_toolkit/clenshaw_summation.py
+++ b/gravity_toolkit/clenshaw_summation.py
@@ -122,6 +122,10 @@ def clenshaw_summation(clm, slm, lon, lat,
     if (len(lat) != len(lon)):
         raise ValueError('Incompatible vector dimensions (lon, lat)')
 
+    # if LMAX is not specified, will use the size of the input harmonics
+    if (LMAX == 0):
+        LMAX = np.shape(clm)[0]-1
+
     # calculate colatitude and longitude in radians
     th = (90.0 - lat)*np.pi/180.0
     phi = np.squeeze(lon*np.pi/180.0)
@@ -180,6 +184,9 @@ def clenshaw_summation(clm, slm, lon, lat,
         # calculate summation for order m
         a_m = np.sqrt((2.0*m+3.0)/(2.0*m+2.0))
         s_m = a_m*u*s_m + s_m_c[:,2*m]*cos_m_phi[:,m] + s_m_c[:,2*m+1]*sin_m_phi[:,m]
+    # there are no orders above 0 for a field of degree 0
+    if (LMAX == 0):
+        s_m = 0.0
     # calculate spatial field
     spatial = np.sqrt(3.0)*u*s_m + s_m_c[:,0]
     # return the calculated spatial field
-- 
2.43.0


From bd50393526d8d88faf0fdbf9aebf715d8f60ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 039/169] fix: Fourier analysis when truncated in order, for
 odd degrees and with poles

---
 gravity_toolkit/gen_harmonics.py | 108 +++++++++++++++----------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 8044f69..95e3db5 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -280,33 +280,33 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     # Because the function is defined on (0,pi)
     # it can be expanded in just cosine terms.
     # this routine assumes that 0 and pi are not included
-    theta_cc = np.zeros((MMAX+1,MMAX+1))
-    theta_sc = np.zeros((MMAX+1,MMAX+1))
+    # spherical harmonic orders
     m_even = np.arange(0,MMAX+1,2)
-    m_odd = np.arange(1,MMAX,2)
-    n_even = len(m_even)
-    n_odd = len(m_odd)
-
-    if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
+    m_odd = np.arange(1,MMAX+1,2)
+    # fourier terms in colatitude (up to the spherical harmonic degree)
+    nn = np.arange(LMAX+1)[:, np.newaxis]
+    n_even = np.arange(0,LMAX+1,2)
+    n_odd = np.arange(1,LMAX+1,2)
+    theta_cc = np.zeros((MMAX+1,LMAX+1))
+    theta_sc = np.zeros((MMAX+1,LMAX+1))
+
+    if np.isclose([theta.min(),theta.max()],[0.0,np.pi]).all():
         # non-endpoints
-        nt = np.dot(mm,theta[1:nlat-1][np.newaxis,:])
+        nt = np.dot(nn,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,1:nlat-1],np.cos(nt).T)
         theta_cc[m_odd,:] = 2.0*np.dot(dcos[m_odd,1:nlat-1],np.sin(nt).T)
         theta_sc[m_odd,:] = 2.0*np.dot(dsin[m_odd,1:nlat-1],np.sin(nt).T)
 
-        # endpoints
-        theta_cc[m_even,:] += np.dot((dcos[m_even,0]*np.cos(theta[0]) +
-            dcos[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_even,:] += np.dot((dsin[m_even,0]*np.cos(theta[0]) +
-            dsin[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_cc[m_odd,:] += np.dot((dcos[m_odd,0]*np.sin(theta[0]) +
-            dcos[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_odd,:] += np.dot((dsin[m_odd,0]*np.sin(theta[0]) +
-            dsin[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-
-    elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
-        nt = np.dot(mm,theta[np.newaxis,:])
+        # endpoints (sine terms are 0 at the poles)
+        nt = np.dot(nn,theta[[0,nlat-1]][np.newaxis,:])
+        theta_cc[m_even,:] += np.dot(dcos[m_even[:,np.newaxis],[0,nlat-1]],
+            np.cos(nt).T)
+        theta_sc[m_even,:] += np.dot(dsin[m_even[:,np.newaxis],[0,nlat-1]],
+            np.cos(nt).T)
+
+    elif not np.isclose([theta.min(),theta.max()],[0.0,np.pi]).any():
+        nt = np.dot(nn,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
         theta_cc[m_odd,:] = 2.0*np.dot(dcos[m_odd,:],np.sin(nt).T)
@@ -316,9 +316,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
 
     # Normalize theta fourier coefficients
     theta_cc[:,0] = theta_cc[:,0]/(2.0*nlat)
-    theta_cc[:,1:MMAX+1] = theta_cc[:,1:MMAX+1]/nlat
+    theta_cc[:,1:LMAX+1] = theta_cc[:,1:LMAX+1]/nlat
     theta_sc[:,0] = theta_sc[:,0]/(2.0*nlat)
-    theta_sc[:,1:MMAX+1] = theta_sc[:,1:MMAX+1]/nlat
+    theta_sc[:,1:LMAX+1] = theta_sc[:,1:LMAX+1]/nlat
 
     # Correct normalization for the incomplete coverage of the sphere
     delphi = np.abs(phi[1]-phi[0])
@@ -348,48 +348,48 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     # n and k must have like parities
 
     # m = even terms
-    k_even = np.zeros((n_even,n_even))
-    for n in range(0,MMAX+2,2):
-        k_even[:,n//2] = 0.5*(1.0/(1.0-m_even-n) + 1.0/(1.0+m_even-n) +
-            1.0/(1.0-m_even+n) + 1.0/(1.0+m_even+n))
+    k_even = np.zeros((len(n_even),len(n_even)))
+    for n in n_even:
+        k_even[:,n//2] = 0.5*(1.0/(1.0-n_even-n) + 1.0/(1.0+n_even-n) +
+            1.0/(1.0-n_even+n) + 1.0/(1.0+n_even+n))
 
-    k_odd = np.zeros((n_odd,n_odd))
-    for n in range(1,MMAX+1,2):
-        k_odd[:,(n-1)//2] = 0.5*(1.0/(1-m_odd-n) + 1.0/(1+m_odd-n) +
-            1.0/(1-m_odd+n) + 1.0/(1+m_odd+n))
+    k_odd = np.zeros((len(n_odd),len(n_odd)))
+    for n in n_odd:
+        k_odd[:,(n-1)//2] = 0.5*(1.0/(1-n_odd-n) + 1.0/(1+n_odd-n) +
+            1.0/(1-n_odd+n) + 1.0/(1+n_odd+n))
 
     # calculate spherical harmonics for m == even terms
     l_even = np.arange(0,LMAX+1,2)
-    l_odd = np.arange(1,LMAX,2)
-    for m in range(0,MMAX+2,2):
-        temp = np.dot(plm[l_even,m,m_even[:,np.newaxis]].T,k_even)
-        Ylms.clm[l_even,m] = np.dot(theta_cc[m,m_even[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_even,m] = np.dot(theta_sc[m,m_even[:,np.newaxis]].T,temp.T)
-        temp = np.dot(plm[l_odd,m,m_odd[:,np.newaxis]].T,k_odd)
-        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,m_odd[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,m_odd[:,np.newaxis]].T,temp.T)
+    l_odd = np.arange(1,LMAX+1,2)
+    for m in m_even:
+        temp = np.dot(plm[l_even,m,n_even[:,np.newaxis]].T,k_even)
+        Ylms.clm[l_even,m] = np.dot(theta_cc[m,n_even[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_even,m] = np.dot(theta_sc[m,n_even[:,np.newaxis]].T,temp.T)
+        temp = np.dot(plm[l_odd,m,n_odd[:,np.newaxis]].T,k_odd)
+        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,n_odd[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,n_odd[:,np.newaxis]].T,temp.T)
 
     # m = odd terms
-    k_even = np.zeros((n_even,n_even))
-    for n in range(0,MMAX+2,2):
-        k_even[:,n//2] = 0.5*(-1.0/(1-m_even-n) + 1.0/(1.0+m_even-n) +
-            1.0/(1.0-m_even+n) - 1.0/(1.0+m_even+n))
+    k_even = np.zeros((len(n_even),len(n_even)))
+    for n in n_even:
+        k_even[:,n//2] = 0.5*(-1.0/(1-n_even-n) + 1.0/(1.0+n_even-n) +
+            1.0/(1.0-n_even+n) - 1.0/(1.0+n_even+n))
 
-    k_odd = np.zeros((n_odd,n_odd))
-    for n in range(1,MMAX+1,2):
-        k_odd[:,(n-1)//2] = 0.5*(-1.0/(1-m_odd-n) + 1.0/(1.0+m_odd-n) +
-            1.0/(1.0-m_odd+n) - 1.0/(1.0+m_odd+n))
+    k_odd = np.zeros((len(n_odd),len(n_odd)))
+    for n in n_odd:
+        k_odd[:,(n-1)//2] = 0.5*(-1.0/(1-n_odd-n) + 1.0/(1.0+n_odd-n) +
+            1.0/(1.0-n_odd+n) - 1.0/(1.0+n_odd+n))
 
     # calculate spherical harmonics for m == odd terms
     l_even = np.arange(2,LMAX+1,2)# do not in include l=0
-    l_odd = np.arange(1,LMAX,2)
-    for m in range(1,MMAX+1,2):
-        temp = np.dot(plm[l_even,m,m_even[:,np.newaxis]].T,k_even)
-        Ylms.clm[l_even,m] = np.dot(theta_cc[m,m_even[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_even,m] = np.dot(theta_sc[m,m_even[:,np.newaxis]].T,temp.T)
-        temp = np.dot(plm[l_odd,m,m_odd[:,np.newaxis]].T,k_odd)
-        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,m_odd[:,np.newaxis]].T,temp.T)
-        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,m_odd[:,np.newaxis]].T,temp.T)
+    l_odd = np.arange(1,LMAX+1,2)
+    for m in m_odd:
+        temp = np.dot(plm[l_even,m,n_even[:,np.newaxis]].T,k_even)
+        Ylms.clm[l_even,m] = np.dot(theta_cc[m,n_even[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_even,m] = np.dot(theta_sc[m,n_even[:,np.newaxis]].T,temp.T)
+        temp = np.dot(plm[l_odd,m,n_odd[:,np.newaxis]].T,k_odd)
+        Ylms.clm[l_odd,m] = np.dot(theta_cc[m,n_odd[:,np.newaxis]].T,temp.T)
+        Ylms.slm[l_odd,m] = np.dot(theta_sc[m,n_odd[:,np.newaxis]].T,temp.T)
 
     # Divide by Plm normalization
     Ylms.clm[:,0] /= 2.0
-- 
2.43.0


From 453108142a81ce6d5080ab10deec6a9d397628a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 040/169] fix: horizontal gradients of harmonic fields

The meridional gradient combined the coefficients as a derivative with
respect to longitude, the zonal gradient had the opposite sign, and fields
truncated in order or of odd order raised an exception.
---
 gravity_toolkit/harmonic_gradients.py | 33 ++++++++++++++-------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index dfc5ae3..3570477 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -81,11 +81,11 @@ def harmonic_gradients(clm1, slm1, lon, lat,
         MMAX = np.copy(LMAX)
 
     # Longitude in radians
-    phi = (np.squeeze(lon)*np.pi/180.0)[np.newaxis,:]
+    phi = (np.ravel(lon)*np.pi/180.0)[np.newaxis,:]
     # Colatitude in radians
-    th = (90.0 - np.squeeze(lat))*np.pi/180.0
-    thmax = len(np.squeeze(lat))
-    phimax = len(np.squeeze(lon))
+    th = (90.0 - np.ravel(lat))*np.pi/180.0
+    thmax = len(th)
+    phimax = phi.shape[1]
 
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
@@ -101,18 +101,19 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     # generate Vlm coefficients (vlm and wlm)
     vlm, wlm = legendre_gradient(LMAX, MMAX)
 
-    dlm = np.zeros((LMAX+1,LMAX+1,2))
-    # minus sign is because lat and theta change with opposite sign
+    dlm = np.zeros((LMAX+1,MMAX+1,2))
+    # vlm are the derivatives with respect to latitude
+    # (lat and theta change with opposite sign)
     for l in range(0,LMAX+1):
-        dlm[l,:,0] = -clm[l,:]*np.sqrt((l+1.0)*l)
-        dlm[l,:,1] = -slm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,0] = clm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,1] = slm[l,:]*np.sqrt((l+1.0)*l)
 
-    m_even = np.arange(0,MMAX+2,2)
-    m_odd = np.arange(1,MMAX,2)
+    m_even = np.arange(0,MMAX+1,2)
+    m_odd = np.arange(1,MMAX+1,2)
 
     # Calculate fourier coefficients from legendre coefficients
-    d_cos = np.zeros((LMAX+1,thmax,2))
-    d_sin = np.zeros((LMAX+1,thmax,2))
+    d_cos = np.zeros((MMAX+1,thmax,2))
+    d_sin = np.zeros((MMAX+1,thmax,2))
     cnk = np.cos(np.dot(th[:,np.newaxis],ll))
     snk = np.sin(np.dot(th[:,np.newaxis],ll))
 
@@ -127,8 +128,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_even,:,0] = np.dot(wtmp[:,:,1],np.transpose(snk))
     d_sin[m_even,:,0] = np.dot(-wtmp[:,:,0],np.transpose(snk))
-    d_cos[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,1] = np.dot(vtmp[:,:,0],np.transpose(snk))
+    d_sin[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
 
     # m = odd terms (vlm,wlm cosine series)
     wtmp = np.zeros((len(m_odd),LMAX+1,2))
@@ -141,8 +142,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_odd,:,0] = np.dot(wtmp[:,:,1],np.transpose(cnk))
     d_sin[m_odd,:,0] = np.dot(-wtmp[:,:,0],np.transpose(cnk))
-    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,0],np.transpose(cnk))
+    d_sin[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
 
     # Calculating cos(m*phi) and sin(m*phi)
     ccos = np.cos(np.dot(mm,phi))
-- 
2.43.0


From 948c7df59b9c361c93afbf1a37a49c774d44e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 041/169] fix: geostrophic currents at the maximum degree, with
 a minimum degree, for Love numbers as a tuple and single positions

---
 gravity_toolkit/harmonic_gradients.py | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 3570477..f90d929 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -206,10 +206,10 @@ def geostrophic_currents(clm1, slm1, lon, lat,
         MMAX = np.copy(LMAX)
 
     # Longitude in radians
-    phi = (np.squeeze(lon)*np.pi/180.0)[np.newaxis,:]
-    phmax = len(lon)
+    phi = (np.ravel(lon)*np.pi/180.0)[np.newaxis,:]
+    phmax = phi.shape[1]
     # colatitude in radians
-    th = (90.0 - np.squeeze(lat))*np.pi/180.0
+    th = (90.0 - np.ravel(lat))*np.pi/180.0
     thmax = len(th)
 
     # Gaussian Smoothing
@@ -221,7 +221,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
 
     # Setting units factor for output
     # extract arrays of kl, hl, and ll Love Numbers
-    factors = units(lmax=LMAX).harmonic(*LOVE)
+    hl, kl, ll = LOVE
+    factors = units(lmax=LMAX).harmonic(hl, kl, ll)
     coeff = factors.g_wmo*factors.rho_e/(6.0*factors.omega*DENSITY)
 
     # if plms are not pre-computed: calculate Legendre polynomials
@@ -232,28 +233,33 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     clm = np.zeros((LMAX+1, MMAX+1, 2))
     slm = np.zeros((LMAX+1, MMAX+1, 2))
     # zonal flow harmonics
-    for l in range(1, LMAX):
+    for l in range(1, LMAX+1):
         # truncate to degree and order
         mm = np.arange(0, np.min([l,MMAX])+1)
-        temp1 = (l - 1.0)/(1.0 + LOVE.kl[l-1]) * \
+        temp1 = (l - 1.0)/(1.0 + kl[l-1]) * \
             np.sqrt((l**2 - mm**2)*(2.0*l - 1.0)/(2.0*l + 1))
-        temp2 = (l + 2.0)/(1.0 + LOVE.kl[l+1]) * \
+        clm[l,mm,0] = coeff*wl[l]*temp1*clm1[l-1,mm]
+        slm[l,mm,0] = coeff*wl[l]*temp1*slm1[l-1,mm]
+        # there are no coefficients above degree LMAX
+        if (l == LMAX):
+            continue
+        temp2 = (l + 2.0)/(1.0 + kl[l+1]) * \
             np.sqrt(((l+1)**2 - mm**2)*(2.0*l + 3.0)/(2.0*l + 1))
-        clm[l,mm,0] = coeff*wl[l]*(temp1*clm1[l-1,mm] - temp2*clm1[l+1,mm])
-        slm[l,mm,0] = coeff*wl[l]*(temp1*slm1[l-1,mm] - temp2*slm1[l+1,mm])
+        clm[l,mm,0] -= coeff*wl[l]*temp2*clm1[l+1,mm]
+        slm[l,mm,0] -= coeff*wl[l]*temp2*slm1[l+1,mm]
     # meridional flow harmonics
     for l in range(0, LMAX+1):
         # truncate to degree and order
         mm = np.arange(0, np.min([l,MMAX])+1)
-        temp = mm*(2.0*l + 1.0)/(1.0 + LOVE.kl[l])
+        temp = mm*(2.0*l + 1.0)/(1.0 + kl[l])
         clm[l,mm,1] = -coeff*wl[l]*temp*slm1[l,mm]
         slm[l,mm,1] = coeff*wl[l]*temp*clm1[l,mm]
 
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
     mm = np.arange(0, MMAX+1)
-    clm[LMIN:LMAX+1,mm,:] = clm[LMIN:LMAX+1,mm,:]
-    slm[LMIN:LMAX+1,mm,:] = slm[LMIN:LMAX+1,mm,:]
+    clm[:LMIN,mm,:] = 0.0
+    slm[:LMIN,mm,:] = 0.0
 
     # Calculate fourier coefficients from legendre coefficients
     d_cos = np.zeros((MMAX+1,thmax,2))# [m,th]
-- 
2.43.0


From c8cb1306580e2be2dc1e103afe059c93d14e6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 042/169] fix: expansions of single point loads and of disc and
 cap loads

A single point, and discs or caps for a scalar argument of the Legendre
polynomials or truncated to order zero, raised an exception.
---
 gravity_toolkit/gen_disc_load.py     | 6 +++---
 gravity_toolkit/gen_point_load.py    | 2 +-
 gravity_toolkit/gen_spherical_cap.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 015b391..6f651df 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -181,8 +181,8 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculate Legendre Polynomials using Holmes and Featherstone relation
@@ -191,7 +191,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = plmout[:,:MMAX+1,0]
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
diff --git a/gravity_toolkit/gen_point_load.py b/gravity_toolkit/gen_point_load.py
index 8cf05d8..4c37c47 100644
--- a/gravity_toolkit/gen_point_load.py
+++ b/gravity_toolkit/gen_point_load.py
@@ -173,7 +173,7 @@ def spherical_harmonic_matrix(l, data, phi, theta, coeff):
     # spherical harmonic orders up to degree l
     m = np.arange(0, l+1)
     # calculate Euler's of spherical harmonic order multiplied by azimuth phi
-    mphi = np.exp(1j*np.dot(np.squeeze(phi)[:,np.newaxis], m[np.newaxis,:]))
+    mphi = np.exp(1j*np.dot(phi[:,np.newaxis], m[np.newaxis,:]))
     # reshape data to order
     D = np.kron(np.ones((1, l+1)), data[:,np.newaxis])
     # calculate spherical harmonics and multiply by coefficients and data
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 208d888..4f8165f 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -223,8 +223,8 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculating Legendre Polynomials
@@ -234,7 +234,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = plmout[:,:MMAX+1,0]
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
-- 
2.43.0


From 0ed7c9338babe0f2f813e57b87602fd382457d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 043/169] fix: spatial factor for millimeters geoid height

---
 gravity_toolkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 6fb2010..a6cc9a2 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -240,7 +240,7 @@ class units(object):
         # mmwe, millimeters water equivalent [kg/m^2]
         self.mmwe = 3.0*fraction/(1.0+2.0*self.l)/(40.0*np.pi*self.rad_e*self.rho_e)
         # mmGH, millimeters geoid height
-        self.mmGH = np.ones((self.lmax+1))/(4.0*np.pi*self.rad_e)
+        self.mmGH = np.ones((self.lmax+1))/(40.0*np.pi*self.rad_e)
         # microGal, microGal gravity perturbations
         self.microGal = (self.rad_e**2.0)/(4.0*np.pi*1.e6*self.GM)/(self.l+1.0)
         # return the degree dependent unit conversions
-- 
2.43.0


From 8cdd259fca0e2a59288751e750c3fdb2da968752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 044/169] fix: refuse negative codes for units

---
 gravity_toolkit/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index a6cc9a2..8e5896f 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -280,6 +280,9 @@ class units(object):
             'cmVCU' # 6: cmVCU, cm viscoelastic crustal uplift (GIA)
         ]
         try:
+            # negative codes would index from the end of the list
+            if (var < 0):
+                raise IndexError('negative units code')
             return named_units[var]
         except Exception as exc:
             raise ValueError(f'Unknown units code {var}') from exc
-- 
2.43.0


From 192025aa73b1f48493f20156e50e5c7775bb941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 045/169] fix: attributes for units of pascals

---
 gravity_toolkit/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 8e5896f..a3324a4 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -306,6 +306,7 @@ class units(object):
             mmCH=('mm','Horizontal_Elastic_Crustal_Deformation'),
             microGal=(u'\u03BCGal', 'Gravitational_Undulation'),
             mbar=('mbar', 'Equivalent_Surface_Pressure'),
+            Pa=('Pa', 'Equivalent_Surface_Pressure'),
             cmVCU=('cm', 'Viscoelastic_Crustal_Uplift'),
             mVCU=('meters', 'Viscoelastic_Crustal_Uplift')
         )
-- 
2.43.0


From c2072cbeecc05e47b4ff51bdd471745e40a76991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 046/169] fix: keep the last Love numbers of a file when
 extrapolating

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f1b2f44..f579127 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -204,7 +204,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
     # maximum degree of the Love/Shida numbers dataset
-    for lint in range(l,LMAX+1):
+    for lint in range(l+1,LMAX+1):
         # linearly extrapolate to maximum degree
         for n in ('hl','kl','ll'):
             love[n][lint] = 2.0*love[n][lint-1] - love[n][lint-2]
-- 
2.43.0


From 8fe1c2028fc9b53e0561c70edb981e42a44d8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 047/169] fix: interpolate Love numbers towards the degrees
 above the truncation

Degrees after the last one of the file below the maximum degree were held
constant instead of interpolated.
---
 gravity_toolkit/read_love_numbers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f579127..39f1077 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -171,6 +171,8 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         love[n] = np.zeros((LMAX+1))
     # check if needing to interpolate between degrees
     flag = np.ones((LMAX+1),dtype=bool)
+    # degrees and Love/Shida numbers of the file for interpolating
+    nodes = dict(l=[], hl=[], kl=[], ll=[])
     # for each line in the file (skipping header lines)
     for file_line in file_contents[HEADER:]:
         # find numerical instances in line
@@ -179,6 +181,10 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         # spherical harmonic degree
         degree = love_numbers[COLUMNS.index('l')]
         l = _default_max_degree if (degree == 'inf') else int(degree)
+        # save values for interpolating between degrees
+        nodes['l'].append(l)
+        for n in ('hl','kl','ll'):
+            nodes[n].append(np.float64(love_numbers[COLUMNS.index(n)]))
         # truncate to spherical harmonic degree LMAX
         if (l <= LMAX):
             # convert Love/Shida numbers to float
@@ -186,7 +192,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
             # gravitational potential kl
             # horizontal displacement ll (Shida number)
             for n in ('hl','kl','ll'):
-                love[n][l] = np.float64(love_numbers[COLUMNS.index(n)])
+                love[n][l] = nodes[n][-1]
             # set interpolation flag for degree
             flag[l] = False
 
@@ -199,7 +205,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         # linearly interpolate following Wahr (1998)
         for n in ('hl','kl','ll'):
             love[n][flag] = np.interp(love['l'][flag],
-                love['l'][~flag], love[n][~flag])
+                nodes['l'], nodes[n])
 
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
-- 
2.43.0


From 15898dc93d389aa37fc5fc152c021792136dbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 048/169] fix: transform Love numbers from any reference frame

The numbers were assumed to be in the frame of the solid Earth, so that
transforming numbers of another frame (or twice) gave a wrong degree one.
---
 gravity_toolkit/read_love_numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index 39f1077..d133745 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -530,10 +530,10 @@ class love_numbers(object):
             alpha = self.hl[1].copy()
         elif (reference.upper() == 'CM'):
             # Center of Mass of Earth System
-            alpha = 1.0
+            alpha = 1.0 + self.kl[1]
         elif (reference.upper() == 'CE'):
             # Center of Mass of Solid Earth
-            alpha = 0.0
+            alpha = 0.0 + self.kl[1]
         else:
             raise Exception(f'Invalid Reference Frame {reference}')
         # apply isomorphic parameters
-- 
2.43.0


From 5e7ea9276eb2274abd299fd2ee606717275a9f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 049/169] fix: maximum degree of Love number files with Fortran
 exponents

---
 gravity_toolkit/read_love_numbers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index d133745..2bbec89 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -154,7 +154,8 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     rx = re.compile(regex_pattern, re.VERBOSE)
 
     # extract maximum spherical harmonic degree from final line in file
-    degree = rx.findall(file_contents[-1])[COLUMNS.index('l')]
+    final_line = file_contents[-1].replace('D','E')
+    degree = rx.findall(final_line)[COLUMNS.index('l')]
     if LMAX is None and (degree == 'inf'):
         LMAX = np.copy(_default_max_degree)
     elif LMAX is None:
-- 
2.43.0


From 623390b819171cccb12f1027807666796dd04696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 050/169] fix: Gaussian weights and averaging kernels of degree
 zero

---
 gravity_toolkit/gauss_weights.py        | 3 ++-
 gravity_toolkit/gen_averaging_kernel.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gauss_weights.py b/gravity_toolkit/gauss_weights.py
index 29849fb..1a37eb0 100755
--- a/gravity_toolkit/gauss_weights.py
+++ b/gravity_toolkit/gauss_weights.py
@@ -81,7 +81,8 @@ def gauss_weights(hw, LMAX, CUTOFF=1e-10):
         # weight for degree 0
         wl[0] = 1.0/(2.0*np.pi)
         # weight for degree 1
-        wl[1] = wl[0]*((1.0+np.exp(-2.0*b))/(1.0-np.exp(-2.0*b))-1.0/b)
+        if (LMAX >= 1):
+            wl[1] = wl[0]*((1.0+np.exp(-2.0*b))/(1.0-np.exp(-2.0*b))-1.0/b)
         # valid flag
         valid = True
         # spherical harmonic degree
diff --git a/gravity_toolkit/gen_averaging_kernel.py b/gravity_toolkit/gen_averaging_kernel.py
index 429a07f..58bacf6 100755
--- a/gravity_toolkit/gen_averaging_kernel.py
+++ b/gravity_toolkit/gen_averaging_kernel.py
@@ -124,7 +124,8 @@ def gen_averaging_kernel(gclm, gslm, eclm, eslm, sigma, hw,
     # weight for degree 0
     gl[0] = (1.0-np.exp(-2.0*b))/b
     # weight for degree 1
-    gl[1] = (1.0+np.exp(-2.0*b))/b - (1.0-np.exp(-2.0*b))/b**2
+    if (LMAX >= 1):
+        gl[1] = (1.0+np.exp(-2.0*b))/b - (1.0-np.exp(-2.0*b))/b**2
     # valid flag
     valid = True
     # spherical harmonic degree
-- 
2.43.0


From fc558c1c2586c028e913780f8ec2d2891166fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 051/169] fix: take the root of the propagated variance in
 piecewise regression

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index e234900..3f31f0d 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -311,7 +311,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         NORMEQ = np.dot(Hinv,np.transpose(DMAT))
         temp_err = np.zeros((n_terms))
         for i in range(0,n_terms):
-            temp_err[i] = np.sum((NORMEQ[i,:]*P_err)**2)
+            temp_err[i] = np.sqrt(np.sum((NORMEQ[i,:]*P_err)**2))
         # Recalculating beta2 error
         beta_err = np.copy(temp_err)
         beta_err[2] = np.sqrt(temp_err[1]**2 + temp_err[2]**2)
-- 
2.43.0


From 31a962f40bac76d62b689ba47d2eba6f8b1783ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 052/169] fix: output the simple model for every type of
 piecewise regression

---
 gravity_toolkit/time_series/piecewise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 3f31f0d..a232a3c 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -300,7 +300,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
 
         return {'beta':beta_out, 'error':beta_err, 'R2':rsquare,
             'R2Adj':rsq_adj, 'WSSE':WSSE, 'AIC':AIC, 'BIC':BIC,
-            'LOGLIK':log_lik, 'model':mod, 'residual':res,
+            'LOGLIK':log_lik, 'model':mod, 'simple':simple, 'residual':res,
             'N':n_terms, 'DOF':nu, 'cov_mat':Hinv}
 
     elif ((not WEIGHT) and (DATA_ERR != 0)):
@@ -321,7 +321,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
 
         return {'beta':beta_out, 'error':beta_err, 'R2':rsquare,
             'R2Adj':rsq_adj, 'MSE':MSE, 'AIC':AIC, 'BIC':BIC,
-            'LOGLIK':log_lik, 'model':mod, 'residual':res,
+            'LOGLIK':log_lik, 'model':mod, 'simple':simple, 'residual':res,
             'N':n_terms, 'DOF':nu, 'cov_mat':Hinv}
     else:
         # STANDARD LEAST-SQUARES CASE
-- 
2.43.0


From 7ca8b5554d28156b7a48062c5d9ad2e5c2019fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 053/169] fix: keep dates before the break time on the first
 piecewise trend

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index a232a3c..f60e85b 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -192,7 +192,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         DMAT.append(t_in**o)
     # Linear Term 2 (change from linear term1: trend2 = beta1+beta2)
     P_x1 = np.zeros((nmax))
-    P_x1[nco:] = t_in[nco:] - tco
+    P_x1[nco:] = np.maximum(t_in[nco:] - tco, 0.0)
     DMAT.append(P_x1)
     # add cyclical terms (0.5=semi-annual, 1=annual)
     for c in CYCLES:
-- 
2.43.0


From f2bdf15c966c9bbaac01f69308576b9bd1a46c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 054/169] fix: accept lists and keep input errors unchanged in
 weighted fits

---
 gravity_toolkit/time_series/piecewise.py | 2 ++
 gravity_toolkit/time_series/regress.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index f60e85b..9564985 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -209,6 +209,8 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         # Weighted Least-Squares fitting
         if (np.ndim(DATA_ERR) == 0):
             raise ValueError('Input DATA_ERR for Weighted Least-Squares')
+        # copy errors as floating point values (keep input unchanged)
+        DATA_ERR = np.array(DATA_ERR, dtype=np.float64)
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index bca9ecd..6c9fde6 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -220,6 +220,8 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         # Weighted Least-Squares fitting
         if (np.ndim(DATA_ERR) == 0):
             raise ValueError('Input DATA_ERR for Weighted Least-Squares')
+        # copy errors as floating point values (keep input unchanged)
+        DATA_ERR = np.array(DATA_ERR, dtype=np.float64)
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-- 
2.43.0


From ac8dfb5574cfc6fc06345a6db1e3cc52decd7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 055/169] fix: convert temporal to angular frequencies in
 lomb_scargle

---
 gravity_toolkit/time_series/lomb_scargle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/lomb_scargle.py b/gravity_toolkit/time_series/lomb_scargle.py
index f24c332..89589d6 100755
--- a/gravity_toolkit/time_series/lomb_scargle.py
+++ b/gravity_toolkit/time_series/lomb_scargle.py
@@ -116,7 +116,7 @@ def lomb_scargle(t_in, d_in, **kwargs):
     if kwargs['OMEGA']:
         OMEGA = np.atleast_1d(kwargs['OMEGA'])
     elif kwargs['FREQUENCY']:
-        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])/(2.0*np.pi)
+        OMEGA = 2.0*np.pi*np.atleast_1d(kwargs['FREQUENCY'])
     elif kwargs['PERIOD']:
         OMEGA = (2.0*np.pi)/np.atleast_1d(kwargs['PERIOD'])
     else:
-- 
2.43.0


From caffc30686a77cbcd372e69caa45902346e6a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 056/169] fix: use arrays for the savitzky_golay design matrix
 (np.mat was removed)

---
 gravity_toolkit/time_series/savitzky_golay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/savitzky_golay.py b/gravity_toolkit/time_series/savitzky_golay.py
index a95e4a0..ccf8e23 100644
--- a/gravity_toolkit/time_series/savitzky_golay.py
+++ b/gravity_toolkit/time_series/savitzky_golay.py
@@ -123,10 +123,10 @@ def savitzky_golay(t_in, y_in, WINDOW=None, ORDER=2, DERIV=0,
     for n in range(0, (nmax-(2*half_window))):
         yran = y_in[n + np.arange(0, 2*half_window+1)]
         # Vandermonde matrix for the time-series
-        b = np.mat([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
+        b = np.array([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
             for k in range(n, n+2*half_window+1)])
         # compute the pseudoinverse of the design matrix
-        m=np.linalg.pinv(b).A[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
+        m=np.linalg.pinv(b)[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
         # pad the signal at the extremes with values taken from the signal
         firstvals = yran[0] - np.abs(yran[1:half_window+1][::-1] - yran[0])
         lastvals = yran[-1] + np.abs(yran[-half_window-1:-1][::-1] - yran[-1])
-- 
2.43.0


From e79e75f99272de6ae662cd6cc2beb77b71367de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 057/169] fix: keep longitude by latitude orientation of square
 grids in sea_level_equation

---
 gravity_toolkit/sea_level_equation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/sea_level_equation.py b/gravity_toolkit/sea_level_equation.py
index 712853f..2b62123 100644
--- a/gravity_toolkit/sea_level_equation.py
+++ b/gravity_toolkit/sea_level_equation.py
@@ -299,7 +299,9 @@ def sea_level_equation(loadClm, loadSlm, glon, glat, land_function, LMAX=0,
     # total mass of the surface mass load [g] from harmonics
     tmass = 4.0*np.pi*(rad_e**3.0)*rho_e*loadClm[0,0]/3.0
     # convert ocean function into a series of spherical harmonics
-    ocean_Ylms = gen_harmonics(ocean_function,glon,glat,LMAX=LMAX,PLM=PLM)
+    # (as lat/lon grids to be unambiguous for square grids)
+    ocean_Ylms = gen_harmonics(np.transpose(ocean_function), glon, glat,
+        LMAX=LMAX, PLM=PLM)
     # total area of ocean calculated by integrating the ocean function
     ocean_area = 4.0*np.pi*ocean_Ylms.clm[0,0]
 
@@ -359,7 +361,8 @@ def sea_level_equation(loadClm, loadSlm, glon, glat, land_function, LMAX=0,
         sea_level[ii,jj] = np.sqrt(3.0)*u*s_m + gsmc[ii,jj]
 
         # calculate spherical harmonic field for iteration
-        Ylms = gen_harmonics(sea_level, glon, glat, LMAX=LMAX, PLM=PLM)
+        Ylms = gen_harmonics(np.transpose(sea_level), glon, glat,
+            LMAX=LMAX, PLM=PLM)
         # total sea level height for iteration
         # integrated total rmass will differ as sea_level is only over ocean
         # whereas the crustal and gravitational effects are global
-- 
2.43.0


From 121c89e9c1d22c6293d33e78e63a99b4c936f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 058/169] fix: read drift rates of RL04 solutions only up to
 the truncation degree and order

---
 gravity_toolkit/read_GRACE_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 4a628e8..b53fbc8 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -233,8 +233,10 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
             l1 = np.int64(line_contents[1])
             m1 = np.int64(line_contents[2])
             # Reading Drift rates for low degree harmonics
-            drift_c[l1,m1] = np.float64(line_contents[3])
-            drift_s[l1,m1] = np.float64(line_contents[4])
+            # if degree and order are below the truncation limits
+            if ((l1 <= LMAX) and (m1 <= MMAX)):
+                drift_c[l1,m1] = np.float64(line_contents[3])
+                drift_s[l1,m1] = np.float64(line_contents[4])
 
     # Adding drift rates to clm and slm for RL04
     # if drift rates exist at any time, will add to harmonics
-- 
2.43.0


From 08116d27c8432f781b5fda79a01f291916d3f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 059/169] fix: pass the truncation degree when reading SHM
 files with harmonics.from_file

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 5fb83a0..fbf1a7a 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -725,7 +725,7 @@ class harmonics(object):
             return harmonics().from_gfc(filename, **kwargs)
         elif (format == 'SHM'):
             # spherical harmonic model
-            return harmonics().from_SHM(filename, self.lmax, **kwargs)
+            return harmonics(lmax=self.lmax).from_SHM(filename, **kwargs)
 
     def from_dict(self, d, **kwargs):
         """
-- 
2.43.0


From 82a146cdb9f68be129d52c201eb23c60cc4b9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 060/169] fix: set the degree and order of harmonics read with
 from_SHM

---
 gravity_toolkit/harmonics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index fbf1a7a..d914148 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -569,6 +569,9 @@ class harmonics(object):
         self.slm = Ylms['slm'].copy()
         self.time = Ylms['time'].copy()
         self.month = np.int64(calendar_to_grace(self.time))
+        # maximum degree and order
+        self.lmax = np.max(Ylms['l'])
+        self.mmax = np.max(Ylms['m'])
         # copy header information for gravity model
         self.header = Ylms['header']
         # assign degree and order fields
-- 
2.43.0


From 61fce93621bd6b64f768b049d2572f4118b4df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 061/169] fix: parse the file names of Swarm dealiasing
 products

---
 gravity_toolkit/read_gfc_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_gfc_harmonics.py b/gravity_toolkit/read_gfc_harmonics.py
index d344488..17b08fb 100644
--- a/gravity_toolkit/read_gfc_harmonics.py
+++ b/gravity_toolkit/read_gfc_harmonics.py
@@ -178,7 +178,7 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
     elif re.match(swarm_model, input_file.name):
         # compile numerical expression operator for parameters from files
         # Swarm: dealiasing products for Swarm data
-        rx = re.compile(swarm_data, re.VERBOSE | re.IGNORECASE)
+        rx = re.compile(swarm_model, re.VERBOSE | re.IGNORECASE)
         # extract parameters from input filename
         PROD,trunc,month,year,SFX = rx.findall(input_file.name).pop()
         # number of days in each month for the calendar year
-- 
2.43.0


From 9f240bec58540d86ee6c6bbad531eb44a45c6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 062/169] fix: calculate the months of gfc files read with
 harmonics.from_gfc

---
 gravity_toolkit/harmonics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index d914148..f0b9a74 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -530,8 +530,7 @@ class harmonics(object):
         # copy date variables
         if kwargs['date']:
             self.time = Ylms['time'].copy()
-            # adjust months to fix special cases if necessary
-            self.month = adjust_months(Ylms['month'])
+            self.month = np.int64(calendar_to_grace(self.time))
         # geophysical parameters of gravity model
         self.GM = np.float64(Ylms['earth_gravity_constant'])
         self.R = np.float64(Ylms['radius'])
-- 
2.43.0


From 0fb17fe9f8c14d63203c8a4682ca11310565bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 063/169] fix: unpack single-element dates when reading SLR and
 geocenter series

---
 gravity_toolkit/SLR/C20.py            | 20 ++++++++++----------
 gravity_toolkit/SLR/C30.py            |  2 +-
 gravity_toolkit/SLR/C50.py            |  2 +-
 gravity_toolkit/geocenter.py          |  4 ++--
 gravity_toolkit/read_SLR_harmonics.py |  2 +-
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 992018f..4d39422 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -330,7 +330,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[2])
@@ -390,7 +390,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                date_conv[t] = gravity_toolkit.time.convert_calendar_decimal(
+                date_conv[t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 C20_input[t] = np.float64(line_contents[2])
@@ -424,17 +424,17 @@ def C20(SLR_file, AOD=True, HEADER=True):
             count = np.count_nonzero(mon == dinput['month'][t])
             # there is only one solution for the month
             if (count == 1):
-                i = np.nonzero(mon == dinput['month'][t])
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                i, = np.nonzero(mon == dinput['month'][t])
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
             # there is a special solution for the month
             # will the solution flagged with slr_flag
             elif (count == 2):
-                i = np.nonzero((mon == dinput['month'][t]) & slr_flag)
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                i, = np.nonzero((mon == dinput['month'][t]) & slr_flag)
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
 
     # The 'Special Months' (Nov 2011, Dec 2011 and April 2012) with
     # Accelerometer shutoffs make the relation between month number
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 84c2dda..3cd9d3b 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -161,7 +161,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[5])
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index af93dad..53dff90 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -143,7 +143,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[10])
diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 02ce747..94107ab 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -706,9 +706,9 @@ class geocenter(object):
                 start_date = time.strptime(line_contents[7][:8],r'%Y%m%d')
                 end_date = time.strptime(line_contents[8][:8],r'%Y%m%d')
                 # convert date to year decimal
-                ts = gravity_toolkit.time.convert_calendar_decimal(start_date.tm_year,
+                ts, = gravity_toolkit.time.convert_calendar_decimal(start_date.tm_year,
                     start_date.tm_mon, day=start_date.tm_mday)
-                te = gravity_toolkit.time.convert_calendar_decimal(end_date.tm_year,
+                te, = gravity_toolkit.time.convert_calendar_decimal(end_date.tm_year,
                     end_date.tm_mon, day=end_date.tm_mday)
                 # calculate mean time
                 self.time[t] = np.mean([ts,te])
diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 9d596fe..39259b9 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -208,7 +208,7 @@ def read_CSR_monthly_6x1(SLR_file, SCALE=1e-10, HEADER=True):
         Ylms['MJD'][d] = np.mean(np.array(line_contents[5:7],dtype=np.float64))
         # date of the mid-point of the arc given in years
         YY,MM = np.array(line_contents[3:5])
-        Ylms['time'][d] = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
+        Ylms['time'][d], = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
         # add 1 to counter
         count += 1
 
-- 
2.43.0


From f489af19e9ca65a1af102a9548d59b6520f5e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 064/169] fix: read SLR column files that hold a single record

---
 gravity_toolkit/SLR/C20.py | 2 +-
 gravity_toolkit/SLR/C30.py | 2 +-
 gravity_toolkit/SLR/C40.py | 2 +-
 gravity_toolkit/SLR/C50.py | 2 +-
 gravity_toolkit/SLR/CS2.py | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 4d39422..45068b5 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -160,7 +160,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
         dtype['names'] = ('time','C20','delta','sigma','AOD','start','end')
         dtype['formats'] = ('f','f8','f','f','f','f','f')
         # header text is commented and won't be read
-        file_input = np.loadtxt(SLR_file, dtype=dtype)
+        file_input = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # date and GRACE/GRACE-FO month
         dinput['time'] = file_input['time']
         dinput['month'] = gravity_toolkit.time.calendar_to_grace(dinput['time'])
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 3cd9d3b..f808ad5 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -180,7 +180,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
             dinput[key] = val[:t]
     elif bool(re.search(r'C30_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file,skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C30 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C30_MEAN
diff --git a/gravity_toolkit/SLR/C40.py b/gravity_toolkit/SLR/C40.py
index b1dd7ab..1c21c7f 100644
--- a/gravity_toolkit/SLR/C40.py
+++ b/gravity_toolkit/SLR/C40.py
@@ -97,7 +97,7 @@ def C40(SLR_file, C40_MEAN=0.0, DATE=None, **kwargs):
         dinput['error'] = np.zeros_like(DATE,dtype='f8')
     elif bool(re.search(r'C40_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file, skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C40 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C40_MEAN
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index 53dff90..16dbe45 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -169,7 +169,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
         dinput['error'] = np.zeros_like(DATE,dtype='f8')
     elif bool(re.search(r'C50_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file, skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C50 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C50_MEAN
diff --git a/gravity_toolkit/SLR/CS2.py b/gravity_toolkit/SLR/CS2.py
index 372fad2..ee75225 100644
--- a/gravity_toolkit/SLR/CS2.py
+++ b/gravity_toolkit/SLR/CS2.py
@@ -134,7 +134,7 @@ def CS2(SLR_file, ORDER=1, DATE=None, HEADER=True):
         # Column 1: Approximate mid-point of 7-day solution (years)
         # Column 2: Solution from SLR (normalized)
         # Column 3: Solution from SLR (normalized)
-        content = np.loadtxt(SLR_file, dtype=dtype)
+        content = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # duplicate time and harmonics
         tdec = np.repeat(content['time'],7)
         c2m = np.repeat(content['C2'],7)
@@ -199,7 +199,7 @@ def CS2(SLR_file, ORDER=1, DATE=None, HEADER=True):
         # Column 6: Mean value of Atmosphere-Ocean De-aliasing model (1E-10)
         # Column 7: Mean value of Atmosphere-Ocean De-aliasing model (1E-10)
         # Columns 8-9: Start and end dates of data used in solution
-        content = np.loadtxt(SLR_file, dtype=dtype)
+        content = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # date and GRACE/GRACE-FO month
         dinput['time'] = content['time'].copy()
         dinput['month'] = gravity_toolkit.time.calendar_to_grace(dinput['time'])
-- 
2.43.0


From fc115cc108ecae106505fa0ae120e7c1e59ff7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 065/169] fix: only require the AOD1B directory of
 geocenter.from_SLR when removing AOD

---
 gravity_toolkit/geocenter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 94107ab..5d80f3b 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -343,12 +343,14 @@ class geocenter(object):
 
         # directory setup for AOD1b data starting with input degree 1 file
         # this will verify that the input paths work
-        base_dir = self.filename.parent.parent
-        self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
-        # check that AOD1B directory exists
-        if not self.directory.exists():
-            msg = f'{str(self.directory)} not found in file system'
-            raise FileNotFoundError(msg)
+        if kwargs['AOD']:
+            base_dir = self.filename.parent.parent
+            self.directory = base_dir.joinpath('AOD1B', kwargs['release'],
+                'geocenter')
+            # check that AOD1B directory exists
+            if not self.directory.exists():
+                msg = f'{str(self.directory)} not found in file system'
+                raise FileNotFoundError(msg)
 
         # Input geocenter file and split lines
         with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From b2c97fb3c5cf3004504efa65c54933efc69a5917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 066/169] fix: use the MMAX keyword of gia.from_GIA

---
 gravity_toolkit/read_GIA_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 39da6de..b4601a8 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -719,7 +719,7 @@ class gia(harmonics):
         kwargs.setdefault('verbose',False)
         # catch case where MMAX is entered
         if ('MMAX' in kwargs.keys()):
-            kwargs['mmax'] = np.copy(kwargs['mmax'])
+            kwargs['mmax'] = copy.copy(kwargs['MMAX'])
         # read data from GIA file
         Ylms = read_GIA_model(self.filename, GIA=kwargs['GIA'],
             LMAX=self.lmax, MMAX=kwargs['mmax'])
-- 
2.43.0


From dda380c44511b45247a854693f11d063f25a6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 067/169] fix: do not nest the attributes of harmonics
 converted to and from dictionaries

---
 gravity_toolkit/harmonics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f0b9a74..045eb23 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -748,7 +748,12 @@ class harmonics(object):
         self.lmax = np.max(d['l'])
         self.mmax = np.max(d['m'])
         # add attributes to root if in dictionary
-        self.attributes['ROOT'] = d.get('attributes')
+        attributes = d.get('attributes')
+        if attributes and ('ROOT' in attributes):
+            # attributes of a harmonics object (to_dict)
+            self.attributes.update(attributes)
+        else:
+            self.attributes['ROOT'] = attributes
         # assign degree and order fields
         self.update_dimensions()
         return self
-- 
2.43.0


From 35a8e58216b9e1c5171d33d7d800fd39af7e5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 068/169] fix: replace low degree harmonics with the single
 value of each month

---
 gravity_toolkit/grace_input_months.py | 38 +++++++++++++--------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b4cb61d..5bb91de 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -683,8 +683,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C20_input['month'] == grace_month)
             if (count != 0):
                 k, = np.nonzero(C20_input['month'] == grace_month)
-                grace_Ylms['clm'][2,0,i] = np.copy(C20_input['data'][k])
-                grace_Ylms['eclm'][2,0,i] = np.copy(C20_input['error'][k])
+                grace_Ylms['clm'][2,0,i], = np.copy(C20_input['data'][k])
+                grace_Ylms['eclm'][2,0,i], = np.copy(C20_input['error'][k])
 
     # Replace C21/S21 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_21'] in ('CSR','GFZ','GSFC'):
@@ -698,10 +698,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C21_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C21_input['month'] == grace_month)
-                grace_Ylms['clm'][2,1,i] = np.copy(C21_input['C2m'][k])
-                grace_Ylms['slm'][2,1,i] = np.copy(C21_input['S2m'][k])
-                grace_Ylms['eclm'][2,1,i] = np.copy(C21_input['eC2m'][k])
-                grace_Ylms['eslm'][2,1,i] = np.copy(C21_input['eS2m'][k])
+                grace_Ylms['clm'][2,1,i], = np.copy(C21_input['C2m'][k])
+                grace_Ylms['slm'][2,1,i], = np.copy(C21_input['S2m'][k])
+                grace_Ylms['eclm'][2,1,i], = np.copy(C21_input['eC2m'][k])
+                grace_Ylms['eslm'][2,1,i], = np.copy(C21_input['eS2m'][k])
 
     # Replace C22/S22 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_22'] in ('CSR','GSFC'):
@@ -715,10 +715,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C22_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C22_input['month'] == grace_month)
-                grace_Ylms['clm'][2,2,i] = np.copy(C22_input['C2m'][k])
-                grace_Ylms['slm'][2,2,i] = np.copy(C22_input['S2m'][k])
-                grace_Ylms['eclm'][2,2,i] = np.copy(C22_input['eC2m'][k])
-                grace_Ylms['eslm'][2,2,i] = np.copy(C22_input['eS2m'][k])
+                grace_Ylms['clm'][2,2,i], = np.copy(C22_input['C2m'][k])
+                grace_Ylms['slm'][2,2,i], = np.copy(C22_input['S2m'][k])
+                grace_Ylms['eclm'][2,2,i], = np.copy(C22_input['eC2m'][k])
+                grace_Ylms['eslm'][2,2,i], = np.copy(C22_input['eS2m'][k])
 
     # Replace C30 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C30'] in ('CSR','GFZ','GSFC','LARES'):
@@ -732,8 +732,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C30_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C30_input['month'] == grace_month)
-                grace_Ylms['clm'][3,0,i] = np.copy(C30_input['data'][k])
-                grace_Ylms['eclm'][3,0,i] = np.copy(C30_input['error'][k])
+                grace_Ylms['clm'][3,0,i], = np.copy(C30_input['data'][k])
+                grace_Ylms['eclm'][3,0,i], = np.copy(C30_input['error'][k])
 
     # Replace C40 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C40'] in ('CSR','GSFC','LARES'):
@@ -747,8 +747,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C40_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C40_input['month'] == grace_month)
-                grace_Ylms['clm'][4,0,i] = np.copy(C40_input['data'][k])
-                grace_Ylms['eclm'][4,0,i] = np.copy(C40_input['error'][k])
+                grace_Ylms['clm'][4,0,i], = np.copy(C40_input['data'][k])
+                grace_Ylms['eclm'][4,0,i], = np.copy(C40_input['error'][k])
 
     # Replace C50 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C50'] in ('CSR','GSFC','LARES'):
@@ -762,8 +762,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C50_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C50_input['month'] == grace_month)
-                grace_Ylms['clm'][5,0,i] = np.copy(C50_input['data'][k])
-                grace_Ylms['eclm'][5,0,i] = np.copy(C50_input['error'][k])
+                grace_Ylms['clm'][5,0,i], = np.copy(C50_input['data'][k])
+                grace_Ylms['eclm'][5,0,i], = np.copy(C50_input['error'][k])
 
     # Use Degree 1 coefficients
     # Tellus: Tellus Degree 1 (PO.DAAC following Sun et al., 2016)
@@ -799,9 +799,9 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 grace_Ylms['clm'][1,1,i] = np.copy(C11_model[i])
                 grace_Ylms['slm'][1,1,i] = np.copy(S11_model[i])
             else:# using coefficients from data file
-                grace_Ylms['clm'][1,0,i] = np.copy(DEG1_input.C10[k])
-                grace_Ylms['clm'][1,1,i] = np.copy(DEG1_input.C11[k])
-                grace_Ylms['slm'][1,1,i] = np.copy(DEG1_input.S11[k])
+                grace_Ylms['clm'][1,0,i], = np.copy(DEG1_input.C10[k])
+                grace_Ylms['clm'][1,1,i], = np.copy(DEG1_input.C11[k])
+                grace_Ylms['slm'][1,1,i], = np.copy(DEG1_input.S11[k])
 
     # read and add/remove the GAE and GAF atmospheric correction coefficients
     if kwargs['ATM']:
-- 
2.43.0


From 77178aa691e78cbf65803a64eede559a99bf53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 069/169] fix: truncate input months to zonal harmonics when
 requested

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 5bb91de..673a60b 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -338,7 +338,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         raise FileNotFoundError(str(grace_dir))
 
     # upper bound of spherical harmonic orders (default = LMAX)
-    MMAX = kwargs.get('MMAX') or np.copy(LMAX)
+    MMAX = np.copy(LMAX) if (kwargs['MMAX'] is None) else kwargs['MMAX']
 
     # Range of months from start_mon to end_mon (end_mon+1 to include end_mon)
     # Removing the missing months and months not to consider
-- 
2.43.0


From 2d9ad45be92cd257246b29110488029a661041c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 070/169] fix: attribute name of the C30 replacement from LARES

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 673a60b..81cfc97 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -499,7 +499,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         # read SLR file
         C30_input = gravity_toolkit.SLR.C30(SLR_file)
         FLAGS.append('_wLARES_C30')
-        attributes['SLR_C30'] = ('CSR LARES', SLR_file.name)
+        attributes['SLR C30'] = ('CSR LARES', SLR_file.name)
     elif (kwargs['SLR_C30'] == 'GFZ'):
         GravIS_file = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
         SLR_file = base_dir.joinpath(GravIS_file)
-- 
2.43.0


From 83424ded455cc7088140bb57a98bdf94fbab32bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 071/169] fix: truncate atmospheric jump corrections to the
 requested order

---
 gravity_toolkit/grace_input_months.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 81cfc97..d6e6bba 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -894,8 +894,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
 
     # create output atmospheric corrections to be removed/added to data
     atm_corr = {}
-    atm_corr['clm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
-    atm_corr['slm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
+    atm_corr['clm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
+    atm_corr['slm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
     atm_corr['files'] = sorted(corr_file.values())
     # for each considered date
     for i,grace_month in enumerate(months):
-- 
2.43.0


From 4a00207d41d57c741e7bc100dcdc617eae15b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 072/169] fix: geocenter file for input months given as a
 string

---
 gravity_toolkit/grace_input_months.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index d6e6bba..1c749bd 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -588,7 +588,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 f'TN-13_GEOC_{PROC}_{DREL}.txt')
             JPL = True
         # read degree one files from JPL GRACE Tellus
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_tellus(DEG1_file,JPL=JPL)
@@ -630,7 +630,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             '{0}_{1}_{2}_{3}.txt'.format(*args))
         # read degree one files from Sutterley and Velicogna (2019)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_UCI(DEG1_file)
@@ -641,7 +641,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             f'gad_gsm.{DREL}.txt')
         # read degree one files from Swenson et al. (2008)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_swenson(DEG1_file)
@@ -653,7 +653,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
         # read degree one files from GFZ GravIS
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_gravis(DEG1_file)
-- 
2.43.0


From 2e2a8e7c5ad03524d71763745cf4506b11f2fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 073/169] fix: report truncated http downloads instead of
 storing them

---
 gravity_toolkit/utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4c8c046..8d99e89 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -794,6 +794,9 @@ def from_http(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # check that the complete file was received
+        if getattr(response, 'length', None):
+            raise Exception('Download error from {0}'.format(posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
@@ -1494,6 +1497,9 @@ def from_drive(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # check that the complete file was received
+        if getattr(response, 'length', None):
+            raise Exception('Download error from {0}'.format(posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
-- 
2.43.0


From 2c6f0ea7beff16136c5c286b31263e52d7d8c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 074/169] fix: keep existing files when writing a download
 fails

---
 gravity_toolkit/utilities.py | 51 +++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 8d99e89..98e1d06 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -76,6 +76,7 @@ import hashlib
 import logging
 import pathlib
 import builtins
+import tempfile
 import dateutil
 import warnings
 import importlib
@@ -519,6 +520,41 @@ def ftp_list(
         # return the list of items and last modified times
         return (output, mtimes)
 
+# PURPOSE: store the contents of a buffer without damaging existing files
+def _store_buffer(
+        buffer: io.BytesIO,
+        local: pathlib.Path,
+        chunk: int = 16384,
+        mode: oct = 0o775
+    ):
+    """
+    Stores the contents of a buffer to a local file, where an existing
+    file is only replaced after all of the contents are written
+
+    Parameters
+    ----------
+    buffer: obj
+        BytesIO object
+    local: pathlib.Path
+        path to local file
+    chunk: int, default 16384
+        chunk size for transfer encoding
+    mode: oct, default 0o775
+        permissions mode of output local file
+    """
+    # write to a temporary file in the directory of the local file
+    local = local.resolve()
+    fd, temp = tempfile.mkstemp(prefix=f'.{local.name}.', dir=local.parent)
+    try:
+        with os.fdopen(fd, mode='wb') as f:
+            shutil.copyfileobj(buffer, f, chunk)
+        # change the permissions mode
+        os.chmod(temp, mode)
+        os.replace(temp, local)
+    except BaseException:
+        os.unlink(temp)
+        raise
+
 # PURPOSE: download a file from a ftp host
 def from_ftp(
         HOST: str | list,
@@ -602,10 +638,7 @@ def from_ftp(
             logging.info('{0} -->\n\t{1}'.format(*args))
             # store bytes to file using chunked transfer encoding
             remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
-                shutil.copyfileobj(remote_buffer, f, chunk)
-            # change the permissions mode
-            local.chmod(mode)
+            _store_buffer(remote_buffer, local, chunk=chunk, mode=mode)
             # keep remote modification time of file and local access time
             os.utime(local, (local.stat().st_atime, remote_mtime))
         # close the ftp connection
@@ -813,10 +846,7 @@ def from_http(
             logging.info('{0} -->\n\t{1}'.format(*args))
             # store bytes to file using chunked transfer encoding
             remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
-                shutil.copyfileobj(remote_buffer, f, chunk)
-            # change the permissions mode
-            local.chmod(mode)
+            _store_buffer(remote_buffer, local, chunk=chunk, mode=mode)
         # return the bytesIO object
         remote_buffer.seek(0)
         return remote_buffer
@@ -1516,10 +1546,7 @@ def from_drive(
             logging.info('{0} -->\n\t{1}'.format(*args))
             # store bytes to file using chunked transfer encoding
             remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
-                shutil.copyfileobj(remote_buffer, f, chunk)
-            # change the permissions mode
-            local.chmod(mode=mode)
+            _store_buffer(remote_buffer, local, chunk=chunk, mode=mode)
         # return the bytesIO object
         remote_buffer.seek(0)
         return remote_buffer
-- 
2.43.0


From 02a99e66b5fbf03e4686e6c6b5bef9d154464d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 075/169] fix: verify figshare checksums before replacing local
 files

---
 gravity_toolkit/utilities.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 98e1d06..52222f6 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -2207,19 +2207,19 @@ def from_figshare(
         # download geocenter file
         local_file = local_dir.joinpath(f['name'])
         original_md5 = get_hash(local_file)
-        from_http(f['download_url'],
+        remote_buffer = from_http(f['download_url'],
             timeout=timeout,
             context=context,
-            local=local_file,
-            hash=original_md5,
             chunk=chunk,
             verbose=verbose,
-            fid=fid,
-            mode=mode)
-        # verify MD5 checksums
-        computed_md5 = get_hash(local_file)
+            fid=fid)
+        # verify MD5 checksums before storing the file
+        computed_md5 = get_hash(remote_buffer)
         if (computed_md5 != f['supplied_md5']):
             raise Exception(f'Checksum mismatch: {f["download_url"]}')
+        # replace the local file if the remote file differs
+        if (original_md5 != computed_md5):
+            _store_buffer(remote_buffer, local_file, chunk=chunk, mode=mode)
 
 # PURPOSE: send files to figshare using secure FTP uploader
 def to_figshare(
-- 
2.43.0


From 48af1bcfd3ea0406e7456a23a2d180ab127f9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 076/169] fix: keep every page of catalogue search results

---
 gravity_toolkit/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 52222f6..9dda92a 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1746,7 +1746,7 @@ def cmr_filter_json(
     granule_mtimes = []
     # check that there are urls for request
     if ('feed' not in search_results) or ('entry' not in search_results['feed']):
-        return (granule_names,granule_urls)
+        return (granule_names,granule_urls,granule_mtimes)
     # descriptor links for each endpoint
     rel = {}
     rel['data'] = "http://esipfed.org/ns/fedsearch/1.1/data#"
@@ -1933,12 +1933,14 @@ def cmr(
         # read the CMR search as JSON
         search_page = json.loads(response.read().decode('utf8'))
         ids,urls,mtimes = cmr_filter_json(search_page, endpoint=endpoint)
-        if not urls or cmr_search_after is None:
-            break
         # extend lists
         granule_names.extend(ids)
         granule_urls.extend(urls)
         granule_mtimes.extend(mtimes)
+        # stop after the last page of results
+        entries = search_page.get('feed', {}).get('entry', [])
+        if not entries or cmr_search_after is None:
+            break
     # return the list of granule ids, urls and modification times
     return (granule_names, granule_urls, granule_mtimes)
 
-- 
2.43.0


From 628e83a2f4a9988c833fbb8548d636d1158713ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 077/169] fix: keep granule names and times aligned with their
 urls

---
 gravity_toolkit/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 9dda92a..05c2cbe 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1753,11 +1753,11 @@ def cmr_filter_json(
     rel['s3'] = "http://esipfed.org/ns/fedsearch/1.1/s3#"
     # iterate over references and get cmr location
     for entry in search_results['feed']['entry']:
-        granule_names.append(entry['title'])
-        granule_mtimes.append(get_unix_time(entry['updated'],
-            format='%Y-%m-%dT%H:%M:%S.%f%z'))
         for link in entry['links']:
             if (link['rel'] == rel[endpoint]):
+                granule_names.append(entry['title'])
+                granule_mtimes.append(get_unix_time(entry['updated'],
+                    format='%Y-%m-%dT%H:%M:%S.%f%z'))
                 granule_urls.append(link['href'])
                 break
     # return the list of urls, granule ids and modified times
-- 
2.43.0


From 600a3ff4cb30bf531bb4f4f9afc84b56961b9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 078/169] fix: account for the UTC offset of parsed time
 strings

---
 gravity_toolkit/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 05c2cbe..867e818 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -300,13 +300,17 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # remove the UTC offset of the parsed time
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
     except (TypeError, ValueError):
         return None
     else:
+        # times without a UTC offset are in UTC
+        if parsed_time.tzinfo is None:
+            return calendar.timegm(parsed_time.timetuple())
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From 2858ddae7d1341c45a2390fe0f76bdbd3fd4fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 079/169] fix: encode the UTC offsets of catalogue search dates

---
 gravity_toolkit/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 867e818..4f273b5 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1909,7 +1909,9 @@ def cmr(
     # verify that start and end times are in ISO format
     start_date = isoformat(start_date) if start_date else ''
     end_date = isoformat(end_date) if end_date else ''
-    CMR_KEYS.append(f'&temporal={start_date},{end_date}')
+    # encode the plus signs of UTC offsets
+    temporal = f'{start_date},{end_date}'.replace('+', '%2B')
+    CMR_KEYS.append(f'&temporal={temporal}')
     # append keys for querying specific products
     CMR_KEYS.append("&options[readable_granule_name][pattern]=true")
     CMR_KEYS.append("&options[spatial][or]=true")
-- 
2.43.0


From 77fc3f679ffa499691a195075b4f42196e3606e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 080/169] fix: match files of either mission when no mission is
 given

---
 gravity_toolkit/utilities.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4f273b5..d9f8151 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -2103,6 +2103,8 @@ def compile_regex_pattern(
         raise ValueError(f'Unknown Level-2 product {DSET}')
     if isinstance(version, int):
         version = str(version).zfill(2)
+    # names of Release-06 products for any mission
+    any_mission = mission or r'(GRAC|GRFO)'
     # compile regular expression operator for inputs
     if ((DSET == 'GSM') and (PROC == 'CSR') and (DREL in ('RL04','RL05'))):
         # CSR GSM: only monthly degree 60 products
@@ -2114,12 +2116,14 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'CSR') and (DREL == 'RL06')):
         # CSR GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, any_mission, solution, release.zfill(2),
+            version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_UTCSR_{2}_{3}{4}(\.gz)?$'
     elif ((DSET == 'GSM') and (PROC == 'CSR') and (DREL.endswith('LRI'))):
         # CSR GSM LRI solutions: monthly products for mission and solution
         release, version = re.findall(r'(\d+)\.(\d+)', DREL).pop()
-        args = (DSET, mission, r'EA01', release.zfill(2), version.zfill(2))
+        args = (DSET, any_mission, r'EA01', release.zfill(2),
+            version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_UTCSR_{2}_{3}{4}(\.gz)?$'
     elif ((DSET == 'GSM') and (PROC == 'GFZ') and (DREL == 'RL04')):
         # GFZ RL04: only unconstrained solutions (not GK2 products)
@@ -2133,7 +2137,8 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'GFZ') and (DREL == 'RL06')):
         # GFZ GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, any_mission, solution, release.zfill(2),
+            version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_GFZOP_{2}_{3}{4}(\.gz)?$'
     elif (PROC == 'JPL') and DREL in ('RL04','RL05'):
         # JPL: RL04a and RL05a products (denoted by 0001)
@@ -2143,7 +2148,8 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'JPL') and (DREL == 'RL06')):
         # JPL GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, any_mission, solution, release.zfill(2),
+            version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_JPLEM_{2}_{3}{4}(\.gz)?$'
     elif (PROC == 'CNES'):
         # CNES: use products in standard format
-- 
2.43.0


From 46ea3537443be7223f3fe4ca0d4c43487bc44b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 081/169] fix: data paths from pathlib objects

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index d9f8151..3b19c88 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -109,7 +109,7 @@ def get_data_path(relpath: list | str | pathlib.Path):
     if isinstance(relpath, list):
         # use *splat operator to extract from list
         return filepath.joinpath(*relpath)
-    elif isinstance(relpath, str):
+    elif isinstance(relpath, (str, pathlib.Path)):
         return filepath.joinpath(relpath)
 
 
-- 
2.43.0


From 45c904a1340ce5eef359750f946cf6c3f9972596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 082/169] fix: report unwritable folders instead of searching
 unique names forever

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 3b19c88..f64f653 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -403,7 +403,7 @@ def create_unique_file(filename: str | pathlib.Path):
         try:
             # open file descriptor only if the file doesn't exist
             fd = filename.open(mode='xb')
-        except OSError:
+        except FileExistsError:
             pass
         else:
             # return the file descriptor
-- 
2.43.0


From 6eb1739653624104b3b9ea576095cea8c30cf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 083/169] fix: git status of the repository from any working
 directory

---
 gravity_toolkit/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index f64f653..32e1a9d 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -243,7 +243,8 @@ def get_git_status():
     basepath = pathlib.Path(filename).absolute().parent.parent
     gitpath = basepath.joinpath('.git')
     # build command
-    cmd = ['git', f'--git-dir={gitpath}', 'status', '--porcelain']
+    cmd = ['git', f'--git-dir={gitpath}', f'--work-tree={basepath}',
+        'status', '--porcelain']
     with warnings.catch_warnings():
         return bool(subprocess.check_output(cmd))
 
-- 
2.43.0


From e6becbd865c509d04259d46014d5d3301fba9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 084/169] fix: split addresses with upper case schemes or
 double slashes

---
 gravity_toolkit/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 32e1a9d..ea74238 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -259,9 +259,9 @@ def url_split(s: str):
         url string
     """
     head, tail = posixpath.split(s)
-    if head in ('http:','https:','ftp:','s3:'):
+    if head.lower() in ('http:','https:','ftp:','s3:'):
         return s,
-    elif head in ('', posixpath.sep):
+    elif not head.strip(posixpath.sep):
         return tail,
     return url_split(head) + (tail,)
 
@@ -1330,7 +1330,7 @@ def s3_bucket(presigned_url: str) -> str:
         s3 bucket name
     """
     host = url_split(presigned_url)
-    bucket = re.sub(r's3:\/\/', r'', host[0], re.IGNORECASE)
+    bucket = re.sub(r's3:\/\/', r'', host[0], flags=re.IGNORECASE)
     return bucket
 
 # PURPOSE: get a s3 bucket key from a presigned url
-- 
2.43.0


From 8bc01d60c503b23ff12e35dedc71d097d71b5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 085/169] fix: list the root directory of a ftp host

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index ea74238..4d0c68c 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -491,7 +491,7 @@ def ftp_list(
     else:
         ftp.login(username,password)
         # list remote path
-        output = ftp.nlst(posixpath.join(*HOST[1:]))
+        output = ftp.nlst(posixpath.join('', *HOST[1:]))
         # get last modified date of ftp files and convert into unix time
         mtimes = [None]*len(output)
         # iterate over each file in the list and get the modification time
-- 
2.43.0


From 64647ff493c99d89ac499c1f0d02806206a26fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 086/169] fix: report truncated directory listings

---
 gravity_toolkit/utilities.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4d0c68c..c16d0d2 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -754,7 +754,8 @@ def http_list(
         raise Exception('List error from {0}'.format(posixpath.join(*HOST)))
     else:
         # read and parse request for files (column names and modified times)
-        tree = lxml.etree.parse(response, parser)
+        # (reading all of the response to detect truncated listings)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//tr/td[not(@*)]//a/@href')
         # get the Unix timestamp value for a modification time
         collastmod = [get_unix_time(i,format=format)
@@ -1431,7 +1432,9 @@ def drive_list(
     try:
         # Create and submit request.
         request = urllib2.Request(posixpath.join(*HOST))
-        tree = lxml.etree.parse(urllib2.urlopen(request, timeout=timeout),parser)
+        response = urllib2.urlopen(request, timeout=timeout)
+        # read all of the response to detect truncated listings
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
     except (urllib2.HTTPError, urllib2.URLError) as exc:
         raise Exception('List error from {0}'.format(posixpath.join(*HOST)))
     else:
@@ -2530,7 +2533,9 @@ def gsfc_list(
     try:
         # Create and submit request.
         request = urllib2.Request(posixpath.join(*HOST))
-        tree = lxml.etree.parse(urllib2.urlopen(request, timeout=timeout),parser)
+        response = urllib2.urlopen(request, timeout=timeout)
+        # read all of the response to detect truncated listings
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
     except (urllib2.HTTPError, urllib2.URLError) as exc:
         raise Exception('List error from {0}'.format(posixpath.join(*HOST)))
     else:
@@ -2647,7 +2652,9 @@ def icgem_list(
     try:
         # Create and submit request.
         request = urllib2.Request(host)
-        tree = lxml.etree.parse(urllib2.urlopen(request, timeout=timeout),parser)
+        response = urllib2.urlopen(request, timeout=timeout)
+        # read all of the response to detect truncated listings
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
     except:
         raise Exception(f'List error from {host}')
     else:
-- 
2.43.0


From 8273453ed77edd31a3a057a1db6f4e25e9c9e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 087/169] fix: prompt for the password of the new username when
 reattempting login

---
 gravity_toolkit/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index c16d0d2..e3b79eb 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -978,6 +978,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From 0d209871250cb0b3a6b75c3bc840c8cfbe32f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:35 +0000
Subject: [PATCH 088/169] fix: return no time for digits that are out of range

---
 gravity_toolkit/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index e3b79eb..0d935ad 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -306,7 +306,7 @@ def get_unix_time(
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return None
     else:
         # times without a UTC offset are in UTC
@@ -327,7 +327,7 @@ def isoformat(time_string: str):
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return None
     else:
         return parsed_time.isoformat()
-- 
2.43.0


From f9d0eb8e0b61a59a532c98c14cb47da5fd13231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 089/169] fix: keep the mascon centers given by the caller

---
 gravity_toolkit/mascons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 2a8f08c..5ea6304 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -63,6 +63,7 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
+    lon_center = np.copy(lon_center)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
     # remove singleton dimensions
@@ -219,6 +220,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
+    lon_center = np.copy(lon_center)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
 
-- 
2.43.0


From 206f914da96007e6a46ab8b77c28f688da66a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 090/169] fix: average of grid points in JPL mascons

---
 gravity_toolkit/mascons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 5ea6304..011b2a8 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -161,7 +161,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
-            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J]/nlt)
+            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J])
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-- 
2.43.0


From c6e88abb84c69567afb2fea5c50d084f67efb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 091/169] fix: mask JPL mascons without any grid longitude

---
 gravity_toolkit/mascons.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 011b2a8..ea600fb 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -157,7 +157,8 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # indices for grid points within the mascon
         I, = np.nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
         J, = np.nonzero((lon >= lon_bound[k,0]) & (lon < lon_bound[k,2]))
-        nlt = np.count_nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
+        # number of grid points within the mascon
+        npts = len(I)*len(J)
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
@@ -165,7 +166,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-        mascon_array['mask'][k] = bool(nlt == 0)
+        mascon_array['mask'][k] = bool(npts == 0)
         # Do a check at the poles to make the lat/lon equal to +/-90/0
         if (np.abs(lat_bound[k,0]) == 90):
             mascon_array['lat'][k] = lat_bound[k,0]
-- 
2.43.0


From d748f7d1e718d7e2ea2048c7460fc85f7922bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 092/169] fix: average grids with longitudes from 0 to 360 in
 GSFC mascons

---
 gravity_toolkit/mascons.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index ea600fb..5167f34 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -68,7 +68,9 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     lon_center[gt180] -= 360.0
     # remove singleton dimensions
     lat = np.squeeze(lat)
-    lon = np.squeeze(lon)
+    lon = np.copy(np.squeeze(lon))
+    # convert grid longitudes to -180:180
+    lon[lon > 180] -= 360.0
     # for mascons centered on 180: use 0:360
     alon = np.copy(lon)
     lt0, = np.nonzero(lon < 0)
-- 
2.43.0


From fc9e75a08c98ae030470580a44a35e8b7f41142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 093/169] fix: shift grids to the longitude they start with

---
 gravity_toolkit/tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 36c93f0..83dd365 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1160,15 +1160,16 @@ def shift_grid(lon0, data, lon, CYCLIC=360.0):
         shift_lon = np.ma.zeros(lon.shape,lon.dtype)
     else:
         shift_lon = np.zeros(lon.shape,lon.dtype)
-    shift_lon[0:-i0] = lon[i0:] - CYCLIC
-    shift_lon[-i0:] = lon[start_idx:i0+start_idx]
+    n = len(lon) - i0
+    shift_lon[:n] = lon[i0:] - CYCLIC
+    shift_lon[n:] = lon[start_idx:i0+start_idx]
     # shift data values
     if np.ma.isMA(data):
         shift_data = np.ma.zeros(data.shape,data.dtype)
     else:
         shift_data = np.zeros(data.shape,data.dtype)
-    shift_data[:,:-i0] = data[:,i0:]
-    shift_data[:,-i0:] = data[:,start_idx:i0+start_idx]
+    shift_data[:,:n] = data[:,i0:]
+    shift_data[:,n:] = data[:,start_idx:i0+start_idx]
     # return the shifted values
     return (shift_data, shift_lon)
 
-- 
2.43.0


From e359f94ae02b74e1eceee8420ba9b67908627029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 094/169] fix: nearest neighbors on grids with irregular
 spacing

---
 gravity_toolkit/tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 83dd365..ba3092f 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1205,10 +1205,10 @@ def interp_grid(data, xin, yin, xout, yout, order=0):
     """
     if (order == 0):
         # interpolate with nearest-neighbors
-        xcoords = (len(xin)-1)*(xout-xin[0])/(xin[-1]-xin[0])
-        ycoords = (len(yin)-1)*(yout-yin[0])/(yin[-1]-yin[0])
-        xcoords = np.clip(xcoords,0,len(xin)-1)
-        ycoords = np.clip(ycoords,0,len(yin)-1)
+        # fractional indices (for grids with regular or irregular spacing)
+        i,j = (np.argsort(xin), np.argsort(yin))
+        xcoords = np.interp(xout, np.take(xin,i), i)
+        ycoords = np.interp(yout, np.take(yin,j), j)
         xcoordsi = np.around(xcoords).astype(np.int32)
         ycoordsi = np.around(ycoords).astype(np.int32)
         interp_data = data[ycoordsi,xcoordsi]
-- 
2.43.0


From de5949427a063c1d4e982d37d727ec4f3784c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 095/169] fix: mask the ocean instead of the land in
 mask_oceans

---
 gravity_toolkit/tools.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index ba3092f..8387d63 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1266,22 +1266,20 @@ def mask_oceans(xin, yin, data=None, order=0, lakes=False,
     # 0=Ocean, 1=Land, 2=Lake, 3=Small Island, 4=Ice Shelf
     # Open the land-sea NetCDF file for reading
     landsea = spatial().from_netCDF4(lsmask, date=False, varname='LSMASK')
-    # create land function
+    # create water function
     nth,nphi = landsea.shape
-    land_function = np.zeros((nth,nphi),dtype=bool)
-    # extract land function from file
-    # find land values (1)
-    land_function |= (landsea.data == 1)
+    water_function = np.zeros((nth,nphi),dtype=bool)
+    # extract water function from file
+    # find ocean values (0)
+    water_function |= (landsea.data == 0)
     # find lake values (2)
     if lakes:
-        land_function |= (landsea.data == 2)
-    # find small island values (3)
-    land_function |= (landsea.data == 3)
+        water_function |= (landsea.data == 2)
     # find Greenland and Antarctic ice shelf values (4)
     if iceshelves:
-        land_function |= (landsea.data == 4)
+        water_function |= (landsea.data == 4)
     # interpolate to output grid
-    mask = interp_grid(land_function.astype(np.int32),
+    mask = interp_grid(water_function.astype(np.int32),
         landsea.lon, landsea.lat, xin, yin, order)
     # mask input data or return the interpolated mask
     if data is not None:
-- 
2.43.0


From 8de636d7105bd6fdb6612c2f321f557261809b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 096/169] fix: copy the uncertainties of Cartesian geocenter
 motion

---
 gravity_toolkit/geocenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 5d80f3b..b8258ce 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -794,7 +794,7 @@ class geocenter(object):
         # set default keyword arguments
         kwargs.setdefault('fields',['time','month',
             'C10','C11','S11','eC10','eC11','eS11',
-            'X','Y','Z'])
+            'X','Y','Z','X_sigma','Y_sigma','Z_sigma'])
         temp = geocenter()
         # try to assign variables to self
         for key in kwargs['fields']:
-- 
2.43.0


From 852a26e4f31d5e528f9b0c508dfe48d9f12d77c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 097/169] fix: keep the radius in copies of geocenter objects

---
 gravity_toolkit/geocenter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index b8258ce..b3b4b13 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -795,7 +795,7 @@ class geocenter(object):
         kwargs.setdefault('fields',['time','month',
             'C10','C11','S11','eC10','eC11','eS11',
             'X','Y','Z','X_sigma','Y_sigma','Z_sigma'])
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # try to assign variables to self
         for key in kwargs['fields']:
             try:
@@ -1079,7 +1079,7 @@ class geocenter(object):
         indices: int, default Ellipsis
             indices of input ``geocenter`` object to compute mean
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # calculate mean static field
         temp.C10 = np.mean(self.C10[indices])
         temp.C11 = np.mean(self.C11[indices])
@@ -1165,7 +1165,7 @@ class geocenter(object):
         var: float
             scalar value to which the ``geocenter`` object will be multiplied
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         # multiply by a single constant or a time-variable scalar
@@ -1183,7 +1183,7 @@ class geocenter(object):
         power: float
             power to which the ``geocenter`` object will be raised
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         temp.C10 = np.power(self.C10,power)
@@ -1235,7 +1235,7 @@ class geocenter(object):
     def __next__(self):
         """Get the next month of data
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-- 
2.43.0


From fbbfe156e57ca3c9e6b348562a0fab15529bc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 098/169] fix: combine harmonics truncated to lower orders

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 17df8b3..c8bcba1 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -282,7 +282,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,t] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMAX=LMAX, MMAX=Ylms.mmax, PLM=PLM).T
 
     # outputting data to file
     grid.squeeze().to_file(filename=OUTPUT_FILE, format=dataform,
-- 
2.43.0


From e860282adbed35d248cb9837ebe3c4db278b1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 099/169] fix: remove mean fields from harmonics combined from
 an index

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index c8bcba1..3a36d2a 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -182,7 +182,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
     # remove mean file from input Ylms
     if MEAN_FILE:
         mean_Ylms = gravtk.harmonics().from_file(MEAN_FILE,
-            format=DATAFORM, date=False)
+            format=dataform, date=False)
         input_Ylms.subtract(mean_Ylms)
 
     # read arrays of kl, hl, and ll Love Numbers
-- 
2.43.0


From dca89b06d62d93045d2d2dcf27e3df99c67b9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 100/169] fix: single grid spacing in convert_harmonics

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index bc9b97a..f1deed6 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -140,7 +140,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
         MMAX = np.copy(LMAX)
 
     # Grid spacing
-    dlon,dlat = (DDEG,DDEG) if (np.ndim(DDEG) == 0) else (DDEG[0],DDEG[1])
+    dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
     # Grid dimensions
     if (INTERVAL == 1):# (0:360, 90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
-- 
2.43.0


From 92b298fe4d043caeb1f7f7b89315d12f22e98693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 101/169] fix: write single dates to ascii files in
 convert_harmonics

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index f1deed6..1926fc2 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -209,7 +209,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
     Ylms.attributes['ROOT'] = copy.copy(attributes)
 
     # outputting data to file
-    Ylms.to_file(OUTPUT_FILE, format=DATAFORM, date=DATE)
+    Ylms.squeeze().to_file(OUTPUT_FILE, format=DATAFORM, date=DATE)
     # change output permissions level to MODE
     OUTPUT_FILE.chmod(mode=MODE)
 
-- 
2.43.0


From a380f13f000790ae5e723a9a3c0ec03d6ad8e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 102/169] fix: convert square grids in convert_harmonics

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index 1926fc2..80e37ce 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -194,7 +194,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
     Ylms_list = []
     for i,spatial_data in enumerate(input_spatial):
         # convert spatial field to spherical harmonics
-        output_Ylms = gravtk.gen_stokes(spatial_data.data.T,
+        output_Ylms = gravtk.gen_stokes(spatial_data.data,
             spatial_data.lon, spatial_data.lat, UNITS=UNITS,
             LMIN=0, LMAX=LMAX, MMAX=MMAX, PLM=PLM, LOVE=LOVE)
         # calculate date information
-- 
2.43.0


From 532ee1b5765fbb551b952b8630af77ed38328263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 103/169] fix: land and ocean functions of square masks

---
 gravity_toolkit/ocean_stokes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/ocean_stokes.py b/gravity_toolkit/ocean_stokes.py
index 1d72332..7e747ee 100644
--- a/gravity_toolkit/ocean_stokes.py
+++ b/gravity_toolkit/ocean_stokes.py
@@ -119,7 +119,7 @@ def ocean_stokes(LANDMASK, LMAX, MMAX=None, LOVE=None, VARNAME='LSMASK',
     # ocean function reciprocal of land function
     ocean_function = 1.0 - land_function
     # convert to spherical harmonics (1 cm w.e.)
-    Ylms = gen_stokes(ocean_function.T, landsea.lon, landsea.lat,
+    Ylms = gen_stokes(ocean_function, landsea.lon, landsea.lat,
         UNITS=1, LMIN=0, LMAX=LMAX, MMAX=MMAX, LOVE=LOVE)
     # return the spherical harmonic coefficients
     return Ylms
@@ -177,7 +177,7 @@ def land_stokes(LANDMASK, LMAX, MMAX=None, LOVE=None, VARNAME='LSMASK',
     if SIMPLIFY:
         land_function -= find_isolated_points(land_function)
     # convert to spherical harmonics (1 cm w.e.)
-    Ylms = gen_stokes(land_function.T, landsea.lon, landsea.lat,
+    Ylms = gen_stokes(land_function, landsea.lon, landsea.lat,
         UNITS=1, LMIN=0, LMAX=LMAX, MMAX=MMAX, LOVE=LOVE)
     # return the spherical harmonic coefficients
     return Ylms
-- 
2.43.0


From a382ee5f91b9aa156b3c3926735f11f489cf4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 104/169] fix: write every hour of the RL06 oblateness series

---
 scripts/aod1b_oblateness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aod1b_oblateness.py b/scripts/aod1b_oblateness.py
index 047d2ca..edf71f8 100644
--- a/scripts/aod1b_oblateness.py
+++ b/scripts/aod1b_oblateness.py
@@ -229,7 +229,7 @@ def aod1b_oblateness(base_dir,
                 # close the input file for day
                 fid.close()
                 # write to file for each hour
-                for h in range(4):
+                for h in range(n_time):
                     print(fstr.format(YY,MM,DD,hours[h],C20[h]),file=f)
 
             # close the tar file
-- 
2.43.0


From 2699fb614dda23030c7d4aa90b0af5d6df9df198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 105/169] fix: dealiasing averages of months crossing years

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d597675..c7497aa 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -191,7 +191,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
         # check if GRACE/GRACE-FO month crosses years
         if (start_yr[t] != end_yr[t]):
             # check if start_yr is a Leap Year or Standard Year
-            dpy = gravtk.time.calendar_days(start_yr[t]).sum()
+            dpy = np.int64(gravtk.time.calendar_days(start_yr[t]).sum())
             # list of Julian Days to read from both start and end year
             julian_days_to_read = []
             # add days to read from start and end years
-- 
2.43.0


From e716a847c4b57ba605174eb6f5e5033983f66129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 106/169] fix: dealiasing averages for a date file with a
 single month

---
 scripts/dealiasing_monthly_mean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index c7497aa..1fa03ef 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -171,7 +171,8 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     formats = ('f','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
-    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype,
+        ndmin=1)
     tdec = date_input['t']
     grace_month = date_input['mon']
     start_yr = date_input['styr']
-- 
2.43.0


From d38edddaa691826ac7afacde6f7de60b7e51decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 107/169] fix: programs truncate to order zero when asked to

---
 scripts/calc_degree_one.py         | 2 +-
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 scripts/grace_mean_harmonics.py    | 2 +-
 scripts/grace_raster_grids.py      | 2 +-
 scripts/grace_spatial_error.py     | 2 +-
 scripts/grace_spatial_maps.py      | 2 +-
 scripts/mascon_reconstruct.py      | 2 +-
 scripts/monte_carlo_degree_one.py  | 4 ++--
 scripts/piecewise_grace_maps.py    | 2 +-
 scripts/regress_grace_maps.py      | 2 +-
 scripts/scale_grace_maps.py        | 2 +-
 12 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index bf0f538..d1ef2d8 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -457,7 +457,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-    if not MMAX:
+    if MMAX is None:
         MMAX = np.copy(LMAX)
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 48f7dd7..129bb10 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -344,7 +344,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
 
     # Calculating the Gaussian smoothing for radius RAD
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index f3563e2..1cce564 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -215,7 +215,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     rad_e = factors.rad_e
 
     # input/output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
 
     # Calculating the Gaussian smoothing for radius RAD
diff --git a/scripts/grace_mean_harmonics.py b/scripts/grace_mean_harmonics.py
index 8745640..df9c5af 100644
--- a/scripts/grace_mean_harmonics.py
+++ b/scripts/grace_mean_harmonics.py
@@ -166,7 +166,7 @@ def grace_mean_harmonics(base_dir, PROC, DREL, DSET, LMAX,
     attributes['product_type'] = 'gravity_field'
 
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index af4db8e..fbac82c 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -271,7 +271,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
         gw_str = ''
 
     # flag for spherical harmonic order
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # add attributes for LMAX and MMAX
     attributes['ROOT']['max_degree'] = LMAX
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index f20672b..0361e6a 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -256,7 +256,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         gw_str = ''
 
     # flag for spherical harmonic order
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index ea65903..291194b 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -283,7 +283,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         gw_str = ''
 
     # flag for spherical harmonic order
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/mascon_reconstruct.py b/scripts/mascon_reconstruct.py
index 78ab550..1c5ce6f 100644
--- a/scripts/mascon_reconstruct.py
+++ b/scripts/mascon_reconstruct.py
@@ -169,7 +169,7 @@ def mascon_reconstruct(DSET, LMAX, RAD,
     GIA_Ylms_rate = gravtk.gia(lmax=LMAX).from_GIA(GIA_FILE, GIA=GIA, mmax=MMAX)
     gia_str = f'_{GIA_Ylms_rate.title}' if GIA else ''
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # filter grace coefficients flag
     ds_str = '_FL' if DESTRIPE else ''
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 7ecb2b6..091acae 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -322,7 +322,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     # delta coefficients flag for monte carlo run
     delta_str = '_monte_carlo'
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    order_str = f'M{MMAX:d}' if MMAX and (MMAX != LMAX) else ''
+    order_str = f'M{MMAX:d}' if MMAX not in (None, LMAX) else ''
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
     # ocean model string
@@ -376,7 +376,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-    if not MMAX:
+    if MMAX is None:
         MMAX = np.copy(LMAX)
     # add attributes for LMAX and MMAX
     attributes['max_degree'] = LMAX
diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index f936dc1..0b31de2 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -145,7 +145,7 @@ def piecewise_grace_maps(LMAX, RAD,
     suffix = dict(ascii='txt', netCDF4='nc', HDF5='H5')[DATAFORM]
 
     # flag for spherical harmonic order
-    order_str = f'M{MMAX:d}' if MMAX and (MMAX != LMAX) else ''
+    order_str = f'M{MMAX:d}' if MMAX not in (None, LMAX) else ''
     # Calculating the Gaussian smoothing for radius RAD
     gw_str = f'_r{RAD:0.0f}km' if (RAD != 0) else ''
     # destriped GRACE/GRACE-FO coefficients
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 62be313..604eb64 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -144,7 +144,7 @@ def regress_grace_maps(LMAX, RAD,
     suffix = dict(ascii='txt', netCDF4='nc', HDF5='H5')[DATAFORM]
 
     # flag for spherical harmonic order
-    order_str = f'M{MMAX:d}' if MMAX and (MMAX != LMAX) else ''
+    order_str = f'M{MMAX:d}' if MMAX not in (None, LMAX) else ''
     # Calculating the Gaussian smoothing for radius RAD
     gw_str = f'_r{RAD:0.0f}km' if (RAD != 0) else ''
     # destriped GRACE/GRACE-FO coefficients
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 3f29117..b860e10 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -264,7 +264,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # atmospheric ECMWF "jump" flag (if ATM)
     atm_str = '_wATM' if ATM else ''
     # output string for both LMAX==MMAX and LMAX != MMAX cases
-    MMAX = np.copy(LMAX) if not MMAX else MMAX
+    MMAX = np.copy(LMAX) if MMAX is None else MMAX
     order_str = f'M{MMAX:d}' if (MMAX != LMAX) else ''
     # output spatial units
     units = 'cmwe'
-- 
2.43.0


From 7c136473ef897a8d5c89e69d48f7c798bdb85677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 108/169] fix: remove spherical harmonic files given in a
 single format

---
 scripts/grace_raster_grids.py | 2 +-
 scripts/grace_spatial_maps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index fbac82c..c8bf0a2 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -363,7 +363,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['ROOT']['lineage'].append(Ylms.name)
+                attributes['ROOT']['lineage'].append(Ylms.filename.name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 291194b..6b3ad9f 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -370,7 +370,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['lineage'].append(Ylms.name)
+                attributes['lineage'].append(Ylms.filename.name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
-- 
2.43.0


From 61a24a28ca91e804420b672d6642b1db17ce1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 109/169] fix: remove spherical harmonic fields of a single
 month

---
 scripts/calc_mascon.py        | 3 ++-
 scripts/grace_raster_grids.py | 3 ++-
 scripts/grace_spatial_maps.py | 3 ++-
 scripts/scale_grace_maps.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 129bb10..a390e08 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -431,7 +431,8 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 Ylms = gravtk.harmonics().from_index(REMOVE_FILE,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month)
+            Ylms = Ylms.truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index c8bf0a2..277c827 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -372,7 +372,8 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
                 attributes['ROOT']['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month)
+            Ylms = Ylms.truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 6b3ad9f..4e46788 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -379,7 +379,8 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
                 attributes['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month)
+            Ylms = Ylms.truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index b860e10..e41ef46 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -382,7 +382,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 Ylms = gravtk.harmonics().from_index(REMOVE_FILE,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month)
+            Ylms = Ylms.truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
-- 
2.43.0


From 7a29915491d0b93eef47f9cff97b1dcda21a7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 110/169] fix: scaled maps start from the minimum degree

---
 scripts/scale_grace_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index e41ef46..51eb264 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -503,7 +503,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,i] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMIN=LMIN, LMAX=LMAX,
+            MMAX=MMAX, PLM=PLM).T
         # copy time variables for month
         grid.time[i] = np.copy(Ylms.time)
         grid.month[i] = np.copy(Ylms.month)
-- 
2.43.0


From 4f5364a118354dd24871973d3ff965dfdf4dce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 111/169] fix: scaled maps with spherical harmonic files to
 remove

---
 scripts/scale_grace_maps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 51eb264..aa5a6c1 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -324,6 +324,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         POLE_TIDE=POLE_TIDE)
     # create harmonics object from GRACE/GRACE-FO data
     GRACE_Ylms = gravtk.harmonics().from_dict(Ylms)
+    # full path to directory for specific GRACE/GRACE-FO product
+    DIRECTORY = pathlib.Path(Ylms['directory']).expanduser().absolute()
     # use a mean file for the static field to remove
     if MEAN_FILE:
         # read data form for input mean file (ascii, netCDF4, HDF5, gfc)
@@ -409,8 +411,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     fargs = (PROC,DREL,DSET,LMAX,order_str,ds_str,atm_str,GRACE_Ylms.month[0],
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
-    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
-    DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    DELTA_FILE = DIRECTORY.joinpath(delta_format.format(*fargs))
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
-- 
2.43.0


From 7b8d2baaa03a881bc4d775f15145d15f98c61df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 112/169] fix: output error maps in ascii format

---
 scripts/grace_spatial_error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index 0361e6a..8f767c1 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -447,6 +447,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
 
     # Multiplying by c/s(phi#m) to get spatial maps (lon,lat)
     delta.data = np.sqrt(np.dot(ccos.T,d_cos) + np.dot(ssin.T,d_sin)).T
+    delta.mask = np.zeros_like(delta.data, dtype=bool)
 
     # output file format
     file_format = '{0}{1}_L{2:d}{3}{4}{5}_ERR_{6:03d}-{7:03d}.{8}'
-- 
2.43.0


From 477c37ad22fe199931c85944c3fa04a675ea3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 113/169] fix: number of smoothed months for delta harmonics
 read from file

---
 scripts/grace_spatial_error.py | 17 +++++++++--------
 scripts/scale_grace_maps.py    | 15 ++++++++-------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index 8f767c1..df65841 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -313,6 +313,13 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1],suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # 365/10/2 = 18.25 (next highest is 19)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -324,13 +331,6 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # 365/10/2 = 18.25 (next highest is 19)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -370,7 +370,8 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (not kept within ascii files)
+        nsmth = np.int64(len(GRACE_Ylms.time) - 2*HFWTH)
 
     # Output spatial data object
     delta = gravtk.spatial()
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index aa5a6c1..e199bf1 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -412,6 +412,12 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = DIRECTORY.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -423,12 +429,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -468,7 +468,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         # truncate GRACE/GRACE-FO delta clm and slm to d/o LMAX/MMAX
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
-        nsmth = np.int64(delta_Ylms.month)
+        # number of smoothed points (not kept within ascii files)
+        nsmth = np.int64(len(GRACE_Ylms.time) - 2*HFWTH)
 
     # Output spatial data object
     grid = gravtk.spatial()
-- 
2.43.0


From 8c966af4255ac3863c563817796c9a76abb97b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 114/169] fix: label the regression terms of maps in the order
 of the fit

---
 scripts/piecewise_grace_maps.py | 18 +++++++++++++++---
 scripts/regress_grace_maps.py   | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 0b31de2..7ce09aa 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -242,10 +242,18 @@ def piecewise_grace_maps(LMAX, RAD,
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
+    # cycles that are tidal aliasing periods (fit after the other cycles)
+    is_alias = [any(np.isclose(c, (period/365.25))
+        for period in tidal_aliasing.values()) for c in CYCLES]
+    # index of each output component within the regression coefficients
+    beta_index = list(range(3))
     for i,c in enumerate(CYCLES):
+        # index of the cyclical component within the regression coefficients
+        n = 3 + 2*(i - sum(is_alias[:i]))
         # check if fitting with semi-annual or annual terms
         if (c == 0.5):
             coef_str.extend(['SS','SC'])
+            beta_index.extend([n, n+1])
             amp_str.append('SEMI')
             amp_title['SEMI'] = 'Semi-Annual Amplitude'
             ph_title['SEMI'] = 'Semi-Annual Phase'
@@ -253,6 +261,7 @@ def piecewise_grace_maps(LMAX, RAD,
             unit_suffix.extend(['',''])
         elif (c == 1.0):
             coef_str.extend(['AS','AC'])
+            beta_index.extend([n, n+1])
             amp_str.append('ANN')
             amp_title['ANN'] = 'Annual Amplitude'
             ph_title['ANN'] = 'Annual Phase'
@@ -261,6 +270,9 @@ def piecewise_grace_maps(LMAX, RAD,
         # check if fitting with tidal aliasing terms
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
+                # indices of the terms within the regression coefficients
+                n = 3 + 2*is_alias.count(False) + len(TERMS)
+                beta_index.extend([n, n+1, n+2, n+3])
                 # terms for tidal aliasing during GRACE and GRACE-FO periods
                 TERMS.extend(gravtk.time_series.aliasing_terms(grid.time,
                     period=period))
@@ -320,9 +332,9 @@ def piecewise_grace_maps(LMAX, RAD,
                 BREAKPOINT=breakpoint_index, CYCLES=CYCLES, TERMS=TERMS,
                 CONF=CONF)
             # save regression components
-            for k in range(0, ncomp):
-                out.data[i,j,k] = tsbeta['beta'][k]
-                out.error[i,j,k] = tsbeta['error'][k]
+            for k,n in enumerate(beta_index):
+                out.data[i,j,k] = tsbeta['beta'][n]
+                out.error[i,j,k] = tsbeta['error'][n]
                 out.mask[i,j,k] = False
             # Fit significance terms
             # Degrees of Freedom
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 604eb64..6451207 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -242,10 +242,18 @@ def regress_grace_maps(LMAX, RAD,
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
+    # cycles that are tidal aliasing periods (fit after the other cycles)
+    is_alias = [any(np.isclose(c, (period/365.25))
+        for period in tidal_aliasing.values()) for c in CYCLES]
+    # index of each output component within the regression coefficients
+    beta_index = list(range(ORDER+1))
     for i,c in enumerate(CYCLES):
+        # index of the cyclical component within the regression coefficients
+        n = ORDER+1 + 2*(i - sum(is_alias[:i]))
         # check if fitting with semi-annual or annual terms
         if (c == 0.5):
             coef_str.extend(['SS','SC'])
+            beta_index.extend([n, n+1])
             amp_str.append('SEMI')
             amp_title['SEMI'] = 'Semi-Annual Amplitude'
             ph_title['SEMI'] = 'Semi-Annual Phase'
@@ -253,6 +261,7 @@ def regress_grace_maps(LMAX, RAD,
             unit_suffix.extend(['',''])
         elif (c == 1.0):
             coef_str.extend(['AS','AC'])
+            beta_index.extend([n, n+1])
             amp_str.append('ANN')
             amp_title['ANN'] = 'Annual Amplitude'
             ph_title['ANN'] = 'Annual Phase'
@@ -261,6 +270,9 @@ def regress_grace_maps(LMAX, RAD,
         # check if fitting with tidal aliasing terms
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
+                # indices of the terms within the regression coefficients
+                n = ORDER+1 + 2*is_alias.count(False) + len(TERMS)
+                beta_index.extend([n, n+1, n+2, n+3])
                 # terms for tidal aliasing during GRACE and GRACE-FO periods
                 TERMS.extend(gravtk.time_series.aliasing_terms(grid.time,
                     period=period))
@@ -312,9 +324,9 @@ def regress_grace_maps(LMAX, RAD,
             tsbeta = gravtk.time_series.regress(grid.time, grid.data[i,j,:],
                 ORDER=ORDER, CYCLES=CYCLES, TERMS=TERMS, CONF=CONF)
             # save regression components
-            for k in range(0, ncomp):
-                out.data[i,j,k] = tsbeta['beta'][k]
-                out.error[i,j,k] = tsbeta['error'][k]
+            for k,n in enumerate(beta_index):
+                out.data[i,j,k] = tsbeta['beta'][n]
+                out.error[i,j,k] = tsbeta['error'][n]
                 out.mask[i,j,k] = False
             # Fit significance terms
             # Degrees of Freedom
-- 
2.43.0


From f2bf49e767f8395e721e1ef4a9b53a2c28ed8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 115/169] fix: maps of regressions with polynomials above
 second order

---
 scripts/regress_grace_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 6451207..48aca8a 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -222,6 +222,9 @@ def regress_grace_maps(LMAX, RAD,
         fit_longname = ['Constant','Trend']
     elif (ORDER == 2):# Quadratic
         fit_longname = ['Constant','Linear','Quadratic']
+    else:# higher-order polynomials
+        fit_longname = ['Constant','Linear','Quadratic']
+        fit_longname.extend([f'Order {o:d}' for o in range(3,ORDER+1)])
 
     # amplitude string for cyclical components
     amp_str = []
-- 
2.43.0


From 09389422f7cf718b43de89fc8e434f269ac8ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 116/169] fix: regressions of non-global maps in ascii format

---
 scripts/piecewise_grace_maps.py | 9 ++++++++-
 scripts/regress_grace_maps.py   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 7ce09aa..d67b189 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -188,6 +188,12 @@ def piecewise_grace_maps(LMAX, RAD,
         nlon = len(lon)
         nlat = len(lat)
 
+    # spatial bounds of the input grid
+    if (INTERVAL == 3):
+        extent = [lon.min(), lon.max(), lat.min(), lat.max()]
+    else:
+        extent = [None]*4
+
     # input data spatial object
     spatial_list = []
     for t,grace_month in enumerate(months):
@@ -198,7 +204,8 @@ def piecewise_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat,
+                extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 48aca8a..235e378 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -187,6 +187,12 @@ def regress_grace_maps(LMAX, RAD,
         nlon = len(lon)
         nlat = len(lat)
 
+    # spatial bounds of the input grid
+    if (INTERVAL == 3):
+        extent = [lon.min(), lon.max(), lat.min(), lat.max()]
+    else:
+        extent = [None]*4
+
     # input data spatial object
     spatial_list = []
     for t,grace_month in enumerate(months):
@@ -197,7 +203,8 @@ def regress_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat,
+                extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
-- 
2.43.0


From 2b4d1f996e6527036d4368140ccf6a4dff5f8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 117/169] fix: mascon fits as geoid coefficients use every
 harmonic

---
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index a390e08..236ba04 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -656,7 +656,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
 
     # Fitting the sensitivity kernel from the input kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index 1cce564..fcddf57 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -337,7 +337,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
         inv_fit_factor = np.ones((n_harm))
 
-- 
2.43.0


From 7bada6a7e8b78906159e57ce95367564439ac8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 118/169] fix: number of harmonics in mascon fits with orders
 below the minimum degree

---
 scripts/calc_mascon.py             | 4 ++--
 scripts/calc_sensitivity_kernel.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 236ba04..138b1ec 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -586,8 +586,8 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         nsmth = np.int64(delta_Ylms.month)
 
     # Calculating the number of cos and sin harmonics between LMIN and LMAX
-    # taking into account MMAX (if MMAX == LMAX then LMAX-MMAX=0)
-    n_harm=np.int64(LMAX**2 - LMIN**2 + 2*LMAX + 1 - (LMAX-MMAX)**2 - (LMAX-MMAX))
+    # taking into account MMAX (which may be smaller than LMIN)
+    n_harm = np.sum([2*min(l,MMAX) + 1 for l in range(LMIN,LMAX+1)], dtype=int)
 
     # Initialing harmonics for least squares fitting
     # mascon kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index fcddf57..1edfdd2 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -280,8 +280,8 @@ def calc_sensitivity_kernel(LMAX, RAD,
     del mascon_list
 
     # Calculating the number of cos and sin harmonics between LMIN and LMAX
-    # taking into account MMAX (if MMAX == LMAX then LMAX-MMAX=0)
-    n_harm=np.int64(LMAX**2 - LMIN**2 + 2*LMAX + 1 - (LMAX-MMAX)**2 - (LMAX-MMAX))
+    # taking into account MMAX (which may be smaller than LMIN)
+    n_harm = np.sum([2*min(l,MMAX) + 1 for l in range(LMIN,LMAX+1)], dtype=int)
 
     # Initialing harmonics for least squares fitting
     # mascon kernel
-- 
2.43.0


From 441b24f0f01a0d533f73f1896bab2f32ead1a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 119/169] fix: degree one solutions with an alternative ocean
 model

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index d1ef2d8..d3189fa 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -620,7 +620,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         # removing the mean of the ecco spherical harmonic coefficients
         OBP_Ylms.mean(apply=True)
         # converting ecco degree 1 harmonics to coefficients of mass
-        OBP = gravtk.geocenter.from_harmonics(OBP_Ylms).scale(dfactor[1])
+        OBP = gravtk.geocenter().from_harmonics(OBP_Ylms).scale(dfactor[1])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
-- 
2.43.0


From fee95c73e2f31ffb9efe252cae667cace2873ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 120/169] fix: units of the dealiasing coefficients in degree
 one netCDF4 files

---
 scripts/calc_degree_one.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index d3189fa..01d7941 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -967,9 +967,8 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     nc['AOD'] = {}
     g1 = fileID.createGroup('AOD')
     g1.description = f'Atmospheric and oceanic dealiasing'
-    gac = GAC.scale(1.0/dfactor[1])
-    for key in gac.fields:
-        var = gac.get(key)
+    for key in GAC.fields:
+        var = GAC.get(key)
         nc['AOD'][key] = g1.createVariable(key, var.dtype,
             ('time',), zlib=True)
         nc['AOD'][key][:] = var[:]
-- 
2.43.0


From 46b1d47a284441810dd81c757710dcbe644f079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 121/169] fix: atmospheric corrections of degree one solutions
 truncated in order

---
 scripts/calc_degree_one.py        | 4 ++--
 scripts/monte_carlo_degree_one.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 01d7941..6f00a0c 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -596,8 +596,8 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     if ATM:
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,
             LMAX, ATM_Ylms.month)
-        ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
-        ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
+        ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'][:,:MMAX+1,:])
+        ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'][:,:MMAX+1,:])
         # removing the mean of the atmospheric jump correction coefficients
         ATM_Ylms.mean(apply=True)
     # truncate to degree and order LMAX/MMAX
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 091acae..2f53abe 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -496,8 +496,8 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,ATM_Ylms.month)
-        ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
-        ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
+        ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'][:,:MMAX+1,:])
+        ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'][:,:MMAX+1,:])
         # removing the mean of the atmospheric jump correction coefficients
         ATM_Ylms.mean(apply=True)
     # truncate to degree and order LMAX/MMAX
-- 
2.43.0


From f273e789a96f8f29c18a61ed164d2f2956271b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 122/169] fix: headers of degree one files are valid YAML for
 every reference

---
 scripts/calc_degree_one.py        | 5 +++--
 scripts/monte_carlo_degree_one.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 6f00a0c..448409e 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -1278,9 +1278,10 @@ def print_global(fid,PROC,DREL,MODEL,AOD,GIA,SLR,S21,month):
             'GRACE/GRACE-FO Geopotential GSM Coefficients GFZ RL06 '
             '(Level-2B Product)." V. 0002. GFZ Data Services, (2019). '
             'http://doi.org/10.5880/GFZ.GRAVIS_06_L2B'))
-    # print list of references
+    # print list of references (as quoted YAML strings)
     for ref in reference:
-        fid.write('      - {0}\n'.format(ref))
+        quoted = str(ref).replace("'","''")
+        fid.write("      - '{0}'\n".format(quoted))
     creators = 'Tyler C. Sutterley and Isabella Velicogna'
     fid.write('    {0:22}: {1}\n'.format('creator_name', creators))
     emails = 'tsutterl@uw.edu and isabella@uci.edu'
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 2f53abe..3de7694 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1056,9 +1056,10 @@ def print_global(fid,PROC,DREL,MODEL,GIA,SLR,S21,month):
             'GRACE/GRACE-FO Geopotential GSM Coefficients GFZ RL06 '
             '(Level-2B Product)." V. 0002. GFZ Data Services, (2019). '
             'http://doi.org/10.5880/GFZ.GRAVIS_06_L2B'))
-    # print list of references
+    # print list of references (as quoted YAML strings)
     for ref in reference:
-        fid.write('      - {0}\n'.format(ref))
+        quoted = str(ref).replace("'","''")
+        fid.write("      - '{0}'\n".format(quoted))
     creators = 'Tyler C. Sutterley and Isabella Velicogna'
     fid.write('    {0:22}: {1}\n'.format('creator_name', creators))
     emails = 'tsutterl@uw.edu and isabella@uci.edu'
-- 
2.43.0


From 483ea164aa32b4b2fbc240ee7dd9138ac24732f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 123/169] fix: use degree one Love numbers of zero in degree
 one solutions

---
 scripts/calc_degree_one.py        | 2 +-
 scripts/monte_carlo_degree_one.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 448409e..47cf056 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -453,7 +453,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     attributes['earth_love_numbers'] = LOVE.citation
     attributes['reference_frame'] = LOVE.reference
     # set gravitational load love number to a specific value
-    if LOVE_K1:
+    if LOVE_K1 is not None:
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 3de7694..e975236 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -372,7 +372,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     attributes['earth_love_numbers'] = LOVE.citation
     attributes['reference_frame'] = LOVE.reference
     # set gravitational load love number to a specific value
-    if LOVE_K1:
+    if LOVE_K1 is not None:
         LOVE.kl[1] = np.copy(LOVE_K1)
 
     # maximum spherical harmonic order
-- 
2.43.0


From fb663e333bb2d8917b0bb74f8dcd6c8183f1411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 124/169] fix: units of the rebound restored in degree one
 uncertainties

---
 scripts/monte_carlo_degree_one.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index e975236..311f57d 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -762,9 +762,9 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
                 DMAT, res, rnk, s = scipy.linalg.lstsq(IMAT, (CMAT-GMAT),
                     lapack_driver=SOLVER)
             # save geocenter for iteration and time t after restoring GIA+ATM
-            iteration.C10[t,n_iter] = DMAT[0]+gia.C10[t]+atm.C10[t]
-            iteration.C11[t,n_iter] = DMAT[1]+gia.C11[t]+atm.C11[t]
-            iteration.S11[t,n_iter] = DMAT[2]+gia.S11[t]+atm.S11[t]
+            iteration.C10[t,n_iter] = DMAT[0]+(gia.C10[t]+atm.C10[t])*dfactor[1]
+            iteration.C11[t,n_iter] = DMAT[1]+(gia.C11[t]+atm.C11[t])*dfactor[1]
+            iteration.S11[t,n_iter] = DMAT[2]+(gia.S11[t]+atm.S11[t])*dfactor[1]
         # remove mean of each solution for iteration
         iteration.C10[:,n_iter] -= iteration.C10[:,n_iter].mean()
         iteration.C11[:,n_iter] -= iteration.C11[:,n_iter].mean()
-- 
2.43.0


From 14838fce19829964975e4659a142515adc920336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 125/169] fix: create the output directory of degree one
 uncertainties

---
 scripts/monte_carlo_degree_one.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 311f57d..b37aad2 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -360,6 +360,8 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
 
     # output directory
     DIRECTORY = base_dir.joinpath('geocenter')
+    # create output directory if non-existent
+    DIRECTORY.mkdir(mode=MODE, parents=True, exist_ok=True)
     # list object of output files for file logs (full path)
     output_files = []
 
-- 
2.43.0


From 0451108008a829ef212843309633a268cf2774eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 126/169] fix: derived Love numbers in the program of degree
 one uncertainties

---
 scripts/monte_carlo_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index b37aad2..131ad50 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1243,7 +1243,7 @@ def arguments():
         type=int, default=0, choices=[0,1,2,3,4],
         help='Treatment of the Load Love numbers')
     parser.add_argument('--kl','-k',
-        type=float, default=0.021,
+        type=float, default=0.021, nargs='?',
         help='Degree 1 gravitational Load Love number')
     # Gaussian smoothing radius (km)
     parser.add_argument('--radius','-R',
-- 
2.43.0


From c3b42be4fdefa43664df4d482695bfe98040b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 127/169] fix: open unique log files for writing text

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 0d935ad..cee36aa 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -403,7 +403,7 @@ def create_unique_file(filename: str | pathlib.Path):
     while counter:
         try:
             # open file descriptor only if the file doesn't exist
-            fd = filename.open(mode='xb')
+            fd = filename.open(mode='x', encoding='utf8')
         except FileExistsError:
             pass
         else:
-- 
2.43.0


From 1d4f2e094ca205b935891b1c8ab5329cb3756d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 128/169] fix: write run logs to the log file in place of the
 console

---
 scripts/calc_degree_one.py          | 4 ++--
 scripts/calc_mascon.py              | 4 ++--
 scripts/calc_sensitivity_kernel.py  | 4 ++--
 scripts/dealiasing_global_uplift.py | 4 ++--
 scripts/grace_mean_harmonics.py     | 4 ++--
 scripts/grace_raster_grids.py       | 4 ++--
 scripts/grace_spatial_error.py      | 4 ++--
 scripts/grace_spatial_maps.py       | 4 ++--
 scripts/monte_carlo_degree_one.py   | 4 ++--
 scripts/piecewise_grace_maps.py     | 4 ++--
 scripts/regress_grace_maps.py       | 4 ++--
 scripts/scale_grace_maps.py         | 4 ++--
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 47cf056..940a65b 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -1353,7 +1353,7 @@ def output_log_file(input_arguments, output_files, n_iter):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -1376,7 +1376,7 @@ def output_error_log_file(input_arguments):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 138b1ec..27aed25 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -728,7 +728,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -748,7 +748,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index 1edfdd2..3f7dd78 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -474,7 +474,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -494,7 +494,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/dealiasing_global_uplift.py b/scripts/dealiasing_global_uplift.py
index fd6fa23..e2c34e8 100644
--- a/scripts/dealiasing_global_uplift.py
+++ b/scripts/dealiasing_global_uplift.py
@@ -370,7 +370,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -390,7 +390,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_mean_harmonics.py b/scripts/grace_mean_harmonics.py
index df9c5af..b8867af 100644
--- a/scripts/grace_mean_harmonics.py
+++ b/scripts/grace_mean_harmonics.py
@@ -306,7 +306,7 @@ def output_log_file(input_arguments, output_file):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -325,7 +325,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 277c827..1a51690 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -539,7 +539,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -559,7 +559,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index df65841..a54d78c 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -474,7 +474,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -494,7 +494,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 4e46788..8aef20b 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -495,7 +495,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -515,7 +515,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 131ad50..63b09ff 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1154,7 +1154,7 @@ def output_log_file(input_arguments, output_files):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -1176,7 +1176,7 @@ def output_error_log_file(input_arguments):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index d67b189..3f33b78 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -500,7 +500,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -520,7 +520,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 235e378..fad4587 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -495,7 +495,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -515,7 +515,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index e199bf1..c20ecd4 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -636,7 +636,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -656,7 +656,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
-- 
2.43.0


From ebf866227e8da0fcd4130dbbee04a8b43b0d89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 129/169] fix: use the parsed arguments in logs of the degree
 one programs

---
 scripts/calc_degree_one.py        | 2 +-
 scripts/monte_carlo_degree_one.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 940a65b..f5afab1 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -1359,7 +1359,7 @@ def output_log_file(input_arguments, output_files, n_iter):
     for arg, value in sorted(vars(input_arguments).items()):
         logging.info(f'{arg}: {value}')
     # print number of iterations used in calculation
-    if arguments.iterative:
+    if input_arguments.iterative:
         logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(n_iter))
     # print output files
     logging.info('\n\nOUTPUT FILES:')
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 63b09ff..a3315c5 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1160,7 +1160,7 @@ def output_log_file(input_arguments, output_files):
     for arg, value in sorted(vars(input_arguments).items()):
         logging.info(f'{arg}: {value}')
     # print number of monte carlo iterations used in calculation
-    logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(arguments.runs))
+    logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(input_arguments.runs))
     # print output files
     logging.info('\n\nOUTPUT FILES:')
     for f in output_files:
-- 
2.43.0


From 771eef6c039e8abe53bdc7bb96389d80c7bb96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 130/169] fix: run the CNES sync without a log file

---
 scripts/cnes_grace_sync.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cnes_grace_sync.py b/scripts/cnes_grace_sync.py
index 00232e1..f0b2a92 100755
--- a/scripts/cnes_grace_sync.py
+++ b/scripts/cnes_grace_sync.py
@@ -179,6 +179,7 @@ def cnes_grace_sync(DIRECTORY, DREL=[], TIMEOUT=None, LOG=False,
         logging.info(f'CNES Sync Log ({today})')
     else:
         # standard output (terminal output)
+        fid1 = sys.stdout
         logging.basicConfig(level=logging.INFO)
 
     # DATA RELEASES (RL01, RL02, RL03, RL04)
-- 
2.43.0


From f13f0c36a27c3b666db70b39a5c6c9be0b7acd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 131/169] fix: keep local files when transfers of the sync
 programs are interrupted

---
 scripts/cnes_grace_sync.py         | 10 ++++++--
 scripts/esa_costg_swarm_sync.py    | 14 +++++------
 scripts/gfz_icgem_costg_ftp.py     | 17 ++++++++------
 scripts/gfz_isdc_dealiasing_ftp.py | 21 +++++++++++++----
 scripts/gfz_isdc_grace_ftp.py      | 17 ++++++++------
 scripts/itsg_graz_grace_sync.py    |  8 ++++---
 scripts/podaac_cumulus.py          | 37 ++++++++++++++++++++----------
 7 files changed, 81 insertions(+), 43 deletions(-)

diff --git a/scripts/cnes_grace_sync.py b/scripts/cnes_grace_sync.py
index f0b2a92..3b0894a 100755
--- a/scripts/cnes_grace_sync.py
+++ b/scripts/cnes_grace_sync.py
@@ -95,6 +95,7 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import copy
 import time
@@ -232,7 +233,7 @@ def cnes_grace_sync(DIRECTORY, DREL=[], TIMEOUT=None, LOG=False,
 
             # find GRACE files and sort by date
             grace_files = [f.name for f in local_dir.iterdir()
-                if re.search(ds, f.name)]
+                if re.search(ds, f.name) and not f.name.startswith('.')]
             # outputting GRACE filenames to index
             index_file = local_dir.joinpath('index.txt')
             with index_file.open(mode='w', encoding='utf8') as fid:
@@ -277,9 +278,14 @@ def gzip_copy_file(tar, member, local_file, CLOBBER, MODE):
         logging.info(f'\t{str(local_file)}{OVERWRITE}\n')
         # extract file contents to new compressed file
         f_in = tar.extractfile(member)
-        with gzip.GzipFile(local_file, 'wb', 9, None, file1_mtime) as f_out:
+        gzip_buffer = io.BytesIO()
+        with gzip.GzipFile(local_file.name, 'wb', 9, gzip_buffer,
+                file1_mtime) as f_out:
             shutil.copyfileobj(f_in, f_out)
         f_in.close()
+        # store after all of the contents are compressed
+        gzip_buffer.seek(0)
+        gravtk.utilities._store_buffer(gzip_buffer, local_file, mode=MODE)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, file1_mtime))
         local_file.chmod(mode=MODE)
diff --git a/scripts/esa_costg_swarm_sync.py b/scripts/esa_costg_swarm_sync.py
index 2f9a696..1b49c4d 100644
--- a/scripts/esa_costg_swarm_sync.py
+++ b/scripts/esa_costg_swarm_sync.py
@@ -44,7 +44,6 @@ import os
 import io
 import json
 import time
-import shutil
 import logging
 import pathlib
 import argparse
@@ -193,10 +192,8 @@ def http_pull_file(remote_file, remote_mtime, local_file, TIMEOUT=120,
             CHUNK = 16 * 1024
             # copy bytes or transfer file
             if CHECKSUM and local_file.exists():
-                # store bytes to file using chunked transfer encoding
+                # use bytes from the checksum comparison
                 remote_buffer.seek(0)
-                with local_file.open(mode='wb') as f:
-                    shutil.copyfileobj(remote_buffer, f, CHUNK)
             else:
                 # Create and submit request.
                 # There are a range of exceptions that can be thrown here
@@ -204,9 +201,12 @@ def http_pull_file(remote_file, remote_mtime, local_file, TIMEOUT=120,
                 request = gravtk.utilities.urllib2.Request(remote_file)
                 response = gravtk.utilities.urllib2.urlopen(request,
                     timeout=TIMEOUT)
-                # copy remote file contents to local file
-                with local_file.open(mode='wb') as f:
-                    shutil.copyfileobj(response, f, CHUNK)
+                # copy remote file contents to bytesIO object
+                remote_buffer = io.BytesIO(response.read())
+            # store bytes to file using chunked transfer encoding
+            # (existing files are kept if the transfer is interrupted)
+            gravtk.utilities._store_buffer(remote_buffer, local_file,
+                chunk=CHUNK, mode=MODE)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_icgem_costg_ftp.py b/scripts/gfz_icgem_costg_ftp.py
index 9b7b0e8..2fbcdf6 100644
--- a/scripts/gfz_icgem_costg_ftp.py
+++ b/scripts/gfz_icgem_costg_ftp.py
@@ -49,10 +49,10 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import time
 import ftplib
-import shutil
 import hashlib
 import logging
 import pathlib
@@ -206,16 +206,19 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
         if not LIST:
             # copy file from ftp server or from bytesIO object
             if CHECKSUM and local_file.exists():
-                # store bytes to file using chunked transfer encoding
+                # use bytes from the checksum comparison
                 remote_buffer.seek(0)
-                with local_file.open(mode='wb') as f:
-                    shutil.copyfileobj(remote_buffer, f, 16 * 1024)
             else:
                 # path to remote file
                 remote_file = posixpath.join(*remote_path[1:])
-                # copy remote file contents to local file
-                with local_file.open(mode='wb') as f:
-                    ftp.retrbinary(f'RETR {remote_file}', f.write)
+                # copy remote file contents to bytesIO object
+                remote_buffer = io.BytesIO()
+                ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
+                remote_buffer.seek(0)
+            # store bytes to file using chunked transfer encoding
+            # (existing files are kept if the transfer is interrupted)
+            gravtk.utilities._store_buffer(remote_buffer, local_file,
+                chunk=16 * 1024, mode=MODE)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_isdc_dealiasing_ftp.py b/scripts/gfz_isdc_dealiasing_ftp.py
index 73394d0..a33fab0 100644
--- a/scripts/gfz_isdc_dealiasing_ftp.py
+++ b/scripts/gfz_isdc_dealiasing_ftp.py
@@ -50,6 +50,7 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import time
 import ftplib
@@ -121,7 +122,9 @@ def gfz_isdc_dealiasing_ftp(base_dir, DREL, YEAR=None, MONTHS=None, TAR=False,
             # if compressing into monthly tar files
             if TAR and (file_count > 0) and (TEST or CLOBBER):
                 # copy each gzip file and store within monthly tar files
-                tar = tarfile.open(name=local_tar_file, mode='w:gz')
+                tar_buffer = io.BytesIO()
+                tar = tarfile.open(name=local_tar_file, mode='w:gz',
+                    fileobj=tar_buffer)
                 for fi,remote_mtime in zip(remote_files,remote_mtimes):
                     # remote version of each input file
                     remote = [ftp.host,'grace','Level-1B','GFZ','AOD',DREL,Y,fi]
@@ -137,7 +140,10 @@ def gfz_isdc_dealiasing_ftp(base_dir, DREL, YEAR=None, MONTHS=None, TAR=False,
                 # close tar file and set permissions level to MODE
                 tar.close()
                 logging.info(f' --> {local_tar_file}\n')
-                local_tar_file.chmod(mode=MODE)
+                # store after all of the files have been retrieved
+                tar_buffer.seek(0)
+                gravtk.utilities._store_buffer(tar_buffer, local_tar_file,
+                    mode=MODE)
             elif (file_count > 0) and not TAR:
                 # copy each gzip file and keep as individual daily files
                 for fi,remote_mtime in zip(remote_files,remote_mtimes):
@@ -181,9 +187,14 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
         remote_ftp_url = posixpath.join('ftp://',*remote_path)
         logging.info(f'{remote_ftp_url} -->')
         logging.info(f'\t{local_file}{OVERWRITE}\n')
-        # copy remote file contents to local file
-        with local_file.open(mode='wb') as f:
-            ftp.retrbinary(f'RETR {remote_file}', f.write)
+        # copy remote file contents to bytesIO object
+        remote_buffer = io.BytesIO()
+        ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
+        remote_buffer.seek(0)
+        # store bytes to file using chunked transfer encoding
+        # (existing files are kept if the transfer is interrupted)
+        gravtk.utilities._store_buffer(remote_buffer, local_file,
+            chunk=16 * 1024, mode=MODE)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_isdc_grace_ftp.py b/scripts/gfz_isdc_grace_ftp.py
index f8a9187..52ecc3e 100644
--- a/scripts/gfz_isdc_grace_ftp.py
+++ b/scripts/gfz_isdc_grace_ftp.py
@@ -67,11 +67,11 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import copy
 import time
 import ftplib
-import shutil
 import hashlib
 import logging
 import pathlib
@@ -327,16 +327,19 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
         if not LIST:
             # copy file from ftp server or from bytesIO object
             if CHECKSUM and local_file.exists():
-                # store bytes to file using chunked transfer encoding
+                # use bytes from the checksum comparison
                 remote_buffer.seek(0)
-                with local_file.open(mode='wb') as f:
-                    shutil.copyfileobj(remote_buffer, f, 16 * 1024)
             else:
                 # path to remote file
                 remote_file = posixpath.join(*remote_path[1:])
-                # copy remote file contents to local file
-                with local_file.open(mode='wb') as f:
-                    ftp.retrbinary(f'RETR {remote_file}', f.write)
+                # copy remote file contents to bytesIO object
+                remote_buffer = io.BytesIO()
+                ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
+                remote_buffer.seek(0)
+            # store bytes to file using chunked transfer encoding
+            # (existing files are kept if the transfer is interrupted)
+            gravtk.utilities._store_buffer(remote_buffer, local_file,
+                chunk=16 * 1024, mode=MODE)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/itsg_graz_grace_sync.py b/scripts/itsg_graz_grace_sync.py
index c765a4c..c3accbc 100755
--- a/scripts/itsg_graz_grace_sync.py
+++ b/scripts/itsg_graz_grace_sync.py
@@ -50,9 +50,9 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import time
-import shutil
 import logging
 import pathlib
 import argparse
@@ -207,8 +207,10 @@ def http_pull_file(remote_file,remote_mtime,local_file,
             CHUNK = 16 * 1024
             # copy contents to local file using chunked transfer encoding
             # transfer should work properly with ascii and binary data formats
-            with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response, f, CHUNK)
+            # (existing files are kept if the transfer is interrupted)
+            remote_buffer = io.BytesIO(response.read())
+            gravtk.utilities._store_buffer(remote_buffer, local_file,
+                chunk=CHUNK, mode=MODE)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/podaac_cumulus.py b/scripts/podaac_cumulus.py
index 8942606..ed3fb39 100644
--- a/scripts/podaac_cumulus.py
+++ b/scripts/podaac_cumulus.py
@@ -73,6 +73,7 @@ from __future__ import print_function
 
 import sys
 import os
+import io
 import re
 import gzip
 import time
@@ -330,13 +331,19 @@ def http_pull_file(remote_file, remote_mtime, local_file,
         request = gravtk.utilities.urllib2.Request(remote_file)
         response = gravtk.utilities.urllib2.urlopen(request,
             timeout=TIMEOUT)
-        # copy remote file contents to local file
+        # copy remote file contents to bytesIO object
+        remote_buffer = io.BytesIO(response.read())
         if GZIP:
-            with gzip.GzipFile(local_file, 'wb', 9, None, remote_mtime) as f:
-                shutil.copyfileobj(response, f)
-        else:
-            with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response, f, CHUNK)
+            gzip_buffer = io.BytesIO()
+            with gzip.GzipFile(local_file.name, 'wb', 9, gzip_buffer,
+                    remote_mtime) as f:
+                shutil.copyfileobj(remote_buffer, f)
+            gzip_buffer.seek(0)
+            remote_buffer = gzip_buffer
+        # store bytes to file using chunked transfer encoding
+        # (existing files are kept if the transfer is interrupted)
+        gravtk.utilities._store_buffer(remote_buffer, local_file,
+            chunk=CHUNK, mode=MODE)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
@@ -367,13 +374,19 @@ def s3_pull_file(response, remote_mtime, local_file,
         logging.info(f'{str(local_file)}{OVERWRITE}')
         # chunked transfer encoding size
         CHUNK = 16 * 1024
-        # copy remote file contents to local file
+        # copy remote file contents to bytesIO object
+        remote_buffer = io.BytesIO(response['Body'].read())
         if GZIP:
-            with gzip.GzipFile(local_file, 'wb', 9, None, remote_mtime) as f:
-                shutil.copyfileobj(response['Body'], f)
-        else:
-            with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response['Body'], f, CHUNK)
+            gzip_buffer = io.BytesIO()
+            with gzip.GzipFile(local_file.name, 'wb', 9, gzip_buffer,
+                    remote_mtime) as f:
+                shutil.copyfileobj(remote_buffer, f)
+            gzip_buffer.seek(0)
+            remote_buffer = gzip_buffer
+        # store bytes to file using chunked transfer encoding
+        # (existing files are kept if the transfer is interrupted)
+        gravtk.utilities._store_buffer(remote_buffer, local_file,
+            chunk=CHUNK, mode=MODE)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
-- 
2.43.0


From 7c7d754b3f570175444eb32d57b4686564f61d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 132/169] fix: index files of the synchronized GRACE-FO data
 version

---
 scripts/gfz_isdc_grace_ftp.py | 3 ++-
 scripts/podaac_cumulus.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/gfz_isdc_grace_ftp.py b/scripts/gfz_isdc_grace_ftp.py
index 52ecc3e..4190f54 100644
--- a/scripts/gfz_isdc_grace_ftp.py
+++ b/scripts/gfz_isdc_grace_ftp.py
@@ -261,7 +261,8 @@ def gfz_isdc_grace_ftp(DIRECTORY, PROC=[], DREL=[], VERSION=[],
                             CLOBBER=CLOBBER, CHECKSUM=CHECKSUM, MODE=MODE)
                     # regular expression operator for data product
                     rx = gravtk.utilities.compile_regex_pattern(
-                        pr, rl, ds, mission=shortname[mi])
+                        pr, rl, ds, mission=shortname[mi],
+                        version=VERSION[i])
                     # find local GRACE/GRACE-FO files to create index
                     granules = sorted([f.name for f in local_dir.iterdir()
                         if rx.match(f.name)])
diff --git a/scripts/podaac_cumulus.py b/scripts/podaac_cumulus.py
index ed3fb39..67449fe 100644
--- a/scripts/podaac_cumulus.py
+++ b/scripts/podaac_cumulus.py
@@ -260,7 +260,8 @@ def podaac_cumulus(client, DIRECTORY, PROC=[], DREL=[], VERSION=[],
                         endpoint=ENDPOINT)
                     # regular expression operator for data product
                     rx = gravtk.utilities.compile_regex_pattern(
-                        pr, rl, ds, mission=shortname[mi])
+                        pr, rl, ds, mission=shortname[mi],
+                        version=VERSION[i])
                     # for each model id and url
                     for id,url,mtime in zip(ids,urls,mtimes):
                         # retrieve GRACE/GRACE-FO files
-- 
2.43.0


From 5e5bfafc624b53ab8a19663b6fc9c168c96f9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 133/169] fix: list files matching both missions once in index
 files

---
 scripts/gfz_isdc_grace_ftp.py | 4 ++--
 scripts/podaac_cumulus.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/gfz_isdc_grace_ftp.py b/scripts/gfz_isdc_grace_ftp.py
index 4190f54..95e2178 100644
--- a/scripts/gfz_isdc_grace_ftp.py
+++ b/scripts/gfz_isdc_grace_ftp.py
@@ -266,11 +266,11 @@ def gfz_isdc_grace_ftp(DIRECTORY, PROC=[], DREL=[], VERSION=[],
                     # find local GRACE/GRACE-FO files to create index
                     granules = sorted([f.name for f in local_dir.iterdir()
                         if rx.match(f.name)])
-                    # reduce list of GRACE/GRACE-FO files to unique dates
-                    granules = gravtk.time.reduce_by_date(granules)
                     # extend list of GRACE/GRACE-FO files with granules
                     grace_files.extend(granules)
 
+                # reduce list of GRACE/GRACE-FO files to unique dates
+                grace_files = gravtk.time.reduce_by_date(grace_files)
                 # outputting GRACE/GRACE-FO filenames to index
                 index_file = local_dir.joinpath('index.txt')
                 with index_file.open(mode='w', encoding='utf8') as fid:
diff --git a/scripts/podaac_cumulus.py b/scripts/podaac_cumulus.py
index 67449fe..42fa471 100644
--- a/scripts/podaac_cumulus.py
+++ b/scripts/podaac_cumulus.py
@@ -282,11 +282,11 @@ def podaac_cumulus(client, DIRECTORY, PROC=[], DREL=[], VERSION=[],
                     # find local GRACE/GRACE-FO files to create index
                     granules = sorted([f.name for f in local_dir.iterdir()
                         if rx.match(f.name)])
-                    # reduce list of GRACE/GRACE-FO files to unique dates
-                    granules = gravtk.time.reduce_by_date(granules)
                     # extend list of GRACE/GRACE-FO files with granules
                     grace_files.extend(granules)
 
+                # reduce list of GRACE/GRACE-FO files to unique dates
+                grace_files = gravtk.time.reduce_by_date(grace_files)
                 # outputting GRACE/GRACE-FO filenames to index
                 index_file = local_dir.joinpath('index.txt')
                 with index_file.open(mode='w', encoding='utf8') as fid:
-- 
2.43.0


From 11341940e2cfeb1dea80a6539aa68267d20e6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 134/169] fix: match dealiasing products of early releases
 without mission names

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index cee36aa..7f8a226 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -2160,7 +2160,7 @@ def compile_regex_pattern(
         # CNES: use products in standard format
         args = (DSET,)
         pattern = r'{0}-2_\d+-\d+_\d+_GRGS_([a-zA-Z0-9_\-]+)(\.txt)?(\.gz)?$'
-    elif mission is not None:
+    elif mission is not None and DREL not in ('RL04','RL05'):
         # deliasing products with mission listed
         args = (DSET, mission)
         pattern = r'{0}-2_([a-zA-Z0-9_\-]+)_{1}_([a-zA-Z0-9_\-]+)(\.gz)?$'
-- 
2.43.0


From 16819e2b13c66b4de34d3d40410491e3df75c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 135/169] fix: index the Swarm files that are in the local
 directory

---
 scripts/esa_costg_swarm_sync.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/esa_costg_swarm_sync.py b/scripts/esa_costg_swarm_sync.py
index 1b49c4d..57773fc 100644
--- a/scripts/esa_costg_swarm_sync.py
+++ b/scripts/esa_costg_swarm_sync.py
@@ -119,9 +119,6 @@ def esa_costg_swarm_sync(DIRECTORY, RELEASE=None, TIMEOUT=None, LOG=False,
 
     # find lines of valid files
     valid_lines = [i for i,f in enumerate(colnames) if R1.match(f)]
-    # write each file to an index
-    index_file = local_dir.joinpath(local_dir,'index.txt')
-    fid = index_file.open(mode='w', encoding='utf8')
     # for each data and header file
     for i in valid_lines:
         # remote and local versions of the file
@@ -134,8 +131,15 @@ def esa_costg_swarm_sync(DIRECTORY, RELEASE=None, TIMEOUT=None, LOG=False,
         http_pull_file(remote_file, collastmod[i], local_file,
             TIMEOUT=TIMEOUT, LIST=LIST, CLOBBER=CLOBBER,
             CHECKSUM=CHECKSUM, MODE=MODE)
+    # find local Swarm files to create index
+    swarm_files = sorted([f.name for f in local_dir.iterdir()
+        if R1.match(f.name)])
+    # write each file to an index
+    index_file = local_dir.joinpath(local_dir,'index.txt')
+    with index_file.open(mode='w', encoding='utf8') as fid:
         # output Swarm filenames to index
-        print(colnames[i], file=fid)
+        for fi in swarm_files:
+            print(fi, file=fid)
     # change permissions of index file
     index_file.chmod(mode=MODE)
 
-- 
2.43.0


From 8a70c5d5512b87dbe715421b021716be85450059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:14 +0000
Subject: [PATCH 136/169] fix: list months when a release has no files

---
 gravity_toolkit/grace_months_index.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 864262d..e67f275 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -125,10 +125,9 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_info[var_name] = np.loadtxt(grace_date_file,
                     skiprows=1, dtype=dtype, ndmin=1)
                 # Finding the maximum month measured
-                if (var_info[var_name]['mon'].max() > max_mon):
-                    # if the maximum month in this dataset is greater
-                    # than the previously read datasets
-                    max_mon = np.int64(var_info[var_name]['mon'].max())
+                # (there are no months if there were no files)
+                max_mon = np.int64(var_info[var_name]['mon'].max(
+                    initial=max_mon))
 
     # sort datasets alphanumerically
     var_name = sorted(var_info.keys())
-- 
2.43.0


From 2f9cd4200a7c11c49c07bdd40f87e851a805e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:18 +0000
Subject: [PATCH 137/169] fix: label the terms of mascon summaries in the order
 of the fit

---
 scripts/quick_mascon_regress.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/quick_mascon_regress.py b/scripts/quick_mascon_regress.py
index 2fcad34..bafeb63 100755
--- a/scripts/quick_mascon_regress.py
+++ b/scripts/quick_mascon_regress.py
@@ -114,6 +114,9 @@ def run_regress(input_file,
     # extra terms for tidal aliasing components or custom fits
     terms = []
     term_index = []
+    # tidal aliasing terms are fit after the other cyclical terms
+    cycles = sorted(cycles, key=lambda c: any(np.isclose(c, (period/365.25))
+        for period in tidal_aliasing.values()))
     for i,c in enumerate(cycles):
         # check if fitting with semi-annual or annual terms
         if (c == 0.5):
-- 
2.43.0


From bdcefc6f4a00b6ec1331b65157313203653f144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:18 +0000
Subject: [PATCH 138/169] fix: mascon summaries with other cyclical terms

---
 scripts/quick_mascon_regress.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/quick_mascon_regress.py b/scripts/quick_mascon_regress.py
index bafeb63..7994330 100755
--- a/scripts/quick_mascon_regress.py
+++ b/scripts/quick_mascon_regress.py
@@ -127,6 +127,12 @@ def run_regress(input_file,
             coef_str.extend(['AS','AC'])
             amp_str.append('ANN')
             unit_suffix.extend(['',''])
+        elif not any(np.isclose(c, (period/365.25))
+            for period in tidal_aliasing.values()):
+            # other cyclical terms
+            coef_str.extend([f'{c:0.4g}S', f'{c:0.4g}C'])
+            amp_str.append(f'{c:0.4g}')
+            unit_suffix.extend(['',''])
         # check if fitting with tidal aliasing terms
         for t,period in tidal_aliasing.items():
             if np.isclose(c, (period/365.25)):
-- 
2.43.0


From 6da96fa18970d9b033eefc7d6d43b428f123c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:11 +0000
Subject: [PATCH 139/169] fix: draw monthly series with scalar indices

---
 scripts/geocenter_compare_tellus.py     | 6 +++---
 scripts/geocenter_monte_carlo.py        | 2 +-
 scripts/geocenter_ocean_models.py       | 2 +-
 scripts/geocenter_processing_centers.py | 2 +-
 scripts/quick_mascon_plot.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index 992df24..e9b0e64 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -97,7 +97,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
@@ -123,7 +123,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
                 for i,m in enumerate(months):
                     valid = np.count_nonzero(DEG1.month == m)
                     if valid:
-                        mm, = np.nonzero(DEG1.month == m)
+                        mm, = np.flatnonzero(DEG1.month == m)
                         tdec[i] = DEG1.time[mm]
                         data[i] = val[mm]
                 # plot all dates
@@ -149,7 +149,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_monte_carlo.py b/scripts/geocenter_monte_carlo.py
index 925627a..c814473 100644
--- a/scripts/geocenter_monte_carlo.py
+++ b/scripts/geocenter_monte_carlo.py
@@ -88,7 +88,7 @@ def geocenter_monte_carlo(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
         for i,m in enumerate(months):
             valid = np.count_nonzero(DEG1.month == m)
             if valid:
-                mm, = np.nonzero(DEG1.month == m)
+                mm, = np.flatnonzero(DEG1.month == m)
                 tdec[i] = DEG1.time[mm]
                 data[i,:] = val[mm,:]
 
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index cbbeb7b..c6fa972 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -95,7 +95,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_processing_centers.py b/scripts/geocenter_processing_centers.py
index 252c9d0..ab17e8b 100644
--- a/scripts/geocenter_processing_centers.py
+++ b/scripts/geocenter_processing_centers.py
@@ -107,7 +107,7 @@ def geocenter_processing_centers(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index a2fc933..154068e 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -133,7 +133,7 @@ def run_plot(i, input_file,
         for t,m in enumerate(months):
             valid = np.count_nonzero(dinput[:,0] == m)
             if valid:
-                mm, = np.nonzero(dinput[:,0] == m)
+                mm, = np.flatnonzero(dinput[:,0] == m)
                 tdec[t] = dinput[mm,1]
                 data[t] = dinput[mm,2] - dinput[0,2]
                 if error:
-- 
2.43.0


From c240686700e435e5f5062c48c9513f306fe6311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 140/169] fix: save individual mascon plots beside the
 requested file

---
 scripts/quick_mascon_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index 154068e..8d21f61 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -251,7 +251,8 @@ def main():
         # for each figure number
         for num in plt.get_fignums():
             fig = plt.figure(num)
-            output = f'{args.output_file.stem}_{num}{args.output_file.suffix}'
+            output = args.output_file.with_name(
+                f'{args.output_file.stem}_{num}{args.output_file.suffix}')
             # save the figure file
             fig.savefig(output,
                 metadata={'Title':pathlib.Path(sys.argv[0]).name},
-- 
2.43.0


From 36b314aad850a8f7216eac869552fe5f23f9aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:27 +0000
Subject: [PATCH 141/169] fix: close the geocenter figures of each processing
 center

---
 scripts/geocenter_compare_tellus.py | 2 +-
 scripts/geocenter_ocean_models.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index e9b0e64..c479285 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -201,7 +201,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
         # save figure to file
         OUTPUT_FIGURE = f'TN13_SV19_{pr}_{DREL}.pdf'
         plt.savefig(grace_dir.joinpath(OUTPUT_FIGURE), format='pdf', dpi=300)
-        plt.clf()
+        plt.close(fig)
 
 # PURPOSE: create argument parser
 def arguments():
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index c6fa972..627d4c8 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -147,7 +147,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
     # save figure to file
     OUTPUT_FIGURE = f'SV19_{PROC}_{DREL}_ocean_models.pdf'
     plt.savefig(grace_dir.joinpath(OUTPUT_FIGURE), format='pdf', dpi=300)
-    plt.clf()
+    plt.close(fig)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From c51d798842a34baddc4ca84119cb8cf2bb6ffd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 142/169] fix: set the maximum degree in the notebook from the
 processing center

---
 gravity_toolkit/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 8387d63..041e94f 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -427,13 +427,13 @@ class widgets:
     def set_max_degree(self, sender):
         """function for setting max degree of a product
         """
-        if (self.center == 'CNES'):
+        if (self.center.value == 'CNES'):
             LMAX = dict(RL01=50,RL02=50,RL03=80,RL04=90,RL05=90)
-        elif (self.center in ('CSR','JPL')):
+        elif (self.center.value in ('CSR','JPL')):
             # CSR RL04/5/6 at LMAX 60
             # JPL RL04/5/6 at LMAX 60
             LMAX = dict(RL04=60,RL05=60,RL06=60)
-        elif (self.center == 'GFZ'):
+        elif (self.center.value == 'GFZ'):
             # GFZ RL04/5 at LMAX 90
             # GFZ RL06 at LMAX 60
             LMAX = dict(RL04=90,RL05=90,RL06=60)
-- 
2.43.0


From 8fbd48823361b230eadd7de76e8fc4a2cf92931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 143/169] fix: update notebook options after the selected
 values have changed

---
 gravity_toolkit/tools.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 041e94f..3d5608d 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -222,11 +222,11 @@ class widgets:
         )
 
         # watch widgets for changes
-        self.center.observe(self.set_release)
-        self.release.observe(self.set_product)
-        self.center.observe(self.set_product)
-        self.center.observe(self.update_months)
-        self.release.observe(self.update_months)
+        self.center.observe(self.set_release, names='value')
+        self.release.observe(self.set_product, names='value')
+        self.center.observe(self.set_product, names='value')
+        self.center.observe(self.update_months, names='value')
+        self.release.observe(self.update_months, names='value')
 
 
     # function for setting the data release
@@ -413,13 +413,13 @@ class widgets:
         )
 
         # watch processing center widget for changes
-        self.product.observe(self.set_max_degree)
+        self.product.observe(self.set_max_degree, names='value')
         # watch data release widget for changes
-        self.release.observe(self.set_max_degree)
-        self.release.observe(self.set_pole_tide)
-        self.release.observe(self.set_atm_corr)
+        self.release.observe(self.set_max_degree, names='value')
+        self.release.observe(self.set_pole_tide, names='value')
+        self.release.observe(self.set_atm_corr, names='value')
         # watch data product widget for changes
-        self.release.observe(self.set_pole_tide)
+        self.release.observe(self.set_pole_tide, names='value')
         # watch spherical harmonic degree widget for changes
         self.lmax.observe(self.set_max_order)
 
-- 
2.43.0


From c6933816b0a1ff9e98fcfecdc9c6784e183b2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:13 +0000
Subject: [PATCH 144/169] fix: update months and corrections in the notebook
 with the product

---
 gravity_toolkit/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 3d5608d..5fc241d 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -227,6 +227,7 @@ class widgets:
         self.center.observe(self.set_product, names='value')
         self.center.observe(self.update_months, names='value')
         self.release.observe(self.update_months, names='value')
+        self.product.observe(self.update_months, names='value')
 
 
     # function for setting the data release
@@ -419,7 +420,7 @@ class widgets:
         self.release.observe(self.set_pole_tide, names='value')
         self.release.observe(self.set_atm_corr, names='value')
         # watch data product widget for changes
-        self.release.observe(self.set_pole_tide, names='value')
+        self.product.observe(self.set_pole_tide, names='value')
         # watch spherical harmonic degree widget for changes
         self.lmax.observe(self.set_max_order)
 
-- 
2.43.0


From b2217b1e5743e8c51b991aa358f734c35a883ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:13 +0000
Subject: [PATCH 145/169] fix: list no months in the notebook for data that are
 not available

---
 gravity_toolkit/tools.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 5fc241d..f9013ae 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -207,12 +207,9 @@ class widgets:
         )
 
         # find available months for data product
-        total_months = grace_find_months(self.base_directory,
-            self.center.value, self.release.value,
-            DSET=self.product.value)
         # select months to run
         # https://tsutterley.github.io/data/GRACE-Months.html
-        options=[str(m).zfill(3) for m in total_months['months']]
+        options = self.find_months()
         self.months = ipywidgets.SelectMultiple(
             options=options,
             value=options,
@@ -260,15 +257,25 @@ class widgets:
         self.product.options=valid_products
         self.product.value=self.defaults[2]
 
+    # function for finding the available months
+    def find_months(self):
+        """function for finding the months of the selected data product
+        """
+        try:
+            total_months = grace_find_months(self.base_directory,
+                self.center.value, self.release.value,
+                DSET=self.product.value)
+        except FileNotFoundError:
+            # no local data for the selected data product
+            return []
+        return [str(m).zfill(3) for m in total_months['months']]
+
     # function for updating the available months
     def update_months(self, sender):
         """function for updating available months
         """
         # https://tsutterley.github.io/data/GRACE-Months.html
-        total_months = grace_find_months(self.base_directory,
-            self.center.value, self.release.value,
-            DSET=self.product.value)
-        options=[str(m).zfill(3) for m in total_months['months']]
+        options = self.find_months()
         self.months.options=options
         self.months.value=options
 
-- 
2.43.0


From 6c776435b82e785112a31841c202204614013e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:27 +0000
Subject: [PATCH 146/169] fix: notebook options for the default processing
 center

---
 gravity_toolkit/tools.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index f9013ae..6ce7484 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -186,7 +186,7 @@ class widgets:
         # dropdown menu for setting data release
         self.release = ipywidgets.Dropdown(
             description='Release:',
-            options=['RL04', 'RL05', 'RL06'],
+            options=self.find_releases(),
             value=self.defaults[1],
             disabled=False,
             style=self.style,
@@ -200,7 +200,7 @@ class widgets:
         # GSM: corrected monthly GRACE/GRACE-FO static field product
         self.product = ipywidgets.Dropdown(
             description='Product:',
-            options=['GAC', 'GAD', 'GSM'],
+            options=self.find_products(),
             value=self.defaults[2],
             disabled=False,
             style=self.style,
@@ -227,20 +227,26 @@ class widgets:
         self.product.observe(self.update_months, names='value')
 
 
+    # function for finding the data releases
+    def find_releases(self):
+        """function for finding the releases of the selected center
+        """
+        if (self.center.value == 'CNES'):
+            return ['RL01','RL02','RL03', 'RL04', 'RL05']
+        else:
+            return ['RL04', 'RL05', 'RL06']
+
     # function for setting the data release
     def set_release(self, sender):
         """function for updating available releases
         """
-        if (self.center.value == 'CNES'):
-            releases = ['RL01','RL02','RL03', 'RL04', 'RL05']
-        else:
-            releases = ['RL04', 'RL05', 'RL06']
+        releases = self.find_releases()
         self.release.options=releases
         self.release.value=releases[-1]
 
-    # function for setting the data product
-    def set_product(self, sender):
-        """function for updating available products
+    # function for finding the data products
+    def find_products(self):
+        """function for finding the products of the selected data release
         """
         if (self.center.value == 'CNES'):
             products = {}
@@ -249,12 +255,17 @@ class widgets:
             products['RL03'] = ['GAA', 'GAB', 'GSM']
             products['RL04'] = ['GSM']
             products['RL05'] = ['GAA', 'GAB', 'GSM']
-            valid_products = products[self.release.value]
+            return products[self.release.value]
         elif (self.center.value == 'CSR'):
-            valid_products = ['GAC', 'GAD', 'GSM']
+            return ['GAC', 'GAD', 'GSM']
         elif (self.center.value in ('GFZ','JPL')):
-            valid_products = ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
-        self.product.options=valid_products
+            return ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
+
+    # function for setting the data product
+    def set_product(self, sender):
+        """function for updating available products
+        """
+        self.product.options=self.find_products()
         self.product.value=self.defaults[2]
 
     # function for finding the available months
-- 
2.43.0


From 040defba840a76ad35b8fc7653fd818398a6ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:27 +0000
Subject: [PATCH 147/169] fix: file types when selecting GIA files in the
 notebook

---
 gravity_toolkit/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 6ce7484..37b5bf7 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -700,7 +700,7 @@ class widgets:
         root = Tk()
         root.withdraw()
         root.call('wm', 'attributes', '.', '-topmost', True)
-        filetypes = (("All Files", "*.*"))
+        filetypes = (("All Files", "*.*"),)
         b.files = filedialog.askopenfilename(
             filetypes=filetypes,
             multiple=False)
-- 
2.43.0


From 37febb68d931bd65d459fb1b77d893a14d6c0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 148/169] fix: default product in the notebook for releases
 without it

---
 gravity_toolkit/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 37b5bf7..7892019 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -265,8 +265,11 @@ class widgets:
     def set_product(self, sender):
         """function for updating available products
         """
-        self.product.options=self.find_products()
-        self.product.value=self.defaults[2]
+        valid_products = self.find_products()
+        self.product.options=valid_products
+        # use the default product if available for the data release
+        self.product.value=self.defaults[2] if \
+            (self.defaults[2] in valid_products) else 'GSM'
 
     # function for finding the available months
     def find_months(self):
-- 
2.43.0


From 9a42b5ba4a5013dccb11d813bc8d84e62a919df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 149/169] fix: find and register color maps with current
 matplotlib

---
 gravity_toolkit/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 7892019..51c8b67 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -59,6 +59,7 @@ try:
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
     warnings.warn("ipywidgets not available", ImportWarning)
 try:
+    import matplotlib
     import matplotlib.cm as cm
     import matplotlib.colors as colors
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
@@ -915,7 +916,7 @@ class colormap:
     def value(self):
         """return string for Matplotlib colormaps
         """
-        return copy.copy(cm.get_cmap(self.name.value + self._r))
+        return copy.copy(matplotlib.colormaps[self.name.value + self._r])
 
     @property
     def norm(self):
@@ -1045,7 +1046,7 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         cmap = cmap.with_extremes(**extremes)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=name)
     except:
         pass
     # return the colormap
@@ -1129,7 +1130,7 @@ def custom_colormap(N, map_name, **kwargs):
     cmap = colors.LinearSegmentedColormap(map_name, cdict, **kwargs)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=map_name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=map_name)
     except:
         pass
     # return the colormap
-- 
2.43.0


From f3d9c76a781c38e1de543c5f77fcd12a393b1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 150/169] fix: positive steps for the color bars of notebooks

---
 gravity_toolkit/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 51c8b67..f02298e 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -851,7 +851,7 @@ class colormap:
         step = (self.vmax-self.vmin)//kwargs['steps']
         self.step = ipywidgets.IntSlider(
             value=step,
-            min=0,
+            min=1,
             max=self.vmax-self.vmin,
             step=1,
             description='Plot Step:',
-- 
2.43.0


From 49dfe5032a56dc807581d8664238bc3e1a50fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 151/169] fix: read color models and flags of color tables in
 either case

---
 gravity_toolkit/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index f02298e..45a4a71 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -978,10 +978,10 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         # parse non-color data lines
         if model:
             # find color model
-            colorModel = model.group(1)
+            colorModel = model.group(1).upper()
             continue
         elif BFN:
-            flags[BFN.group(0)] = [float(i) for i in rx.findall(line)]
+            flags[BFN.group(0).upper()] = [float(i) for i in rx.findall(line)]
             continue
         elif re.search(r"#",line):
             # skip over commented header text
-- 
2.43.0


From 7affacb0e3c6c7c7e4acea4f6183b21114f510ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:13 +0000
Subject: [PATCH 152/169] fix: skip empty lines in color tables

---
 gravity_toolkit/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 45a4a71..735d392 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -983,8 +983,8 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         elif BFN:
             flags[BFN.group(0).upper()] = [float(i) for i in rx.findall(line)]
             continue
-        elif re.search(r"#",line):
-            # skip over commented header text
+        elif re.search(r"#",line) or not line.strip():
+            # skip over commented header text and empty lines
             continue
         # find numerical instances within line
         x1,r1,g1,b1,x2,r2,g2,b2 = rx.findall(line)
-- 
2.43.0


From 7ddba70510ae014dbcc8a5f472d875dbe826c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:49 +0000
Subject: [PATCH 153/169] fix: colors of slices in color tables with steps

---
 gravity_toolkit/tools.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 735d392..86f10c3 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -988,16 +988,11 @@ def from_cpt(filename, use_extremes=True, **kwargs):
             continue
         # find numerical instances within line
         x1,r1,g1,b1,x2,r2,g2,b2 = rx.findall(line)
-        # append colors and locations to lists
-        x.append(float(x1))
-        r.append(float(r1))
-        g.append(float(g1))
-        b.append(float(b1))
-    # append end colors and locations to lists
-    x.append(float(x2))
-    r.append(float(r2))
-    g.append(float(g2))
-    b.append(float(b2))
+        # append colors and locations at both ends of the slice to lists
+        x.extend([float(x1), float(x2)])
+        r.extend([float(r1), float(r2)])
+        g.extend([float(g1), float(g2)])
+        b.extend([float(b1), float(b2)])
 
     # convert input colormap to output
     xNorm = [None]*len(x)
-- 
2.43.0


From f4a66d561261ca89305ec91c97b972648d86b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 154/169] fix: sum harmonics truncated in order at ungridded
 points

---
 gravity_toolkit/clenshaw_summation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/clenshaw_summation.py b/gravity_toolkit/clenshaw_summation.py
index 88b10fd..4036a1e 100644
--- a/gravity_toolkit/clenshaw_summation.py
+++ b/gravity_toolkit/clenshaw_summation.py
@@ -159,8 +159,10 @@ def clenshaw_summation(clm, slm, lon, lat,
         raise ValueError(f'Unknown units {UNITS}')
 
     # calculate arrays for clenshaw summations over colatitudes
+    # (there are no harmonics above the maximum order)
+    MMAX = np.minimum(LMAX, np.shape(clm)[1]-1)
     s_m_c = np.zeros((npts,LMAX*2+2))
-    for m in range(LMAX, -1, -1):
+    for m in range(MMAX, -1, -1):
         # convolve harmonics with unit factors and smoothing
         s_m_c[:,2*m:2*m+2] = clenshaw_s_m(t, dfactor*wl, m, clm, slm,
             LMAX, ASTYPE=ASTYPE, SCALE=SCALE)
-- 
2.43.0


From 158899423499922793afb0179cab2ea9db81b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 155/169] fix: keep raster cells within the requested bounds

---
 scripts/grace_raster_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 1a51690..375b423 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -463,8 +463,8 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
     dx,dy = np.broadcast_to(np.atleast_1d(SPACING),(2,))
     xmin,xmax,ymin,ymax = np.copy(BOUNDS)
     # create x and y from spacing and bounds
-    output['x'] = np.arange(xmin + dx/2.0, xmax + dx, dx)
-    output['y'] = np.arange(ymin + dx/2.0, ymax + dy, dy)
+    output['x'] = np.arange(xmin + dx/2.0, xmax, dx)
+    output['y'] = np.arange(ymin + dy/2.0, ymax, dy)
     ny,nx = (len(output['y']),len(output['x']))
     gridx, gridy = np.meshgrid(output['x'],output['y'])
     gridlon, gridlat = transformer.transform(gridx, gridy)
-- 
2.43.0


From c73c690a8c7e941d15bd23309aff0ddb6b51b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:04 +0000
Subject: [PATCH 156/169] fix: match members of zip files by their literal name

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 045eb23..102bf9c 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -332,7 +332,7 @@ class harmonics(object):
                 # first try finding a netCDF4 file with same base filename
                 # if none found simply try searching for a netCDF4 file
                 try:
-                    f,=[f for f in z.namelist() if re.match(stem,f,re.I)]
+                    f,=[f for f in z.namelist() if re.match(re.escape(stem),f,re.I)]
                 except:
                     f,=[f for f in z.namelist() if re.search(r'\.nc(4)?$',f)]
                 # read bytes from zipfile as in-memory (diskless) netCDF4 dataset
@@ -428,7 +428,7 @@ class harmonics(object):
                 # first try finding a HDF5 file with same base filename
                 # if none found simply try searching for a HDF5 file
                 try:
-                    f,=[f for f in z.namelist() if re.match(stem,f,re.I)]
+                    f,=[f for f in z.namelist() if re.match(re.escape(stem),f,re.I)]
                 except:
                     f,=[f for f in z.namelist() if re.search(r'\.H(DF)?5$',f,re.I)]
                 # read bytes from zipfile into in-memory BytesIO object
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 7b44bc4..85ed620 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -367,7 +367,7 @@ class spatial(object):
                 # first try finding a netCDF4 file with same base filename
                 # if none found simply try searching for a netCDF4 file
                 try:
-                    f,=[f for f in z.namelist() if re.match(stem,f,re.I)]
+                    f,=[f for f in z.namelist() if re.match(re.escape(stem),f,re.I)]
                 except:
                     f,=[f for f in z.namelist() if re.search(r'\.nc(4)?$',f)]
                 # read bytes from zipfile as in-memory (diskless) netCDF4 dataset
@@ -491,7 +491,7 @@ class spatial(object):
                 # first try finding a HDF5 file with same base filename
                 # if none found simply try searching for a HDF5 file
                 try:
-                    f,=[f for f in z.namelist() if re.match(stem,f,re.I)]
+                    f,=[f for f in z.namelist() if re.match(re.escape(stem),f,re.I)]
                 except:
                     f,=[f for f in z.namelist() if re.search(r'\.H(DF)?5$',f,re.I)]
                 # read bytes from zipfile into in-memory BytesIO object
-- 
2.43.0


From 3996c5b1d6e43e4f3b863ec4c2f32cb19d80f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:46 +0000
Subject: [PATCH 157/169] fix: draw every run of the monte carlo degree one
 estimate

---
 scripts/monte_carlo_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index a3315c5..2d7f462 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -882,7 +882,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         fig,(ax[0],ax[1],ax[2])=plt.subplots(nrows=3,sharex=True,figsize=(6,9))
         # show solutions for each iteration
         plot_colors = iter(cm.rainbow(np.linspace(0,1,RUNS)))
-        for j in range(n_iter):
+        for j in range(RUNS):
             color_j = next(plot_colors)
             # C10, C11 and S11
             ax[0].plot(months,10.0*iteration.C10[:,j],color=color_j)
-- 
2.43.0


From 1ed29f3faeed5631f6bf8a2be59188eb43566740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 158/169] fix: index a list of objects when only some of them
 have a filename

---
 gravity_toolkit/harmonics.py | 3 +++
 gravity_toolkit/spatial.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 102bf9c..ded84f1 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -674,6 +674,9 @@ class harmonics(object):
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
+        # filenames can only be indexed if every object has one
+        if (len(self.filename) != n):
+            self.filename = []
         # adjust months to fix special cases if necessary
         if kwargs['date']:
             self.month = adjust_months(self.month)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 85ed620..81f1a2e 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -670,6 +670,9 @@ class spatial(object):
             # append attributes to list
             if getattr(object_list[i], 'attributes'):
                 self.attributes.append(object_list[i].attributes)
+        # filenames can only be indexed if every object has one
+        if (len(self.filename) != n):
+            self.filename = []
         # adjust months to fix special cases if necessary
         if kwargs['date']:
             self.month = adjust_months(self.month)
-- 
2.43.0


From b284f0378e6eff2131d1d0c23d915636e021bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:04 +0000
Subject: [PATCH 159/169] fix: write grids that were merged from a list

---
 gravity_toolkit/spatial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 81f1a2e..0549989 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -828,7 +828,10 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        # (lists of grids keep a list of their separate attributes)
+        attributes = {}
+        if isinstance(self.attributes, dict):
+            attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
@@ -973,7 +976,10 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        # (lists of grids keep a list of their separate attributes)
+        attributes = {}
+        if isinstance(self.attributes, dict):
+            attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
-- 
2.43.0


From 573437bd3708fa3500954ea0804db50745f9c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:08 +0000
Subject: [PATCH 160/169] fix: look up color maps by name through pyplot

---
 scripts/plot_AIS_GrIS_maps.py      | 2 +-
 scripts/plot_AIS_grid_3maps.py     | 2 +-
 scripts/plot_AIS_grid_4maps.py     | 2 +-
 scripts/plot_AIS_grid_maps.py      | 2 +-
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_maps.py  | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_3maps.py    | 2 +-
 scripts/plot_GrIS_grid_5maps.py    | 2 +-
 scripts/plot_GrIS_grid_maps.py     | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 scripts/plot_QML_grid_3maps.py     | 2 +-
 scripts/plot_global_grid_3maps.py  | 2 +-
 scripts/plot_global_grid_4maps.py  | 2 +-
 scripts/plot_global_grid_5maps.py  | 2 +-
 scripts/plot_global_grid_9maps.py  | 2 +-
 scripts/plot_global_grid_maps.py   | 2 +-
 scripts/plot_global_grid_movie.py  | 2 +-
 18 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 898d70b..8e1a820 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -391,7 +391,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 86065c6..b0146dd 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index baac669..8ffc36a 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -300,7 +300,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index 585a13f..e087138 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -310,7 +310,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 94f68ba..e397e38 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -314,7 +314,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index b935a79..fd9fdb1 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -389,7 +389,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 528aa0b..d0f79e8 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -394,7 +394,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index b317cee..7ca4649 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -316,7 +316,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index a766d8f..5809f76 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index 440970c..b3461d0 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -323,7 +323,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 39fa1b5..7f47408 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -335,7 +335,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index d9ec864..3225aaf 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -305,7 +305,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index e20993e..a099695 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 7763322..4734446 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index f58cc31..755cac4 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -177,7 +177,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 8c58483..850fd9a 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index f23ac3f..33409ea 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -174,7 +174,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 3d629a0..4feadf6 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -173,7 +173,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
-- 
2.43.0


From 7272deb420cf6c8c2676b51a7028d41223a97d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:08 +0000
Subject: [PATCH 161/169] fix: remove a field from each of the plotted maps

---
 scripts/plot_AIS_GrIS_maps.py     | 2 +-
 scripts/plot_AIS_grid_3maps.py    | 2 +-
 scripts/plot_AIS_grid_4maps.py    | 2 +-
 scripts/plot_GrIS_grid_3maps.py   | 2 +-
 scripts/plot_GrIS_grid_5maps.py   | 2 +-
 scripts/plot_QML_grid_3maps.py    | 2 +-
 scripts/plot_global_grid_3maps.py | 2 +-
 scripts/plot_global_grid_4maps.py | 2 +-
 scripts/plot_global_grid_5maps.py | 2 +-
 scripts/plot_global_grid_9maps.py | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 8e1a820..4142d0a 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -500,7 +500,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index b0146dd..65451a8 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -395,7 +395,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index 8ffc36a..87a788d 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -395,7 +395,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 7ca4649..1718246 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -412,7 +412,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 5809f76..0eff501 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -396,7 +396,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 3225aaf..c390d76 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -401,7 +401,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index a099695..13ee118 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -261,7 +261,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 4734446..c998317 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -261,7 +261,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 755cac4..c7d0055 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -267,7 +267,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 850fd9a..5c3739e 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -262,7 +262,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
-- 
2.43.0


From 887cc78b3ec11ecab3a5f2b9767be5107a835ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:22 +0000
Subject: [PATCH 162/169] fix: clear the contours of a movie frame

---
 scripts/plot_AIS_grid_movie.py     | 3 ++-
 scripts/plot_AIS_regional_movie.py | 3 ++-
 scripts/plot_GrIS_grid_movie.py    | 3 ++-
 scripts/plot_global_grid_movie.py  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index e397e38..82e2547 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -600,7 +600,8 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [c.remove() for cntr in contours
+                for c in getattr(cntr, 'collections', [cntr])]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index d0f79e8..a36a253 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -689,7 +689,8 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [c.remove() for cntr in contours
+                for c in getattr(cntr, 'collections', [cntr])]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 7f47408..4bded7a 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -622,7 +622,8 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [c.remove() for cntr in contours
+                for c in getattr(cntr, 'collections', [cntr])]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 4feadf6..0a053dc 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -438,7 +438,8 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [c.remove() for cntr in contours
+                for c in getattr(cntr, 'collections', [cntr])]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
-- 
2.43.0


From a37d7711482d733f3724fc4e52aaf6e8b8788c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:22 +0000
Subject: [PATCH 163/169] fix: use the latitudes of the grid in movies of
 global grids

---
 scripts/plot_AIS_grid_movie.py     | 4 ++--
 scripts/plot_AIS_regional_movie.py | 4 ++--
 scripts/plot_GrIS_grid_movie.py    | 4 ++--
 scripts/plot_global_grid_movie.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 82e2547..6f7b8e2 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -550,8 +550,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index a36a253..99d94e3 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -639,8 +639,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 4bded7a..ff50b21 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -572,8 +572,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 0a053dc..2d529e9 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -381,8 +381,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
-- 
2.43.0


From 193b287f31aa6bc31ee78d707e580a42b201d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:22 +0000
Subject: [PATCH 164/169] fix: draw the zero contour in movies

---
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 6f7b8e2..522fa27 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -577,7 +577,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 99d94e3..29e317e 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -666,7 +666,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index ff50b21..baf6fba 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -599,7 +599,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
-- 
2.43.0


From b456473f805b05628dfa86fe2c3c38bdbaeda4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:17 +0000
Subject: [PATCH 165/169] fix: use the default format for each of the plotted
 maps

---
 scripts/plot_AIS_GrIS_maps.py     | 2 +-
 scripts/plot_AIS_grid_3maps.py    | 2 +-
 scripts/plot_AIS_grid_4maps.py    | 2 +-
 scripts/plot_GrIS_grid_3maps.py   | 2 +-
 scripts/plot_GrIS_grid_5maps.py   | 2 +-
 scripts/plot_QML_grid_3maps.py    | 2 +-
 scripts/plot_global_grid_3maps.py | 2 +-
 scripts/plot_global_grid_4maps.py | 2 +-
 scripts/plot_global_grid_5maps.py | 2 +-
 scripts/plot_global_grid_9maps.py | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 4142d0a..a009290 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -699,7 +699,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 65451a8..b9c5463 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -590,7 +590,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index 87a788d..e7dc4bf 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -592,7 +592,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 1718246..bd3fb85 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -608,7 +608,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 0eff501..42ba4d1 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -592,7 +592,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index c390d76..7fb1912 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -596,7 +596,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index 13ee118..b5910dc 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -448,7 +448,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index c998317..8d5c39c 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -450,7 +450,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index c7d0055..06077a9 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -456,7 +456,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 5c3739e..ed06adb 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -451,7 +451,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
-- 
2.43.0


From 183564726ea9543c6099730462b560ab3f718976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:17 +0000
Subject: [PATCH 166/169] fix: interpolate grids with descending latitudes with
 splines

---
 gravity_toolkit/tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 86f10c3..32c9b91 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1232,8 +1232,10 @@ def interp_grid(data, xin, yin, xout, yout, order=0):
         interp_data = data[ycoordsi,xcoordsi]
     else:
         # interpolate with bivariate spline approximations
-        spl = scipy.interpolate.RectBivariateSpline(xin, yin,
-            data.T, kx=order, ky=order)
+        # (coordinates in increasing order)
+        i,j = (np.argsort(xin), np.argsort(yin))
+        spl = scipy.interpolate.RectBivariateSpline(np.take(xin,i),
+            np.take(yin,j), data[j,:][:,i].T, kx=order, ky=order)
         interp_data = spl.ev(xout,yout)
     # return the interpolated data on the output grid
     return interp_data
-- 
2.43.0


From 22b063d1dc20a1c7c32add1f70aac41013e0fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:17 +0000
Subject: [PATCH 167/169] fix: read the drainage basins of each ice sheet

---
 scripts/plot_AIS_GrIS_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index a009290..23da0fc 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -189,12 +189,12 @@ def info(args):
 
 # PURPOSE: plot Rignot 2012 drainage basin polylines
 def plot_rignot_basins(ax, base_dir, HEM, projection):
-    region_directory = base_dir.joinpath(*region_dir)
+    region_directory = base_dir.joinpath(*region_dir[HEM])
     # for each region
-    for reg in region_title:
+    for reg in region_title[HEM]:
         # read the regional polylines
         region_file = region_directory.joinpath(region_filename[HEM].format(reg))
-        region_ll = np.loadtxt(region_file, dtype=region_dtype)
+        region_ll = np.loadtxt(region_file, dtype=region_dtype[HEM])
         # converting region lat/lon into plot coordinates
         points = projection.transform_points(ccrs.PlateCarree(),
             region_ll['lon'], region_ll['lat'])
-- 
2.43.0


From 431b596ac198bc7dc2dbc57cc06bc70fae29a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:08 +0000
Subject: [PATCH 168/169] fix: contour the valid points of global maps

The zoomed mask was truncated from floating point numbers just under 1, and
blanked 1.5 percent of the points that are valid
---
 scripts/plot_global_grid_3maps.py | 4 ++--
 scripts/plot_global_grid_4maps.py | 4 ++--
 scripts/plot_global_grid_5maps.py | 4 ++--
 scripts/plot_global_grid_9maps.py | 4 ++--
 scripts/plot_global_grid_maps.py  | 4 ++--
 scripts/plot_global_grid_movie.py | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index b5910dc..ad55c65 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -326,8 +326,8 @@ def plot_grid(base_dir, FILENAMES,
         lon, lat = np.meshgrid(dinput.lon,dinput.lat)
         # recalculate data at zoomed coordinates
         data = np.ma.array(scipy.ndimage.zoom(img.data,5,order=1))
-        mask = scipy.ndimage.zoom(np.invert(img.mask),5,order=1,output=bool)
-        data.mask = np.invert(mask)
+        mask = scipy.ndimage.zoom(img.mask.astype(float),5,order=1)
+        data.mask = mask.astype(bool)
         # plot line contours
         if CONTOURS:
             clevs = np.arange(CONTOUR_RANGE[0],
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 8d5c39c..8f29183 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -326,8 +326,8 @@ def plot_grid(base_dir, FILENAMES,
         lon, lat = np.meshgrid(dinput.lon,dinput.lat)
         # recalculate data at zoomed coordinates
         data = np.ma.array(scipy.ndimage.zoom(img.data,5,order=1))
-        mask = scipy.ndimage.zoom(np.invert(img.mask),5,order=1,output=bool)
-        data.mask = np.invert(mask)
+        mask = scipy.ndimage.zoom(img.mask.astype(float),5,order=1)
+        data.mask = mask.astype(bool)
         # plot line contours
         if CONTOURS:
             clevs = np.arange(CONTOUR_RANGE[0],
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 06077a9..713db72 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -332,8 +332,8 @@ def plot_grid(base_dir, FILENAMES,
         lon, lat = np.meshgrid(dinput.lon,dinput.lat)
         # recalculate data at zoomed coordinates
         data = np.ma.array(scipy.ndimage.zoom(img.data,5,order=1))
-        mask = scipy.ndimage.zoom(np.invert(img.mask),5,order=1,output=bool)
-        data.mask = np.invert(mask)
+        mask = scipy.ndimage.zoom(img.mask.astype(float),5,order=1)
+        data.mask = mask.astype(bool)
         # plot line contours
         if CONTOURS:
             clevs = np.arange(CONTOUR_RANGE[0],
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index ed06adb..60433ba 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -327,8 +327,8 @@ def plot_grid(base_dir, FILENAMES,
         lon, lat = np.meshgrid(dinput.lon,dinput.lat)
         # recalculate data at zoomed coordinates
         data = np.ma.array(scipy.ndimage.zoom(img.data,5,order=1))
-        mask = scipy.ndimage.zoom(np.invert(img.mask),5,order=1,output=bool)
-        data.mask = np.invert(mask)
+        mask = scipy.ndimage.zoom(img.mask.astype(float),5,order=1)
+        data.mask = mask.astype(bool)
         # plot line contours
         if CONTOURS:
             clevs = np.arange(CONTOUR_RANGE[0],
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index 33409ea..c057b54 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -300,8 +300,8 @@ def plot_grid(base_dir, FILENAME,
     lon, lat = np.meshgrid(dinput.lon,dinput.lat)
     # recalculate data at zoomed coordinates
     data = np.ma.array(scipy.ndimage.zoom(img.data,5,order=1))
-    mask = scipy.ndimage.zoom(np.invert(img.mask),5,order=1,output=bool)
-    data.mask = np.invert(mask)
+    mask = scipy.ndimage.zoom(img.mask.astype(float),5,order=1)
+    data.mask = mask.astype(bool)
     # plot line contours
     if CONTOURS:
         clevs = np.arange(CONTOUR_RANGE[0],
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 2d529e9..33a4bd5 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -403,8 +403,8 @@ def animate_grid(base_dir, FILENAME,
             im.set_data(img)
             # recalculate data at zoomed coordinates
             data = np.ma.array(scipy.ndimage.zoom(img.data,5,order=1))
-            mask = scipy.ndimage.zoom(np.invert(img.mask),5,order=1,output=bool)
-            data.mask = np.invert(mask)
+            mask = scipy.ndimage.zoom(img.mask.astype(float),5,order=1)
+            data.mask = mask.astype(bool)
             # plot line contours
             contours = []
             if CONTOURS and (np.sum(data**2) > 0):
-- 
2.43.0


From 93adf31d5191e8c54ee20ac5caf0422fc895bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:37 +0000
Subject: [PATCH 169/169] fix: draw the parts of Antarctic basins separately

The parts of an IMBIE-2 basin were joined by lines in the figure of both ice
sheets, as in no other program
---
 scripts/plot_AIS_GrIS_maps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 23da0fc..2cb30c2 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -217,8 +217,12 @@ def plot_IMBIE2_basins(ax, base_dir, HEM):
         for indice in i:
             # extract Polar-Stereographic coordinates for record
             points = np.array(shape_entities[indice].points)
-            ax.plot(points[:,0], points[:,1], c='k',
-                transform=projection[HEM])
+            # Antarctic IMBIE-2 basins can have multiple parts
+            parts = shape_entities[indice].parts
+            parts.append(len(points))
+            for p1,p2 in zip(parts[:-1],parts[1:]):
+                ax.plot(points[p1:p2,0], points[p1:p2,1], c='k',
+                    transform=projection[HEM])
     elif (HEM == 'N'):
         # no GIC or islands
         i=[i for i,a in enumerate(shape_attributes) if a[0] in IMBIE_title[HEM]]
-- 
2.43.0

