From 8e7de6461f2597a3e0f96a6f4126f0e3a3f22649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 01/78] fix: compare stored covariance matrices with None by
 identity

---
 xboa/bunch/_bunch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..5647e64 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -84,7 +84,7 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
+    if self.__covs is not None:
       covs = 'numpy.'+repr(self.__covs)
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
@@ -681,7 +681,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -770,7 +770,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -782,7 +782,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1025,9 +1025,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1880,7 +1880,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From b127c8d94535e86df22f54d008106b57a56e09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 02/78] fix: recalculate the stored covariances and means from
 the hits, not from the old ones

---
 xboa/bunch/_bunch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 5647e64..0dd9413 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -769,6 +769,8 @@ class Bunch:
 
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
+    self.__covs  = None
+    self.__means = {}
     if use_internal_covariance_matrix:
       if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
@@ -776,9 +778,6 @@ class Bunch:
       if mean_dict == {}:
         self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__means = mean_dict
-    else:
-      self.__covs  = None
-      self.__means = {}
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-- 
2.43.0


From 9cb1f21bad78611eb8b69244c6b5a976f60e344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 03/78] fix: delete a hit from the compiled core as well as
 from the list

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 0dd9413..f07bd34 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -128,7 +128,7 @@ class Bunch:
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
     self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+    self.__bunchcore.del_item(key)
 
   def __del__(self):
     """Called by del"""
-- 
2.43.0


From 69338f0abee2fc2f59c29c5b23690c9745541609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 04/78] fix: bunches with stored covariances compare their
 covariances, means and hits

---
 xboa/bunch/_bunch.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f07bd34..8396bf5 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -140,16 +140,13 @@ class Bunch:
     """Return true if all hits in self are the same as all hits in target, and set_covariance_matrix data are the same"""
     if type(target)      != type(self):          return False
     if len(self.__hits)  != len(target.__hits):  return False
+    if len(self.__means) != len(target.__means):                         return False
     for key,value in self.__means.items():
       if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None:
+      if not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
-- 
2.43.0


From 9a03729bc248f958d37f065e8476c766f8d7d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 05/78] fix: new_from_hits does not share its default means or
 the caller's matrices between bunches

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8396bf5..e757c8a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -173,8 +173,8 @@ class Bunch:
     for hit in hits_list:
       new_hit = hit.deepcopy()
       bunch.append( new_hit )
-    bunch.__covs    = covs
-    bunch.__means   = means
+    bunch.__covs    = copy.deepcopy(covs)
+    bunch.__means   = copy.deepcopy(means)
     return bunch
 
   @classmethod
-- 
2.43.0


From 740529f0fcb4d738f46745e3974d5423173a9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 06/78] fix: n sigma conditional_remove cuts at n standard
 deviations, as cut does

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e757c8a..a1b1fe8 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -624,7 +624,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From 217ce6c27c801349ae6181133cf80aaffdeb7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 07/78] fix: the Twiss functions use the coordinate convention
 they are asked for throughout

---
 xboa/bunch/_bunch.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index a1b1fe8..9b5623d 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -925,7 +925,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -953,7 +953,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1004,6 +1004,7 @@ class Bunch:
     ~~~~~~~~~~~~~~~
     would return the dispersion in the y-direction
     """
+    if geometric == None: geometric = Bunch.__geometric_momentum
     mom = Bunch.momentum_variable(axis, geometric)
     return self.moment([mom,'energy'])*self.mean(['energy'])['energy']/self.moment(['energy','energy'])
 
@@ -1019,10 +1020,10 @@ class Bunch:
         emit_var.append(len(coupled_axis_list2)) #mark position of emittance variables
       if ax in coupled_axis_list or ax in emittance_axis_list:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
-    cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
+    cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(coupled_axis_list2)
+      my_cov = self.__cov_mat_picker(coupled_axis_list2, geometric)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
@@ -1100,14 +1101,14 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(axis_list)
+      my_cov = self.__cov_mat_picker(axis_list, geometric)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1184,17 +1185,17 @@ class Bunch:
     if geometric == None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     if mean_dict == {}:   
-      mean_dict = bunch.__mean_picker(axis_list)
+      mean_dict = bunch.__mean_picker(axis_list, geometric)
       if mean_dict == {}:
         mean_dict = bunch.mean(cov_list)
     my_vector = hit.get_vector(cov_list, mean_dict)
     my_cov    = copy.deepcopy( covariance_matrix )
     if my_cov is None:
-      my_cov = bunch.__cov_mat_picker(axis_list)
+      my_cov = bunch.__cov_mat_picker(axis_list, geometric)
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
@@ -1874,9 +1875,9 @@ class Bunch:
   def __dispersion_prime_for_get(self, variable_list):
     return self.get_dispersion_prime(variable_list[0])
 
-  def __cov_mat_picker(self, axis_list):
+  def __cov_mat_picker(self, axis_list, geometric):
     config.has_numpy()
-    if self.__covs is None: return None
+    if self.__covs is None or geometric != Bunch.__geometric_momentum: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
@@ -1889,10 +1890,10 @@ class Bunch:
         covs[2*i,  2*j+1] = self.__covs[2*ind[i],   2*ind[j]+1]
     return covs
 
-  def __mean_picker(self, var_list):
+  def __mean_picker(self, var_list, geometric):
     if self.__means == None or self.__means == {}: return {}
     means = {}
-    all_list = Bunch.axis_list_to_covariance_list(var_list)
+    all_list = Bunch.axis_list_to_covariance_list(var_list, geometric)
     try:
       for var in all_list: means[var] = self.__means[var]
     except:
-- 
2.43.0


From d1fa9e85c0cce363f6a28d7483277b18192a6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 08/78] fix: canonical angular momentum has its default axis in
 geometric coordinates too

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 9b5623d..ebc93fa 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1126,7 +1126,7 @@ class Bunch:
     else:
       return (self.moment(['x','y\''], rotation_axis_dict) - self.moment(['y','x\''], rotation_axis_dict)) * self.mean(['pz'])['pz']
 
-  def get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x':0, 'y':0}, rotation_axis_dict={'x':0,'y':0,'px':0,'py':0}):
+  def get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x':0, 'y':0}, rotation_axis_dict={'x':0,'y':0,'px':0,'py':0,'x\'':0,'y\'':0}):
     """
     Return the bunch canonical angular momentum about some arbitrary axis, defined by
 
-- 
2.43.0


From 50862e86062dc052ea74659c5117d72f28ba298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 09/78] fix: write the user comment of
 hit_write_builtin_from_dict

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ebc93fa..4146c35 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1382,7 +1382,7 @@ class Bunch:
     all_hits = []
     for key,value in dict_of_bunches.items():
       all_hits += value.hits()
-    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name)
+    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)
   hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
   
   def hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
-- 
2.43.0


From 3cf508820a69393c0ce9f209a9e2eb6b6b4895e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 10/78] fix: sort hits and bunches by a comparator on Python 3,
 without reordering the caller's list

---
 xboa/bunch/_bunch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 4146c35..7c01fb2 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -24,6 +24,7 @@ import operator
 import math
 import sys
 import bisect
+import functools
 
 try: 
   import json
@@ -1400,9 +1401,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
+    hits = self.__hits
     if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
@@ -1719,7 +1721,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for i, bunch in enumerate(list_of_bunches):
       try:
           x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
@@ -1842,7 +1844,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for bunch in list_of_bunches:
       x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
       y_points.append(bunch.get(y_axis_string, y_axis_list)/Common.units[y_axis_units])
-- 
2.43.0


From 5e7b350072bd684711e0ad54fea3a51a79e0d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 11/78] fix: covariance_matrix does not hide a broken call
 behind a bare except

---
 xboa/bunch/_bunch.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7c01fb2..514ec4e 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -734,19 +734,9 @@ class Bunch:
     dim = len(get_variable_list)
     cov = matrix(numpy.zeros((dim,dim)))
     origin_dict1 = copy.deepcopy(origin_dict)
-    origin_list  = []
     for var in get_variable_list:
       if not var in origin_dict1:
         origin_dict1[var] = self.mean([var])[var]
-      origin_list.append(origin_dict1[var])
-    try:
-      covariances = self.__bunchcore.covariance_matrix(get_variable_list, origin_list)
-      for i1 in range(dim):
-        for i2 in range(i1, dim):
-          cov[i1,i2] = covariance_list[i1][i2]
-      return cov
-    except:
-      pass
     for i1 in range(dim):
       for i2 in range(i1, dim):
         covariance_list = [get_variable_list[i1], get_variable_list[i2]]
-- 
2.43.0


From 4e286196b243f9d08c87e45785a4d8ba49f6c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 12/78] fix: an impossible mass shell request on 'p' sets zero
 and returns False, as documented

---
 xboa/hit/_hit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..0c22e50 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -303,7 +303,11 @@ class Hit(object):
     e  = self.get('energy')
     m  = self.get('mass')
     if(variable_string == 'p'):
-      self.set('p',  ( (e-m)*(e+m) )**0.5 )
+      val = (e-m)*(e+m)
+      if val < 0.:
+        self.set('p', 0.)
+        return False
+      self.set('p', val**0.5 )
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-- 
2.43.0


From 8b3a39d0c29d2d61710bc30f965f24e728b07615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 13/78] fix: writing a hit in a foreign particle numbering
 restores its pid on every path

---
 xboa/hit/_hit.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 0c22e50..f312fcb 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -404,15 +404,15 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+    pid = self.get('pid')
+    try:
+      if( format.find('icool') > -1 ):
+        self.set('pid', Common.pdg_pid_to_icool[pid])
+      if( format.find('mars') > -1 ):
+        self.set('pid', Common.pdg_pid_to_mars [pid])
+      self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
+    finally:
+      self.set('pid', pid)
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
-- 
2.43.0


From 6b15e20c4828b8b63da28bffc7fd610c37915791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 14/78] fix: write_list_builtin_formatted closes its file on
 every path and reports every hit it cannot write

---
 xboa/hit/_hit.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index f312fcb..a335b07 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -431,33 +431,22 @@ class Hit(object):
       raise IOError(f"Did not recognise file type {file_type_string}, should be one of {cls.__file_types}")
     if( file_type_string.find('maus_root') > -1 ):
       raise IOError("Can't write maus_root formats")
-    filehandle = Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment)
     if( file_type_string.find('maus') > -1 ):
       maus_tree = Hit.get_maus_tree(list_of_hits, file_type_string)
-      for spill_number, item in enumerate(maus_tree):
-        item["maus_event_type"] = "Spill"
-        item["spill_number"] = spill_number
-        print(json.dumps(item), file=filehandle)
+      with Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment) as filehandle:
+        for spill_number, item in enumerate(maus_tree):
+          item["maus_event_type"] = "Spill"
+          item["spill_number"] = spill_number
+          print(json.dumps(item), file=filehandle)
       return
     sort_key = lambda hit: hit["station"]
     list_of_hits = sorted(list_of_hits, key=sort_key)
-    old_hit = None
-    current_hits = []
-    for hit_in in list_of_hits:
-      if old_hit == None or sort_key(hit_in) == sort_key(old_hit):
-        current_hits.append(hit_in)
-      else:
-        for hit_out in current_hits:
-          try:    hit_out.write_builtin_formatted(file_type_string, filehandle)
-          except: pass
-        current_hits = [hit_in]
-      old_hit = hit_in
-    for hit_out in current_hits:
-      try:
-        hit_out.write_builtin_formatted(file_type_string, filehandle)
-      except:
-        print('Warning - failed to write ',hit_out)
-    filehandle.close()
+    with Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment) as filehandle:
+      for hit_out in list_of_hits:
+        try:
+          hit_out.write_builtin_formatted(file_type_string, filehandle)
+        except Exception:
+          print('Warning - failed to write ',hit_out)
     return
 
   def open_filehandle_for_writing(file_type_string, file_name, user_comment=None):
-- 
2.43.0


From 9e532d7048b64e9b49ff8cf0eeabdbfa2afda4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 15/78] fix: open_filehandle_for_writing does not truncate a
 file of a type it has no header for

---
 xboa/hit/_hit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index a335b07..3000c19 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -456,9 +456,13 @@ class Hit(object):
     - file_type_string = open filehandle for this file type
     - file_name        = string name of the file
     """
-    filehandle = None
+    header = Hit.file_header(file_type_string, user_comment)
     filehandle = open(file_name, 'w')
-    filehandle.write(Hit.file_header(file_type_string, user_comment))
+    try:
+      filehandle.write(header)
+    except Exception:
+      filehandle.close()
+      raise
     return filehandle
   open_filehandle_for_writing = staticmethod(open_filehandle_for_writing)
 
-- 
2.43.0


From 3b12efb653a926e2cf6daee376fdc777c0144ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 16/78] fix: spill and global_weight can be read and written in
 user formats

---
 xboa/hit/_hit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 3000c19..73934ba 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -817,7 +817,8 @@ class Hit(object):
   __set_variables        = {'p':set_p,'x\'':set_xP,'y\'':set_yP,'t\'':set_tP,'ct':set_ct,'kinetic_energy':set_ek,'':__do_nothing}
   _default_var_types    = {'x':float,'y':float,'z':float,'t':float,'px':float,'py':float,'pz':float,'energy':float,'bx':float,'by':float,'bz':float,
                             'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'local_weight':float,
-                            'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float}
+                            'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float,
+                            'spill':int,'global_weight':float}
 
   __get_keys = []
   __set_keys = []
-- 
2.43.0


From 42da5cbdd967947f337ceb90a3f558f07882c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 17/78] fix: Hit.new_list_from_maus_root and
 new_list_from_maus_json find and fill their factory

---
 xboa/hit/_hit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 73934ba..11d78a6 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -200,7 +200,7 @@ class Hit(object):
     Returns a list of hit objects. Station number will be taken from the relevant maus_type. event_number will be given by the spill_number. track_number will be given by
     the index on mc_events or recon_events
     """
-    fac = xboa.hit.factory.factory.MausRootHitFactory(format, root_tree, entry_number)
+    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
 
@@ -216,7 +216,7 @@ class Hit(object):
     relevant maus_type. event_number will be given by the spill_number. 
     track_number will be given by the index on mc_events or recon_events.
     """
-    fac = xboa.hit.factory.factory.MausJsonHitFactory(format, file_handle)
+    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
     
-- 
2.43.0


From caf5f11524155b48656ca6699bc8405854a32785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 18/78] fix: get_maus_dict converts the units of the maus
 dictionary it made

---
 xboa/hit/_hit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 11d78a6..86ae1ed 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -516,8 +516,8 @@ class Hit(object):
         maus_dict[maus_name][xyz] = self[xboa_suffix+xyz]
     for maus_key, xboa_key in conversion_dict.items():
       maus_dict[maus_key] = self[xboa_key]
-    for key, value in Hit._Hit__file_units[type_name]:
-      xboa_dict[key] *= Hit._Hit__file_units[type_name][key]
+    for key, unit in Hit.__file_units[type_name].items():
+      maus_dict[key] /= Common.units[unit]
     return (maus_dict, self['event_number'])
 
 
-- 
2.43.0


From 0f20892c4d6bfa04641e9fed84a250509e538737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 19/78] fix: hit sort comparators do not need the Python 2 cmp

---
 xboa/hit/_hit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 86ae1ed..3f23845 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -899,11 +899,11 @@ class Hit(object):
   __default_user_string = 'File generated by X_BOA'
   
   def __event_cmp(lhs, rhs):
-    return cmp(lhs.get('eventNumber'), rhs.get('eventNumber'))
+    return (lhs.get('eventNumber') > rhs.get('eventNumber')) - (lhs.get('eventNumber') < rhs.get('eventNumber'))
   __event_cmp = staticmethod(__event_cmp)
   
   def __station_cmp(lhs, rhs):
-    return cmp(lhs.get('station'), rhs.get('station'))
+    return (lhs.get('station') > rhs.get('station')) - (lhs.get('station') < rhs.get('station'))
   __station_cmp = staticmethod(__station_cmp)
 
   
-- 
2.43.0


From c658734c7fc20e6c516b5f71bae5aee33c162ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 20/78] fix: hit_generator yields every hit of its file and
 ends without a StopIteration error

---
 xboa/hit/factory/_hit_factory_base.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/xboa/hit/factory/_hit_factory_base.py b/xboa/hit/factory/_hit_factory_base.py
index d51d445..0b4e7ae 100644
--- a/xboa/hit/factory/_hit_factory_base.py
+++ b/xboa/hit/factory/_hit_factory_base.py
@@ -33,18 +33,16 @@ class HitFactoryBase(object):
         raise NotImplementedError("make_hit not implemented")
 
     def hit_generator(self):
-        try:
-            print("gen in")
-            yield self.make_hit()
-            print("gen out")
-        except (EOFError, xboa.hit.BadEventError):
-            self.new_spill()
+        while True:
             try:
-                yield self.make_hit()
+                hit = self.make_hit()
             except (EOFError, xboa.hit.BadEventError):
-                raise StopIteration("Finished")
-        except StopIteration:
-            raise
+                try:
+                    self.new_spill()
+                    hit = self.make_hit()
+                except (EOFError, IndexError, xboa.hit.BadEventError):
+                    return
+            yield hit
 
     def new_spill(self):
         """
-- 
2.43.0


From 06ef0ce5ae87346729452e559500bfc20d0c5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 21/78] fix: MausJsonHitFactory iterates its tables on Python 3

---
 xboa/hit/factory/_maus_json_hit_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index e8a0ad3..5ba41a6 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -130,10 +130,10 @@ class MausJsonHitFactory(HitFactoryBase):
         xboa_dict = {}
         three_vec_conversions = cls._maus_three_vec_conversions[format]
         conversion_dict = cls._maus_variable_conversions[format]
-        for maus_name, xboa_suffix in three_vec_conversions.iteritems():
-          for maus_xyz, value in maus_dict[maus_name].iteritems():
+        for maus_name, xboa_suffix in three_vec_conversions.items():
+          for maus_xyz, value in maus_dict[maus_name].items():
             xboa_dict[xboa_suffix+maus_xyz] = value
-        for maus_key, xboa_key in conversion_dict.iteritems():
+        for maus_key, xboa_key in conversion_dict.items():
           xboa_dict[xboa_key] = maus_dict[maus_key]
         xboa_dict['event_number'] = event_number
         if 'mass' not in xboa_dict.keys():
-- 
2.43.0


From a4eb04ab0b0c451d57d45bc83ec86720e5a9fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 22/78] fix: MAUS root primaries take their charge from the
 particle id

---
 xboa/hit/factory/_maus_root_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 2bcb986..783dc58 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -171,7 +171,7 @@ class MausRootHitFactory(HitFactoryBase):
                 hit["mass"] = 0.
                 self.bad_pid(hit["pid"])
             try:
-                hit["charge"] = common.pdg_pid_to_charge[hit["charge"]]
+                hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
             except KeyError:
                 hit["charge"] = 0.
                 self.bad_pid(hit["pid"])
-- 
2.43.0


From 4e09f9272790442f0668116943621819a84cef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 23/78] fix: scifi trackpoints end without a StopIteration
 error

---
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 3d9872c..71525d0 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -129,7 +129,6 @@ class MausRootReconHitFactory(HitFactoryBase):
                 hit["spill"] = self.spill_number
                 hit["particle_number"] = track_i
                 yield hit
-        raise StopIteration("Out of events")
 
     def _read_tof_01_space_points(self, tof_event):
         """
-- 
2.43.0


From c36c41382a7f907375876bf7005a57a38b5f6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 24/78] fix: OpalHitFactory can be made and read on Python 3
 and ignores the probes it is told to

---
 xboa/hit/factory/_opal_hit_factory.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/xboa/hit/factory/_opal_hit_factory.py b/xboa/hit/factory/_opal_hit_factory.py
index 9f51f7d..52d0ea9 100644
--- a/xboa/hit/factory/_opal_hit_factory.py
+++ b/xboa/hit/factory/_opal_hit_factory.py
@@ -15,6 +15,8 @@
 # along with xboa in the doc folder.  If not, see 
 # <http://www.gnu.org/licenses/>.
 
+import xboa.common as common
+import xboa.hit
 from xboa.hit.factory import LineFactoryBase
 
 class OpalHitFactory(LineFactoryBase):
@@ -22,13 +24,13 @@ class OpalHitFactory(LineFactoryBase):
     Factory class for line by line reads of OPAL output files
     """
     def __init__(self, pid, probes, ignore_probes, filehandle):
-        super(LineFactoryBase.__init__(self))
-        if pid not in Common.pdg_pid_to_mass or \
-           pid not in Common.pdg_pid_to_charge:
-            raise
+        super(OpalHitFactory, self).__init__()
+        if abs(pid) not in common.pdg_pid_to_mass or \
+           pid not in common.pdg_pid_to_charge:
+            raise KeyError("Did not recognise pid "+str(pid))
         self.pid = pid
         self.probes = probes
-        self.ignore_probes = []
+        self.ignore_probes = ignore_probes
         self.filehandle = filehandle
 
     # read beam loss hit
@@ -44,24 +46,24 @@ class OpalHitFactory(LineFactoryBase):
         probes = self.probes
         pid = self.pid
         try:
-          line = self.filehandle.next()
+          line = next(self.filehandle)
         except StopIteration:
           raise EOFError("End of file reached")
         words = line.split()
         if words[0] in self.ignore_probes:
-          raise BadEventError("Failed to parse event")
+          raise xboa.hit.BadEventError("Failed to parse event")
         if not len(words) == 10:
-          raise BadEventError("Failed to parse event")
+          raise xboa.hit.BadEventError("Failed to parse event")
         if words[0] not in probes.keys():
           probes[words[0]] = len(probes.keys())
         hit_dict = dict( (key, float(words[i+1]) ) for i, key in enumerate(['x', 'y', 'z', 'px', 'py', 'pz', 'event_number', 'station', 't']))
         hit_dict['pid'] = pid
-        hit_dict['mass'] = Common.pdg_pid_to_mass[abs(pid)]
-        hit_dict['charge'] = Common.pdg_pid_to_charge[pid]
+        hit_dict['mass'] = common.pdg_pid_to_mass[abs(pid)]
+        hit_dict['charge'] = common.pdg_pid_to_charge[pid]
         hit_dict['station'] = probes[words[0]]+len(probes)*(int(words[8])-1)
         for item in ['px', 'py', 'pz']:
           hit_dict[item] *= hit_dict['mass']
-        hit = Hit.new_from_dict(hit_dict)
+        hit = xboa.hit.Hit.new_from_dict(hit_dict)
         hit.mass_shell_condition('energy')
         return hit
 
-- 
2.43.0


From 660f622e349b4374a02323e69ca19aa68239959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 25/78] fix: read opal_loss hits through the OPAL factory
 instead of a missing method

---
 xboa/hit/_hit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 3f23845..52bb58b 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -163,9 +163,7 @@ class Hit(object):
     Note that this will read one event, typically corresponding to one line in <filehandle>
     """
     if format == 'opal_loss':
-      hit = Hit()
-      opal_read = hit.__read_opal_loss_file(filehandle)        
-      return hit
+      return xboa.hit.factory.OpalHitFactory(Hit.__opal_pid, Hit.__opal_probes, Hit.__opal_ignore_probes, filehandle).make_hit()
     else:
       return xboa.hit.factory.BuiltinHitFactory(format, filehandle).make_hit()
   new_from_read_builtin = staticmethod(new_from_read_builtin)
-- 
2.43.0


From cac5e8688c2fc244ba0514e212fcde2eb084d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 26/78] fix: set_g4bl_unit applies to reading as well as
 writing g4beamline track files

---
 xboa/hit/_hit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 52bb58b..232a67a 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -685,9 +685,11 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    reader_units = xboa.hit.factory.BuiltinHitFactory.file_units
+    for file_units in [Hit.__file_units, reader_units]:
+      file_units['g4beamline_bl_track_file']['x'] = unit
+      file_units['g4beamline_bl_track_file']['y'] = unit
+      file_units['g4beamline_bl_track_file']['z'] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From e4ef20f162afece9fff9c06e0358f66033c8c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 27/78] fix: set_g4bl_unit covers both g4beamline track file
 formats

---
 xboa/hit/_hit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 232a67a..b689399 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -687,9 +687,10 @@ class Hit(object):
     """
     reader_units = xboa.hit.factory.BuiltinHitFactory.file_units
     for file_units in [Hit.__file_units, reader_units]:
-      file_units['g4beamline_bl_track_file']['x'] = unit
-      file_units['g4beamline_bl_track_file']['y'] = unit
-      file_units['g4beamline_bl_track_file']['z'] = unit
+      for file_type in ['g4beamline_bl_track_file', 'g4beamline_bl_track_file_2']:
+        file_units[file_type]['x'] = unit
+        file_units[file_type]['y'] = unit
+        file_units[file_type]['z'] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From 760498cd9c2e7440275ca136804cf871929c00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 28/78] fix: deep copy of a bunch copies the hits instead of
 evaluating their printed form

---
 xboa/bunch/_bunch.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 514ec4e..b8150f2 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -103,10 +103,7 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    target = eval(self.__repr__())
-    target.__covs  = copy.deepcopy(self.__covs)
-    target.__means = copy.deepcopy(self.__means)
-    return target
+    return Bunch.new_from_hits(self.__hits, self.__covs, self.__means)
   
   def deepcopy(self):
     """Make a copy and copy self's data"""
-- 
2.43.0


From 9b5ece629b15b802533b5623d79aeb627c8f7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 29/78] fix: reading bunches closes its files on every path

---
 xboa/bunch/_bunch.py | 72 +++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index b8150f2..421cec1 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -318,18 +318,17 @@ class Bunch:
     bad_event_counter = 0
     for file_name in file_name_list:
         print("Loading", file_name)
-        filehandle = Bunch.setup_file(file_type_string, file_name)
-        while(len(bunch) < number_of_hits or number_of_hits < 0):
-          try:
-              hit = Hit.new_from_read_builtin(file_type_string, filehandle)
-          except(EOFError):
-              break
-          except(BadEventError):
-              bad_event_counter += 1
-              continue
-          if (not test_function) or test_function(hit):
-              bunch.append(hit)
-        filehandle.close()
+        with Bunch.setup_file(file_type_string, file_name) as filehandle:
+          while(len(bunch) < number_of_hits or number_of_hits < 0):
+            try:
+                hit = Hit.new_from_read_builtin(file_type_string, filehandle)
+            except(EOFError):
+                break
+            except(BadEventError):
+                bad_event_counter += 1
+                continue
+            if (not test_function) or test_function(hit):
+                bunch.append(hit)
     if bad_event_counter:
         print(f"Warning - failed to load {bad_event_counter} hits during load")
     return bunch
@@ -349,23 +348,23 @@ class Bunch:
     e.g. myBunch = Bunch.new_from_read_user(['x','y','z','px','py','pz'], {'x':'mm', 'y':'mm', 'z':'mm', 'px':'MeV/c', 'py':'MeV/c', 'pz':'MeV/c'}, my_input_file, 3)
     will skip the first 3 lines of the file and then read in all events from my_input_file, assuming the formatting listed
     """
-    for dummy in range(number_of_skip_lines):
-      filehandle.readline()
     bunch = Bunch()
     bad_event_counter = 0
-    while(len(bunch.__hits) < number_of_hits or number_of_hits < 0):
-      try:
-        hit = Hit.new_from_read_user(format_list, format_units_dict, filehandle)
-      except(EOFError):
-        break
-      except(BadEventError):
-        bad_event_counter += 1
-        continue
-      if test_function == None:
-        bunch.append(hit)
-      elif test_function(hit):
-        bunch.append(hit)
-    filehandle.close()
+    with filehandle:
+      for dummy in range(number_of_skip_lines):
+        filehandle.readline()
+      while(len(bunch.__hits) < number_of_hits or number_of_hits < 0):
+        try:
+          hit = Hit.new_from_read_user(format_list, format_units_dict, filehandle)
+        except(EOFError):
+          break
+        except(BadEventError):
+          bad_event_counter += 1
+          continue
+        if test_function == None:
+          bunch.append(hit)
+        elif test_function(hit):
+          bunch.append(hit)
     if bad_event_counter:
         print(f"Warning - failed to load {bad_event_counter} hits during load")
     return bunch
@@ -444,26 +443,30 @@ class Bunch:
     - list_of_maus_types = loads all specified types from the MAUS file
     """
     config.has_json()
-    json_file = open(file_name, 'r')
     hits = []
-    for maus_type in list_of_maus_types:
+    with open(file_name, 'r') as json_file:
+      for maus_type in list_of_maus_types:
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
                 hits.append(fac.make_hit())
             except BadEventError:
                 break
-    json_file.close()
     return hits
   read_maus_json_file = staticmethod(read_maus_json_file)
 
   def setup_file(file_format_type_string, file_name):
     """Returns a file handle with special phrases and characters stripped. Returned file_handle contains only hit data"""
-    filehandle = open(file_name, 'r')
     if not file_format_type_string in Hit.file_types():
       raise KeyError('Could not find filetype '+file_format_type_string+' - Options are '+str(Hit.file_types()))
-    for dummy in range(Bunch.__number_of_header_lines[file_format_type_string]):
-      filehandle.readline()
+    number_of_header_lines = Bunch.__number_of_header_lines[file_format_type_string]
+    filehandle = open(file_name, 'r')
+    try:
+      for dummy in range(number_of_header_lines):
+        filehandle.readline()
+    except Exception:
+      filehandle.close()
+      raise
     if file_format_type_string == 'g4beamline_bl_track_file' or file_format_type_string == 'g4beamline_bl_track_file_2':
       open_file  = filehandle
       filehandle = io.StringIO()
@@ -476,7 +479,8 @@ class Bunch:
           else: filehandle.write(line)
           line = open_file.readline()
       except IOError: pass
-      open_file.close()
+      finally:
+        open_file.close()
       filehandle.seek(0)
     return filehandle
   setup_file = staticmethod(setup_file)
-- 
2.43.0


From d8d9cc989cdb8370ce75e40a2e3ff52231b10554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 30/78] fix: read_maus_json_file reads the file from the start
 for every type of hit

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 421cec1..12d2690 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -446,6 +446,7 @@ class Bunch:
     hits = []
     with open(file_name, 'r') as json_file:
       for maus_type in list_of_maus_types:
+        json_file.seek(0)
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
-- 
2.43.0


From 895fb9975592587dc29245f7d04cae0a6671abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 31/78] fix: number_of_hits counts the selected hits of all
 files for MAUS formats too

---
 xboa/bunch/_bunch.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 12d2690..e161068 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -298,7 +298,7 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_root_file(
                                           file_name,
-                                          number_of_hits,
+                                          max(number_of_hits-len(hit_list), 0) if number_of_hits >= 0 else number_of_hits,
                                           list_of_maus_types=[file_type_string],
                                           test_function=test_function
                                   )
@@ -309,10 +309,10 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_json_file(
                                           file_name,
-                                          number_of_hits,
-                                          list_of_maus_types=[file_type_string]
+                                          max(number_of_hits-len(hit_list), 0) if number_of_hits >= 0 else number_of_hits,
+                                          list_of_maus_types=[file_type_string],
+                                          test_function=test_function
                                   )
-      hit_list = [hit for hit in hit_list if test_function == None or test_function(hit)]
       return Bunch.new_from_hits(hit_list)
     bunch = Bunch()
     bad_event_counter = 0
@@ -435,12 +435,14 @@ class Bunch:
   def read_maus_json_file(file_name, number_of_hits=-1,
                           list_of_maus_types=['maus_json_virtual_hit',
                                               'maus_json_primary',
-                                              'maus_json_special_virtual_hit']):
+                                              'maus_json_special_virtual_hit'],
+                          test_function=None):
     """
     Initialise a bunch from a MAUS file.
 
     - file_name      = string that defines the file_name to be used
     - list_of_maus_types = loads all specified types from the MAUS file
+    - test_function = return hits for which test_function(hit) == True
     """
     config.has_json()
     hits = []
@@ -450,9 +452,11 @@ class Bunch:
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
-                hits.append(fac.make_hit())
+                hit = fac.make_hit()
             except BadEventError:
                 break
+            if test_function == None or test_function(hit):
+                hits.append(hit)
     return hits
   read_maus_json_file = staticmethod(read_maus_json_file)
 
-- 
2.43.0


From 14a57c1d6c92994d8f4a7a5fcd02e8abefb51550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 32/78] fix: read_maus_root_file returns the hits it has read,
 and closes the file, when a branch is missing

---
 xboa/bunch/_bunch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e161068..ea6496f 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -411,10 +411,10 @@ class Bunch:
     if list_of_maus_types == None:
         list_of_maus_types = MausRootHitFactory.file_types() +\
                              MausRootReconHitFactory.file_types()
+    hits = []
+    root_file = ROOT.TFile(file_name, "READ")
     try:
-        root_file = ROOT.TFile(file_name, "READ")
         root_tree = root_file.Get("Spill")
-        hits = []
         for maus_type in list_of_maus_types:
             if maus_type in MausRootHitFactory.file_types():
                 fac = MausRootHitFactory(root_tree, maus_type, 0, test_function)
@@ -425,10 +425,11 @@ class Bunch:
                     hits.append(fac.make_hit())
                 except BadEventError:
                     break
-        root_file.Close()
     except AttributeError:
         sys.excepthook(*sys.exc_info())
         print("Failed while reading events from file", file_name)
+    finally:
+        root_file.Close()
     return hits
   read_maus_root_file = staticmethod(read_maus_root_file)
 
-- 
2.43.0


From d8e0bfb492d45ae224117b6d2d4429f589cd1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 33/78] fix: global weights are looked up by (spill, event,
 particle) from a Hitcore, as WeightContext does

---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..9a60e16 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -436,12 +436,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     weightContext->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = weightContext->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From f73f93476d086551953a236ea3e82eb5320e0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 34/78] fix: WeightContext.set_weight and get_weight take the
 arguments they name and no uninitialised ones

---
 xboa/core/pylib/PyWeightContext.cc | 34 ++++++++++++++----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..b9dbc67 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -40,12 +40,6 @@ std::string get_default_weight_docstring =
 std::string("\n");
 
 
-// A whole world of pain to make a non-const c-string. There must be an easier way!
-char* cstring(std::string word) {
-    char* dest = const_cast<char*>(word.data());
-    return dest;
-}
-
 typedef WeightContext::HitId HitId;
 
 PyObject* getDefaultWeight(PyObject* self, PyObject *args, PyObject *kwds) {
@@ -82,14 +76,16 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    double weight;
-    int spill, event, particle;
-    std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
-        cstring("eventNumber"), cstring("particleNumber"), NULL
+    double weight = 0.;
+    int spill = 0, event = 0, particle = 0;
+    static char* c_argnames[] = {
+        const_cast<char*>("weight"), const_cast<char*>("spill"),
+        const_cast<char*>("event_number"), const_cast<char*>("particle_number"),
+        const_cast<char*>("eventNumber"), const_cast<char*>("particleNumber"),
+        NULL
     };
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
-               &c_argnames[0],
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "d|iiiii",
+               c_argnames,
                &weight, &spill, &event, &particle, &event, &particle);
     if(err == 0) {
         PyErr_SetString(PyExc_KeyError,
@@ -108,14 +104,16 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    int spill, event, particle;
-    std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
-        cstring("eventNumber"), cstring("particleNumber"), NULL
+    int spill = 0, event = 0, particle = 0;
+    static char* c_argnames[] = {
+        const_cast<char*>("spill"),
+        const_cast<char*>("event_number"), const_cast<char*>("particle_number"),
+        const_cast<char*>("eventNumber"), const_cast<char*>("particleNumber"),
+        NULL
     };
 
     int err = PyArg_ParseTupleAndKeywords(args, kwds, "|iiiii",
-               &c_argnames[0],
+               c_argnames,
                &spill, &event, &particle, &event, &particle);
     if(err == 0) {
         PyErr_SetString(PyExc_KeyError,
-- 
2.43.0


From f2d669bf5df7543cc67cd12f666f03cc0e8f2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 35/78] fix: WeightContext arithmetic releases its converted
 operands and reports conversion errors

---
 xboa/core/pylib/PyWeightContext.cc | 36 +++++++++++++-----------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index b9dbc67..03580ab 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -190,18 +190,19 @@ void _free(PyWeightContext * self) {
     }
 }
 
-int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
-    *f1 = PyNumber_Float(o1);
-    *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
-    if (*f1 == nullptr) {
-        PyErr_Clear();
-        if (!C_API::is_PyWeightContext(o1)) {
-            PyErr_SetString(PyExc_NotImplementedError, "Not able to add these object types");
-            return 0;
-        }
-    } else {
-        *pywc1 = nullptr; // it's a float after all
+int parseArg(PyObject* o1, double* d1, PyWeightContext** pywc1) {
+    if (C_API::is_PyWeightContext(o1)) {
+        *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
+        return 1;
     }
+    *pywc1 = nullptr; // it should be a float after all
+    PyObject* f1 = PyNumber_Float(o1);
+    if (f1 == nullptr) {
+        PyErr_SetString(PyExc_NotImplementedError, "Not able to add these object types");
+        return 0;
+    }
+    *d1 = PyFloat_AsDouble(f1);
+    Py_DECREF(f1);
     return 1;
 }
 
@@ -222,12 +223,12 @@ PyObject *unary_operator(PyObject *o1) {
 
 template <class BinaryOperator>
 PyObject *binary_operator(PyObject *o1, PyObject *o2) {
-    PyObject *f1, *f2;
+    double d1 = 0., d2 = 0.;
     PyWeightContext *pywc1, *pywc2;
-    if (parseArg(o1, &f1, &pywc1) == 0) {
+    if (parseArg(o1, &d1, &pywc1) == 0) {
         return nullptr;
     }
-    if (parseArg(o2, &f2, &pywc2) == 0) {
+    if (parseArg(o2, &d2, &pywc2) == 0) {
         return nullptr;
     }
 
@@ -242,7 +243,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     if (pywc1 != nullptr) {
         WeightContext* wc1 = pywc1->cppcontext_.get();
         if (pywc2 == nullptr) {
-            double d2 = PyFloat_AsDouble(f2);
             wc3 = op.operate(*wc1, d2);
         } else {
             WeightContext* wc2 = pywc2->cppcontext_.get();
@@ -251,7 +251,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     } else {
         WeightContext* wc2 = pywc2->cppcontext_.get();
         if (pywc1 == nullptr) {
-            double d1 = PyFloat_AsDouble(f1);
             try {
                 wc3 = op.operate(d1, *wc2);
             } catch (...) {
@@ -349,10 +348,7 @@ PyWeightContext* C_API::create_empty_weightcontext() {
 }
 
 bool C_API::is_PyWeightContext(PyObject* obj) {
-     if (PyObject_IsInstance(obj, (PyObject*)&PyWeightContextType)) {
-        return true;
-    }
-    return false;
+    return obj != NULL && PyObject_TypeCheck(obj, &PyWeightContextType);
 }
 
 /** NOTE this is the reference counting for the smart pointers */
-- 
2.43.0


From 636d91b3f458f2f4e843edc56a1e9b5bbb272bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 36/78] fix: Hitcore.set leaves the hit alone and raises when
 the value cannot be converted

---
 xboa/core/pylib/PyHitcore.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..7883c8f 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <string>
 
+#include <limits.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -95,20 +96,29 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
     PyObject* py_value;
     if(PyArg_ParseTuple(args, "sO", &variable_name_c_str, &py_value) == 0) {
         PyErr_SetString(PyExc_KeyError,
-                "Failed to parse variable as a string in function Hitcore.get");
+                "Failed to parse variable as a string in function Hitcore.set");
         return NULL;
     }
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (PyErr_Occurred() != NULL)
+        return NULL; // not a number
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
+    long value_long = PyLong_AsLong(py_value);
+    if (PyErr_Occurred() != NULL)
+        return NULL; // not an integer
+    if (value_long > INT_MAX || value_long < INT_MIN) {
+        PyErr_SetString(PyExc_OverflowError, "Value out of range in Hitcore.set");
+        return NULL;
+    }
+    int value_int = static_cast<int>(value_long);
     if (hc->hitcore_->set_int(variable_name, value_int))
         Py_RETURN_NONE; // success, return None
 
-    PyErr_SetString(PyExc_KeyError, "Did not recognise variable in Hitcore.get");
+    PyErr_SetString(PyExc_KeyError, "Did not recognise variable in Hitcore.set");
     return NULL;
 }
 
-- 
2.43.0


From d93f19470f5aa2b3be5bb030a3e0d82696f3d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 37/78] fix: C++ to Python conversions hand over one reference
 and release on failure

---
 xboa/core/pylib/PyBunchcore.cc         |  4 +---
 xboa/core/utils/TypeConversions-inl.hh | 30 +++++++++++++++++---------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..1d56a55 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -242,9 +242,7 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
     }
 
     // return
-    PyObject* py_moment = PyFloat_FromDouble(moment);
-    Py_INCREF(py_moment);
-    return py_moment;
+    return PyFloat_FromDouble(moment);
 }
 
 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..c108292 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -43,6 +43,7 @@ bool PyCppStringConverter::convert(PyObject* py_string,
         PyObject* bytes = PyUnicode_AsASCIIString(py_string);
         if (bytes) {
             *cpp_string = std::string(PyBytes_AsString(bytes));
+            Py_DECREF(bytes);
             return true;
         }
     }
@@ -129,18 +130,20 @@ bool CppPyMapToDictConverter<KEY, VALUE>::convert(
         return false;
     }
     *py_dict = PyDict_New();
-    if (!py_dict) {
+    if (*py_dict == NULL) {
         PyErr_SetString(PyExc_RuntimeError, "Failed to allocate dict");
         return false;
     }
-    Py_INCREF(*py_dict);
     typename std::map<KEY, VALUE>::const_iterator it;
     for (it = std_map->begin(); it != std_map->end(); ++it) {
-        PyObject *py_key, *py_value;
-        if (key_c_->convert(&it->first, &py_key) &&
-            value_c_->convert(&it->second, &py_value)) {
-            PyDict_SetItem(*py_dict, py_key, py_value);
-        } else {
+        PyObject *py_key = NULL, *py_value = NULL;
+        bool ok = key_c_->convert(&it->first, &py_key) &&
+                  value_c_->convert(&it->second, &py_value) &&
+                  PyDict_SetItem(*py_dict, py_key, py_value) == 0;
+        Py_XDECREF(py_key);
+        Py_XDECREF(py_value);
+        if (!ok) {
+            Py_CLEAR(*py_dict);
             return false;
         }
     }
@@ -171,14 +174,21 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
     }
 
     *py_list = PyList_New(0);
-    Py_INCREF(*py_list);
+    if (*py_list == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "Failed to allocate list");
+        return false;
+    }
     for (size_t i = 0; i < std_vector->size(); ++i) {
         ELEMENT element = std_vector->at(i);
-        PyObject* py_element;
+        PyObject* py_element = NULL;
         if (!converter_->convert(&element, &py_element)) {
+            Py_CLEAR(*py_list);
             return false;
         }
-        if (PyList_Append(*py_list, py_element) != 0) {
+        int append_failed = PyList_Append(*py_list, py_element);
+        Py_DECREF(py_element);
+        if (append_failed != 0) {
+            Py_CLEAR(*py_list);
             PyErr_SetString(PyExc_RuntimeError,
                             "Failed to append element");
             return false;
-- 
2.43.0


From 5e99098c6f0fed51fff3dc078423018510f37a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 38/78] fix: a list or index that cannot be converted is an
 error in the Bunchcore functions

---
 xboa/core/pylib/PyBunchcore.cc         | 11 +++++++----
 xboa/core/pylib/PyHitcore.cc           |  3 ++-
 xboa/core/utils/TypeConversions-inl.hh |  8 ++++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 1d56a55..ec804f6 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -385,7 +385,8 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
     PyCppStringConverter str_conv;
     PyCppListToVectorConverter<std::string> list_conv(&str_conv);
     std::vector<std::string> axes;
-    list_conv.convert(py_axes, &axes);
+    if (!list_conv.convert(py_axes, &axes))
+        return NULL;
     std::vector<std::vector<size_t> > index_by_power;
     std::vector<double> moments;
     bool ok = bc->get_moment_tensor(axes, max_power, &moments, &index_by_power);
@@ -395,8 +396,9 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
     }
     CppPyDoubleConverter double_converter;
     CppPyVectorToListConverter<double> vec_converter(&double_converter);
-    PyObject* py_list;
-    vec_converter.convert(&moments, &py_list);
+    PyObject* py_list = NULL;
+    if (!vec_converter.convert(&moments, &py_list))
+        return NULL;
     return py_list;
 }
 
@@ -436,7 +438,8 @@ PyObject* index_by_power(PyObject* self, PyObject *args, PyObject *kwds) {
     CppPyVectorToListConverter<std::vector<size_t> >
                                               vec_vec_converter(&vec_converter);
     PyObject* py_list = NULL;
-    vec_vec_converter.convert(&powers, &py_list);
+    if (!vec_vec_converter.convert(&powers, &py_list))
+        return NULL;
     return py_list;
 }
 
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 7883c8f..cc3a289 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -154,7 +154,8 @@ PyObject* dump_memory(PyObject* self, PyObject *args, PyObject *kwds) {
     const CppPyIntConverter<size_t> size_t_conv;
     CppPyMapToDictConverter<Hitcore*, size_t> map_conv(&hc_conv, &size_t_conv);
     PyObject* memory = NULL;
-    map_conv.convert(refs, &memory);
+    if (!map_conv.convert(refs, &memory))
+        return NULL;
     return memory;
 }
 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index c108292..da98612 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -74,12 +74,16 @@ bool PyCppListToVectorConverter<ELEMENT>::convert(
     }
 
     size_t size = PyList_Size(py_list);
-    *std_vector = std::vector<std::string>(size);
+    *std_vector = std::vector<ELEMENT>(size);
     for (size_t i = 0; i < size; ++i) {
         PyObject* item = PyList_GetItem(py_list, i); // borrowed reference
         if (item) {
             ELEMENT element;
-            converter_->convert(item, &element);
+            if (!converter_->convert(item, &element)) {
+                PyErr_SetString(PyExc_ValueError,
+                                "Failed to parse list element");
+                return false;
+            }
             // copies the string
             std_vector->at(i) = element;
         } else {
-- 
2.43.0


From 7ea03877d471228049f5f72ea86c246b282d9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 39/78] fix: out of range Bunchcore indices raise IndexError

---
 xboa/core/cpplib/Bunchcore.cc          | 2 +-
 xboa/core/pylib/PyBunchcore.cc         | 5 ++++-
 xboa/core/utils/TypeConversions-inl.hh | 7 ++++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..46471a5 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -35,7 +35,7 @@ void Bunchcore::set_item(size_t i, SmartPointer<Hitcore> hit) {
 
 bool Bunchcore::del_item(size_t i) {
     // can delete an existing hit_
-    if (i > hitcores_.size()) {
+    if (i >= hitcores_.size()) {
         return false;
     }
     hitcores_.erase(hitcores_.begin()+i);
diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ec804f6..4857455 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -169,7 +169,10 @@ PyObject* del_item(PyObject* self, PyObject *args, PyObject *kwds) {
     size_t index;
     if (!PyCppIndexConverter(bc->length()).convert(py_index, &index))
         return NULL;
-    bc->del_item(index);
+    if (!bc->del_item(index)) {
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return NULL;
+    }
     Py_RETURN_NONE;
 }
 std::string length_docstring = 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index da98612..c3b0040 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -24,8 +24,13 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         return false;
     }
     Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    if (py_index == -1 && PyErr_Occurred() != NULL) {
+        PyErr_SetString(PyExc_IndexError,
+                        "Index out of range");
+        return false;
+    }
     if (py_index < 0) {
-        *index = abs(py_index+1);
+        *index = -(py_index+1);
     } else {
         *index = py_index;
     }
-- 
2.43.0


From cb8d9292c9812af0184377e7427f9de65e27cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 40/78] fix: len(Bunchcore) gives the length, and the Bunchcore
 type has the size of its object

---
 xboa/core/pylib/PyBunchcore.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 4857455..7354633 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -463,8 +463,18 @@ static PyMethodDef Bunchcore_methods[] = {
     {NULL}
 };
 
+static Py_ssize_t sequence_length(PyObject* self) {
+    Bunchcore* bc = reinterpret_cast<PyBunchcore*>(self)->bunchcore_;
+    if (bc == NULL) { // not possible! (Haha)
+        PyErr_SetString(PyExc_TypeError,
+                        "Failed to interpret self as a Bunchcore");
+        return -1;
+    }
+    return bc->length();
+}
+
 static PySequenceMethods Bunchcore_as_seq = {
-    (lenfunc)length, //lenfunc PySequenceMethods.sq_length
+    sequence_length, //lenfunc PySequenceMethods.sq_length
     0, //binaryfunc PySequenceMethods.sq_concat
     0, //ssizeargfunc PySequenceMethods.sq_repeat
     0, //ssizeargfunc PySequenceMethods.sq_item
@@ -477,8 +487,8 @@ static PySequenceMethods Bunchcore_as_seq = {
 static PyTypeObject PyBunchcoreType = {
     PyObject_HEAD_INIT(NULL)
     "_bunchcore.Bunchcore",     /*tp_name*/
-    sizeof(Bunchcore),         /*tp_basicsize*/
-    sizeof(xboa::core::PyHitcore::PyHitcore),  /*tp_itemsize*/
+    sizeof(PyBunchcore),         /*tp_basicsize*/
+    0,  /*tp_itemsize*/
     (destructor)dealloc,     /*tp_dealloc*/
     0,                         /*tp_print*/
     0,                         /*tp_getattr*/
-- 
2.43.0


From e18e65e527632d59c89f92bb0548b6f5f920cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 41/78] fix: a comparator that fails or does not return a bool
 raises from cut_double without leaking

---
 xboa/core/pylib/PyBunchcore.cc      |  8 ++++++--
 xboa/core/utils/PythonComparator.hh | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 7354633..09c4765 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -338,7 +338,8 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
     if (PyArg_ParseTupleAndKeywords(args, kwds, "sOdO|", kwlist,
                       &cut_var_c_str, &py_comparator, &cut, &py_is_global) == 0)
         return NULL;
-    if (cut_var_c_str == NULL || py_comparator == NULL) {
+    if (cut_var_c_str == NULL || py_comparator == NULL ||
+        py_is_global == NULL) {
         PyErr_SetString(PyExc_TypeError,
                         "Missing mandatory arguments");
         return NULL;
@@ -349,7 +350,10 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     // convert to cpp
-    bool is_global = py_is_global == NULL || PyObject_IsTrue(py_is_global) == 1;
+    int global_flag = PyObject_IsTrue(py_is_global);
+    if (global_flag < 0)
+        return NULL;
+    bool is_global = global_flag == 1;
     std::string cut_variable(cut_var_c_str);
     utils::PythonComparator comp(py_comparator);
     // call bunchcore core function
diff --git a/xboa/core/utils/PythonComparator.hh b/xboa/core/utils/PythonComparator.hh
index 74b8f6a..a926be9 100644
--- a/xboa/core/utils/PythonComparator.hh
+++ b/xboa/core/utils/PythonComparator.hh
@@ -62,13 +62,21 @@ bool PythonComparator::compare(double variable, double cut_value) const {
     if (py_cmp_ == NULL)
         return false;
     PyObject *args = Py_BuildValue("dd", variable, cut_value);
+    if (args == NULL) {
+        throw std::logic_error("Failed to build comparator arguments");
+    }
     PyObject *ret_bool = PyObject_CallObject(py_cmp_, args);
-    if (ret_bool == NULL || !PyBool_Check(ret_bool)) {
+    Py_DECREF(args);
+    if (ret_bool == NULL) {
         throw std::logic_error("Failed to call python comparator");
     }
-    // I could check ret_bool using PyBool_Check I guess, and set a failflag in
-    // the class
-    return ret_bool == Py_True;
+    const bool is_bool = PyBool_Check(ret_bool);
+    const bool is_true = ret_bool == Py_True;
+    Py_DECREF(ret_bool);
+    if (!is_bool) {
+        throw std::logic_error("Python comparator did not return a bool");
+    }
+    return is_true;
 }
 
 }
-- 
2.43.0


From e56cc37bd4628322d72b0a454caea214fb83153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 42/78] fix: Bunchcore weights and cuts use the current weight
 context

---
 xboa/core/pylib/PyBunchcore.cc | 46 ++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 09c4765..5c7974e 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -34,6 +34,29 @@ namespace xboa {
 namespace core {
 namespace PyBunchcore {
 
+/** Take over the weight context that is current in the Hitcore module; each
+ *  .so file has its own Hitcore::weightContext.
+ *
+ *  Returns false and raises an exception on failure
+ */
+bool setWeightContext() {
+    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
+    if (hc_module == NULL)
+        return false;
+    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
+    Py_DECREF(hc_module);
+    if (hc_class == NULL)
+        return false;
+    PyObject* pyobj_wc = PyObject_CallMethod(hc_class, "get_weight_context", NULL);
+    Py_DECREF(hc_class);
+    if (pyobj_wc == NULL)
+        return false;
+    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
+    Hitcore::weightContext = pywc->cppcontext_;
+    Py_DECREF(pyobj_wc);
+    return true;
+}
+
 PyObject *alloc(PyTypeObject *type, Py_ssize_t nitems) {
     PyBunchcore* bc = new PyBunchcore();
     Py_SET_REFCNT(bc, 1);
@@ -238,6 +261,8 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
 
     // call moment calculation routine
+    if (!setWeightContext())
+        return NULL;
     double moment;
     if(!bc->get_moment(axes, means, &moment)) {
         PyErr_SetString(PyExc_ValueError, "Failed to calculate moment");
@@ -289,6 +314,8 @@ PyObject* covariance_matrix(PyObject* self, PyObject *args, PyObject *kwds) {
     if (!dict_conv.convert(py_means, &means))
         return NULL;
     // call matrix calculation routine
+    if (!setWeightContext())
+        return NULL;
     std::vector< std::vector<double> > matrix;
     if (!bc->covariance_matrix(axes, means, &matrix)) {
         PyErr_SetString(PyExc_ValueError,
@@ -357,6 +384,8 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
     std::string cut_variable(cut_var_c_str);
     utils::PythonComparator comp(py_comparator);
     // call bunchcore core function
+    if (!setWeightContext())
+        return NULL;
     bool is_okay = bc->cut_double(cut_variable, &comp, cut, is_global);
     if (!is_okay) {
         PyErr_SetString(PyExc_TypeError, "Failed to call cut_double");
@@ -396,6 +425,8 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     std::vector<std::vector<size_t> > index_by_power;
     std::vector<double> moments;
+    if (!setWeightContext())
+        return NULL;
     bool ok = bc->get_moment_tensor(axes, max_power, &moments, &index_by_power);
     if (!ok) {
         PyErr_SetString(PyExc_RuntimeError, "Failed during moment tensor call");
@@ -544,16 +575,6 @@ static struct PyModuleDef bunchcoredef = {
     NULL,                /* m_free */
 };
 
-void setWeightContext() {
-    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
-}
-
 
 PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyBunchcoreType.tp_new = PyType_GenericNew;
@@ -584,7 +605,10 @@ PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyDict_SetItemString(bc_dict, "C_API_CREATE_EMPTY_BUNCHCORE", ceb_c_api);
     PyDict_SetItemString(bc_dict, "C_API_GET_BUNCHCORE", gbc_c_api);
     PyDict_SetItemString(bc_dict, "C_API_SET_BUNCHCORE", sbc_c_api);
-    setWeightContext();
+    if (!setWeightContext()) {
+        Py_DECREF(module);
+        return NULL;
+    }
     return module;
 }
 
-- 
2.43.0


From 3beceb590302324684d5fbea74f28237292dfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 43/78] fix: a C API import that fails is an ImportError, not a
 crash

---
 xboa/core/pylib/PyBunchcore.cc     | 10 ++++++----
 xboa/core/pylib/PyHitcore.cc       | 22 +++++++++++++++++-----
 xboa/core/pylib/PyHitcore.hh       |  7 ++++---
 xboa/core/pylib/PyWeightContext.hh |  7 ++++++-
 4 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 5c7974e..fc36445 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -589,10 +589,12 @@ PyMODINIT_FUNC PyInit__bunchcore(void) {
     Py_INCREF(&PyBunchcoreType);
     PyModule_AddObject(module, "Bunchcore", (PyObject *)&PyBunchcoreType);
     // import pyhitcore C_API
-    PyHitcore::import_PyHitcore();
-    PyObject* py_obj_hc =  xboa::core::PyHitcore::create_empty_hitcore();
-    PyHitcore::PyHitcore* hc = reinterpret_cast<PyHitcore::PyHitcore*>(py_obj_hc); 
-    SmartPointer<Hitcore>::set_context(hc->hitcore_.get_context());
+    if (!PyHitcore::import_PyHitcore()) {
+        if (PyErr_Occurred() == NULL)
+            PyErr_SetString(PyExc_ImportError, "Failed to import the Hitcore C API");
+        Py_DECREF(module);
+        return NULL;
+    }
 
     // C API
     PyObject* bc_dict = PyModule_GetDict(module);
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index cc3a289..0ecb65b 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -332,15 +332,24 @@ static PyMethodDef _keywdarg_methods[] = {
 
 //std::map<WeightContext::HitId, double>* hitcore_global_weights_context =
 //                                         new std::map<WeightContext::HitId, double>();
-void setWeightContext() {
-    PyWeightContext::import_PyWeightContext();
+bool setWeightContext() {
+    if (!PyWeightContext::import_PyWeightContext())
+        return false;
     PyObject* wc_module = PyImport_ImportModule("xboa.core._weight_context");
+    if (wc_module == NULL)
+        return false;
     PyObject* wc_class = PyObject_GetAttrString(wc_module, "WeightContext");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(wc_class, empty_tuple); // init
+    Py_DECREF(wc_module);
+    if (wc_class == NULL)
+        return false;
+    PyObject* pyobj_wc = PyObject_CallObject(wc_class, NULL); // init
+    Py_DECREF(wc_class);
+    if (pyobj_wc == NULL)
+        return false;
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
     Hitcore::weightContext = pywc->cppcontext_;
     pyCurrentContext =  pywc;
+    return true;
 }
 
 
@@ -407,7 +416,10 @@ PyMODINIT_FUNC PyInit__hitcore(void) {
     PyDict_SetItemString(hc_dict, "C_API_SET_HITCORE", shc_c_api);
     PyDict_SetItemString(hc_dict, "C_API_CHECK", check_c_api);
     PyDict_SetItemString(hc_dict, "C_API_SMARTPOINTER_CONTEXT", spc_c_api);
-    setWeightContext();
+    if (!setWeightContext()) {
+        Py_DECREF(module);
+        return NULL;
+    }
     return module;
 }
 
diff --git a/xboa/core/pylib/PyHitcore.hh b/xboa/core/pylib/PyHitcore.hh
index f32aed5..58b5d91 100644
--- a/xboa/core/pylib/PyHitcore.hh
+++ b/xboa/core/pylib/PyHitcore.hh
@@ -197,6 +197,7 @@ int xboa::core::PyHitcore::import_PyHitcore() {
         return 0;
     }
     PyObject *hc_dict  = PyModule_GetDict(hc_module);
+    Py_DECREF(hc_module); // sys.modules keeps it
 
     // setup create_empty_hitcore function
     PyObject* ceh_c_api = PyDict_GetItemString(hc_dict,
@@ -227,13 +228,13 @@ int xboa::core::PyHitcore::import_PyHitcore() {
 
     std::map<Hitcore*, std::size_t>* spc =
                 reinterpret_cast< std::map<Hitcore*, std::size_t>*>(spc_void);
-    SmartPointer<Hitcore>::set_context(spc);
-
     if ((create_empty_hitcore == NULL) ||
         (set_hitcore == NULL) ||
         (check == NULL) ||
-        (get_hitcore == NULL))
+        (get_hitcore == NULL) ||
+        (spc == NULL))
         return 0;
+    SmartPointer<Hitcore>::set_context(spc);
     Hitcore::initialise_string_to_accessor_maps();
     Hitcore::initialise_string_to_mutator_maps();
 
diff --git a/xboa/core/pylib/PyWeightContext.hh b/xboa/core/pylib/PyWeightContext.hh
index 869f990..e7288e0 100644
--- a/xboa/core/pylib/PyWeightContext.hh
+++ b/xboa/core/pylib/PyWeightContext.hh
@@ -48,6 +48,7 @@ int import_PyWeightContext() {
         return 0;
     }
     PyObject *wc_dict  = PyModule_GetDict(wc_module);
+    Py_DECREF(wc_module); // sys.modules keeps it
 
     // setup create_empty_hitcore function
     PyObject* cewc_c_api = PyDict_GetItemString(wc_dict,
@@ -61,7 +62,11 @@ int import_PyWeightContext() {
 
     is_PyWeightContext = reinterpret_cast<bool (*)(PyObject*)>(ispwc_void);
 
-    delete create_empty_weightcontext();
+    if (create_empty_weightcontext == NULL || is_PyWeightContext == NULL) {
+        if (PyErr_Occurred() == NULL)
+            PyErr_SetString(PyExc_ImportError, "Failed to import the WeightContext C API");
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 7c45b1918b9930020ac5bfb77e6d7f0e7e4f7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 44/78] fix: a hit takes its global weight after its spill,
 event and particle number, so that copying does not change (0, 0, 0)

---
 xboa/hit/_hit.py                       | 14 ++++++++++----
 xboa/hit/factory/_line_factory_base.py |  6 +++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index b689399..e8bb123 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -145,8 +145,7 @@ class Hit(object):
     e.g. myHit = Hit.new_from_dict({'x':5, 'y':0, 'z':100, 'px':0, 'py':5, 'pz':200, 'pid':-13}, 'energy' )
     """
     my_hit = Hit()
-    for k,v in set_dict.items():
-      my_hit.set(k, v)
+    my_hit.__set_from_dict(set_dict)
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
     return my_hit
@@ -708,8 +707,15 @@ class Hit(object):
     Sets self to be equal to new_from_dict(state)
     """
     self.__init__()
-    for k,v in state.items():
-      self.set(k, v)
+    self.__set_from_dict(state)
+
+  # global_weight is stored by spill, event and particle number, so set it last
+  def __set_from_dict(self, set_dict):
+    for k,v in set_dict.items():
+      if k != 'global_weight':
+        self.set(k, v)
+    if 'global_weight' in set_dict:
+      self.set('global_weight', set_dict['global_weight'])
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 5c507c9..31757d9 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -52,7 +52,7 @@ class LineFactoryBase(HitFactoryBase):
         words.reverse()
         if not(len(words) == len(format_list)): 
             raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
-        a_hit = xboa.hit.Hit()
+        values = {}
         for key in format_list:
             value = words.pop()
             if key != '':
@@ -65,6 +65,6 @@ class LineFactoryBase(HitFactoryBase):
                     value = xboa.hit.Hit._default_var_types[key](value)
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
-                a_hit.set(key, value)
-        return a_hit
+                values[key] = value
+        return xboa.hit.Hit.new_from_dict(values)
 
-- 
2.43.0


From 05e07bf0c9af50e5b60a65d275892590e3dbbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 45/78] fix: particle tables: charges of light nuclei, the
 antiparticles and MARS particle 37 are there

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..3bef7f0 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -79,16 +79,16 @@ for k,v in icool_pid_to_pdg.items():
 #* 22  23  24 25  26  27   28   29   30   31   32   33   34  35   36   37   38    39    40
 #* K0L K0S K0 AK0 LAM ALAM SIG+ SIG0 SIG- nbar KSI0 KSI- OM- sib- si0b sib+ AKSI0 ksib+ omb+
 
-mars_pid_to_pdg  = {1:2212, 2:2112, 3:211, 4:-211, 5:321, 6:-321, 7:-13, 8:13, 9:22, 10:11, 11:-11, 12:-2212, 13:111, 14:1000010020, 15:1000010030, 16:1000020030, 17:1000020040, 18:14, 19:-14, 20:12, 21:-12, 22:130, 23:310, 24:311, 25:-311,26:3122,27:-3122,28:0,29:0,30:0,31:-2112,32:0,33:0,34:0,35:0,36:0,38:0,39:0,40:0};
+mars_pid_to_pdg  = {1:2212, 2:2112, 3:211, 4:-211, 5:321, 6:-321, 7:-13, 8:13, 9:22, 10:11, 11:-11, 12:-2212, 13:111, 14:1000010020, 15:1000010030, 16:1000020030, 17:1000020040, 18:14, 19:-14, 20:12, 21:-12, 22:130, 23:310, 24:311, 25:-311,26:3122,27:-3122,28:0,29:0,30:0,31:-2112,32:0,33:0,34:0,35:0,36:0, 37:0, 38:0,39:0,40:0};
 pdg_pid_to_mars  = {}
 for k,v in mars_pid_to_pdg.items():
   pdg_pid_to_mars[v] = k;
 
 pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 111:134.9766, 211:139.57018, 321:493.667, 2112:939.56536, 2212:938.271996, 1000010020:1876.1239, 1000010030:2809.432, 1000020030:2809.41346, 1000020040: 3728.4001, 130:497.614, 310:497.614, 311:497.614, 3122:1115.683}
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
--11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
+-11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -311:'antiK0', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:0, 1000010030:0, 1000020030:0, 1000020040:0, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -311:0, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From 0299f9d8027d941387caad63d259ea540b053b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 46/78] fix: min_max leaves the caller's list alone and ignores
 weights of another length

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 3bef7f0..83c8606 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -264,9 +264,9 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   new_floats = x_float_list
   if len(weight_list) == len(x_float_list):
     new_floats =  []
-  for ind in range(len(weight_list)):
-    if weight_list[ind] > 1e-6:
-      new_floats.append(x_float_list[ind]) 
+    for ind in range(len(weight_list)):
+      if weight_list[ind] > 1e-6:
+        new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
   delta = (x[1]-x[0])*margin
-- 
2.43.0


From f43401adcc1cd92b9092ab05030322da1b41e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 47/78] fix: histogram and fit_ellipse accept arrays of weights

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 83c8606..9a4835d 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -333,9 +333,9 @@ def histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None):
   """
   config.has_numpy()
   is_1d    = False
-  if weights == None:
+  if weights is None:
     weights = [1.]*len(x_values)
-  if y_values == None:
+  if y_values is None:
     is_1d    = True
     y_values = [0.]*len(x_values)
     y_bins   = [-1.,1.]
@@ -1010,7 +1010,7 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
     old_det = 1.
     mean, cov = numpy.ones([2]), numpy.ones([2, 2])
     in_cut = [True for i in range(n_points)]
-    if weights == None:
+    if weights is None:
         weights = [1.,]*n_points
     iterations = 0
     try:
-- 
2.43.0


From b0a824f95ce6c5d65e103b992250ff7e30849e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 48/78] fix: fit_ellipse normalises its cut for the dimension
 of the points

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 9a4835d..f01e404 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -975,7 +975,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From 50a7d547375f39462183cf9dd7dccaaee196bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 49/78] fix: substitute closes its files when it fails

---
 xboa/common/_common.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index f01e404..f2d1231 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -146,14 +146,11 @@ def substitute(file_name_in, file_name_out, switch_dict):
 
   e.g. common.substitute('file.in', 'file.out', {'energy':'momentum'})
   """
-  fin  = open(file_name_in,  'r')
-  fout = open(file_name_out, 'w')
-  for line in fin:
-    for key, value in switch_dict.items():
-      line = line.replace(str(key), str(value))
-    fout.write(line)
-  fin.close()
-  fout.close()
+  with open(file_name_in,  'r') as fin, open(file_name_out, 'w') as fout:
+    for line in fin:
+      for key, value in switch_dict.items():
+        line = line.replace(str(key), str(value))
+      fout.write(line)
 
 wrapped_y_function = None
 def __y_function_wrapper(x_list_of_lists):
-- 
2.43.0


From 1d93bbfd5dd16a280b29756d6035dcacfd805e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 50/78] fix: process_list ends its worker processes when it
 fails

---
 xboa/common/_common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index f2d1231..e08269e 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -929,14 +929,14 @@ def process_list(function_call, list_of_args, max_n_processes):
   """
   manager = multiprocessing.Manager()
   queue = manager.Queue() # queue stores return values
-  pool = multiprocessing.Pool(max_n_processes) # pool runs multiprocess
   # each process needs:
   #    reference to queue to put returns values in
   #    index (to sort return values)
   #    plus function call and argument
   new_list_of_args = [(function_call, queue, x, i) for i,x in enumerate(list_of_args)]
   # run the processes
-  pool.map(__function_with_queue, new_list_of_args)
+  with multiprocessing.Pool(max_n_processes) as pool:
+    pool.map(__function_with_queue, new_list_of_args)
   # sort output into a list
   out_list = []
   while not queue.empty():
@@ -944,8 +944,6 @@ def process_list(function_call, list_of_args, max_n_processes):
   out_list.sort()
   for i,item in enumerate(out_list):
     out_list[i] = item[1]
-  # cleanup
-  pool.close()
   return out_list
 
 def _sum_weight(weights, in_cut):
-- 
2.43.0


From 8bb87ffa8c1cea7c7abfaaf074e5b4c83b0e38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 51/78] fix: clear_root forgets the graphs

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index e08269e..0a545af 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -744,7 +744,7 @@ def clear_root():
   for graph in _graph_persistent:  del(graph)
   _canvas_persistent = []
   _hist_persistent = []
-  _canvas_persistent = []
+  _graph_persistent = []
 
 def wait_for_matplot():
   """Show any plots made using matplotlib on the screen"""
-- 
2.43.0


From e76eda9a58f99f2ae92326313a6967455231bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 52/78] fix: plotting graphs leaves the caller's lists alone
 and honours sort

---
 xboa/common/_common.py            | 8 ++++----
 xboa/common/matplotlib_wrapper.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 0a545af..73799da 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -623,11 +623,11 @@ def make_matplot_graph(x_float_list, x_axis_string, y_float_list, y_axis_string,
   pyplot.figure(figure_index)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
-  multilist = [x_float_list, y_float_list]
-  multisort(multilist)
+  multilist = [list(x_float_list), list(y_float_list)]
+  if sort: multisort(multilist)
   x_min_max = min_max(multilist[0], margin=rg.graph_margin)
   y_min_max = min_max(multilist[1], margin=rg.graph_margin)
-  myplot = pyplot.plot(x_float_list, y_float_list)
+  myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
   pyplot.ylabel(y_axis_string)
   pyplot.xlim  (x_min_max[0], x_min_max[1])
@@ -689,7 +689,7 @@ def make_matplot_multigraph(x_float_list_of_lists, x_axis_string, y_float_list_o
   x_min_max = min_max(total_x_list, margin=rg.graph_margin)
   y_min_max = min_max(total_y_list, margin=rg.graph_margin)
   for index in range( len(x_float_list_of_lists) ):
-    multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+    multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
     multisort(multilist)
     myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index df4bf0c..135d1e4 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -108,12 +108,12 @@ def make_graph(x_float_list, x_axis_string,
               (len(x_float_list), len(y_float_list))
         msg += "They should be the same length, with at least 1 element."
         raise IndexError(msg)
-    multilist = [x_float_list, y_float_list]
+    multilist = [list(x_float_list), list(y_float_list)]
     if sort:
         xboa.common.multisort(multilist)
     x_min_max = xboa.common.min_max(multilist[0])
     y_min_max = xboa.common.min_max(multilist[1])
-    myplot = pyplot.plot(x_float_list, y_float_list, **kwds)
+    myplot = pyplot.plot(multilist[0], multilist[1], **kwds)
     pyplot.xlabel(x_axis_string)
     pyplot.ylabel(y_axis_string)
     pyplot.xlim  (x_min_max[0], x_min_max[1])
@@ -156,7 +156,7 @@ def make_multigraph(x_float_list_of_lists, x_axis_string,
     for index in range( len(x_float_list_of_lists) ):
         if index < len(kwds):
             kwd_args = kwds[index]
-        multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+        multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
         xboa.common.multisort(multilist)
         myplot = pyplot.plot(multilist[0], multilist[1], **kwd_args)
     pyplot.xlabel(x_axis_string)
-- 
2.43.0


From 0a57344fa68cf0079aeb33e56d62be2ae0dc3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 53/78] fix: make_multigraph and wait_for_matplot run

---
 xboa/common/matplotlib_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index 135d1e4..a28dbc6 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -151,9 +151,10 @@ def make_multigraph(x_float_list_of_lists, x_axis_string,
     for a_list in x_float_list_of_lists:
         total_x_list += a_list
     for a_list in y_float_list_of_lists:  total_y_list += a_list
-    x_min_max = min_max(total_x_list, margin=rg.graph_margin)
-    y_min_max = min_max(total_y_list, margin=rg.graph_margin)
+    x_min_max = xboa.common.min_max(total_x_list, margin=xboa.common.rg.graph_margin)
+    y_min_max = xboa.common.min_max(total_y_list, margin=xboa.common.rg.graph_margin)
     for index in range( len(x_float_list_of_lists) ):
+        kwd_args = {}
         if index < len(kwds):
             kwd_args = kwds[index]
         multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
@@ -248,7 +249,7 @@ def wait_for_matplot(block=False):
              to continue running python
     """
     xboa.common.config.has_matplot()
-    matplotlib.pyplot.show(block)
+    matplotlib.pyplot.show(block=block)
 
 def get_figure_index(fig_index = None):
     """Get a unique figure index or return fig_index if != None"""
-- 
2.43.0


From be243c441f0c44f7c5f8df1463e20573a0b78d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 54/78] fix: matplotlib histograms of empty data or of weighted
 data in two dimensions

---
 xboa/common/_common.py            | 4 ++--
 xboa/common/matplotlib_wrapper.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 73799da..a60bef1 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -545,8 +545,8 @@ def make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[
     new_bins  = []
     new_n     = []
     index     = 0
-    while(abs(n[index])<1.e-9 and index < len(n)): index += 1
-    for i in range(index, len(n)-1):
+    while(index < len(n) and abs(n[index])<1.e-9): index += 1
+    for i in range(index, len(n)):
       new_bins.append((my_bins[i] + my_bins[i+1])/2.)
       new_n.append(n[i])
     hist = pyplot.plot(new_bins, new_n)
diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index a28dbc6..5c58495 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -60,9 +60,9 @@ def make_histogram(x_float_list, x_axis_string, n_x_bins,
         new_bins  = []
         new_n     = []
         index     = 0
-        while(abs(n[index])<1.e-9 and index < len(n)):
+        while(index < len(n) and abs(n[index])<1.e-9):
             index += 1
-        for i in range(index, len(n)-1):
+        for i in range(index, len(n)):
             new_bins.append((my_bins[i] + my_bins[i+1])/2.)
             new_n.append(n[i])
         hist = pyplot.plot(new_bins, new_n)
-- 
2.43.0


From e5cbc88f4645a4cfb95c16308db95216df078f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 55/78] fix: the y axis of a matplotlib scatter plot has its
 own label

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index a60bef1..7d8e223 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -717,7 +717,7 @@ def make_matplot_scatter(x_float_list, x_axis_string, y_float_list, y_axis_strin
     raise IndexError('Attempt to draw histogram with no x-points')
   hist = pyplot.scatter(x_float_list, y_float_list, s=1)
   pyplot.xlabel(x_axis_string)
-  pyplot.ylabel(x_axis_string)
+  pyplot.ylabel(y_axis_string)
   return hist
 
 def wait_for_root():
-- 
2.43.0


From 11886e51deb36f32d18b0b4cce5d84912c0d5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 56/78] fix: HullContent runs, orders its content by
 region_list and ends its worker processes

---
 xboa/bunch/weighting/_hull_content.py | 31 +++++++++++----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 392ac42..6131887 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -18,6 +18,7 @@
 HullContent class should be imported directly from xboa.bunch.weighting
 """
 
+import math
 import multiprocessing
 import signal
 import os
@@ -27,7 +28,7 @@ try:
 except ImportError:
     pass
 try:
-    import scipy
+    import scipy.spatial
 except ImportError:
     pass
 
@@ -49,30 +50,24 @@ class HullContent(object):
         """
         config.has_numpy()
         config.has_scipy()
-        try:
-            self.tesselation = tesselation
-            self.region_list = region_list
-            self.pool = multiprocessing.Pool(n_procs, _init_worker)
-            self.tile_content_list = None
-            self.recalculate()
-        except:
-            self.pool.terminate()
-            raise
-      
+        self.tesselation = tesselation
+        self.region_list = region_list
+        self.n_procs = n_procs
+        self.tile_content_list = None
+        self.recalculate()
 
     def recalculate(self):
         """
         Recalculate the tile content list
         """
         job_list = [None]*len(self.region_list)
-        for i in self.region_list:
-            tile_index = self.tesselation.point_region[i]
-            region = self.tesselation.regions[tile_index]
+        for job_index, i in enumerate(self.region_list):
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             points = numpy.array([self.tesselation.vertices[j] for j in region])
-            job_list[i] = (region, points)
-        self.tile_content_list = self.pool.map(_tile_content, job_list)
+            job_list[job_index] = (region, points)
+        with multiprocessing.Pool(self.n_procs, _init_worker) as pool:
+            self.tile_content_list = pool.map(_tile_content, job_list)
 
 def _init_worker():
     pass
@@ -88,7 +83,7 @@ def _get_cm_matrix(simplex, triangulation, dimension):
             point_i = triangulation.points[vertex_i]
             point_j = triangulation.points[vertex_j]
             square = [(point_i[d] - point_j[d])**2 \
-                                             for d in xrange(dimension)]
+                                             for d in range(dimension)]
             length_sq = sum(square)
             elements[i+1, j+1] = length_sq
             elements[j+1, i+1] = length_sq
@@ -109,7 +104,7 @@ def _tile_content(args):
         content = 0.
         triangulation = scipy.spatial.Delaunay(points)
         coefficient = (-1)**(dimension+1)/2.**dimension
-        coefficient /= numpy.math.factorial(dimension)**2.
+        coefficient /= math.factorial(dimension)**2.
         for simplex in triangulation.simplices:
             elements = _get_cm_matrix(simplex, triangulation, dimension)
             det = numpy.linalg.det(elements)
-- 
2.43.0


From f1c22616826113600120193434e5fbc8789e7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 57/78] fix: VoronoiWeighting accepts a mean and builds its
 points on Python 3

---
 xboa/bunch/weighting/_voronoi_weighting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index ee23c01..27f942b 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -99,7 +99,7 @@ class VoronoiWeighting(object):
         config.has_numpy()
         config.has_scipy()
         self.dim = len(weight_variables)
-        if weight_mean == None:
+        if weight_mean is None:
             weight_mean = numpy.array([0.]*self.dim)
         if (self.dim,) != numpy.shape(weight_mean):
             raise ValueError("weight_mean shape "+\
@@ -144,7 +144,7 @@ class VoronoiWeighting(object):
         Returns None (the bunch is weighted "in-place")
         """
         self.real_points = bunch.list_get_hit_variable(self.weight_variables)
-        self.real_points = zip(*tuple(self.real_points))
+        self.real_points = list(zip(*tuple(self.real_points)))
         self.real_points = numpy.array(self.real_points)
         if self.voronoi_bound != None:
             self.real_points, not_cut = \
@@ -219,7 +219,7 @@ class VoronoiWeighting(object):
            projection_axes[1] not in self.weight_variables:
             raise ValueError("Projection axes "+str(projection_axes)+\
                              " should be a subset of weight_variables "+
-                             str(weight_variables))
+                             str(self.weight_variables))
         if self.tesselation == None:
             raise ValueError("Need to apply_weights before tesselation can be"+
                              "plotted")
-- 
2.43.0


From 8f209d1c38d84029359df3add73b8765a8f1ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 58/78] fix: MultipoleWeighting refuses repeated target moments
 wherever they are

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..bfccf6e 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -102,8 +102,8 @@ class MultipoleWeighting(object):
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
+        for i, item in enumerate(moment_index_list):
+            if item in moment_index_list[:i]:
                raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
-- 
2.43.0


From bd7e642c59928c3ac9139f97e9ce353bdf570f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 59/78] fix: xboa.bunch.weighting exports MultipoleWeighting

---
 xboa/bunch/weighting/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/__init__.py b/xboa/bunch/weighting/__init__.py
index 41be56b..ac99810 100644
--- a/xboa/bunch/weighting/__init__.py
+++ b/xboa/bunch/weighting/__init__.py
@@ -36,4 +36,5 @@ from xboa.bunch.weighting._bounding_ellipse import BoundingEllipse
 from xboa.bunch.weighting._hull_content import HullContent
 from xboa.bunch.weighting._multipole_weighting import MultipoleWeighting
 
-__all__ = ["VoronoiWeighting", "BoundingEllipse", "HullContent"]
+__all__ = ["VoronoiWeighting", "BoundingEllipse", "HullContent",
+           "MultipoleWeighting"]
-- 
2.43.0


From e1f0f7d6764aa48fc53b407eafe51286b434a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 60/78] fix: closed orbit generators finish instead of raising
 RuntimeError

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py   | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..0d4eec4 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -19,7 +19,6 @@ Closed orbit finder
 """
 
 import math
-import json
 import copy
 try:
     import numpy
@@ -74,7 +73,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -120,7 +119,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
@@ -128,20 +127,15 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # closed orbit has reached numerical precision limit
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # tracking noise is greater than ellipse size
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
- 
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
         """
-- 
2.43.0


From 97d92d1f5b4713d546126c52964aa304f69add6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 61/78] fix: closed orbit scan over several variables does not
 stop when one reaches its end

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 0d4eec4..271ad18 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -83,7 +83,7 @@ class EllipseClosedOrbitFinder(object):
             i = len(keys)-1
             key = keys[i]
             step[key] += step_size_dict[key]
-            while step[key] > step_end_dict[key] and i > 0:
+            while step[key] >= step_end_dict[key] and i > 0:
                 step[key] = step_start_dict[key]
                 i -= 1
                 key = keys[i]
-- 
2.43.0


From 93374ea2160f2837deb343b8ca2d566037ff1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 62/78] fix: closed orbit finder names numpy.linalg.LinAlgError
 where every numpy has it

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 271ad18..937b153 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -125,7 +125,7 @@ class EllipseClosedOrbitFinder(object):
             try:
                 my_co = EllipseClosedOrbitFinderIteration(keys, x_list,
                                                           self.eps_max, True)
-            except  (numpy.linalg.linalg.LinAlgError, ValueError):
+            except  (numpy.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
                     return # closed orbit has reached numerical precision limit
                 else:
@@ -160,7 +160,7 @@ class EllipseClosedOrbitFinder(object):
         co_check = EllipseClosedOrbitFinderIteration(keys, x_list, self.eps_max, False)
         try:
             co_check.calculate_ellipse()
-        except numpy.linalg.linalg.LinAlgError:
+        except numpy.linalg.LinAlgError:
             pass
         except ValueError:
             pass
-- 
2.43.0


From 0e593a9147547d1a94cea53dc5202940f5b4fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 63/78] fix: DPhiTuneFinder starts each tune from no phase
 advances and reports a failed fit

---
 xboa/algorithms/tune/_dphi_tune.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c4bce10 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -26,14 +26,10 @@ class DPhiTuneFinder(object):
             raise ValueError("Missing data set for Tune calculation")
 
         points = list(zip(self.u, self.up))
-        try:
-            self.centre, self.ellipse = xboa.common.fit_ellipse(
+        self.centre, self.ellipse = xboa.common.fit_ellipse(
                                               points,
                                               1e9,
                                               verbose = False)
-
-        except ValueError:
-            sys.excepthook(*sys.exc_info())
         self.get_dphi_list()
         self.tune = numpy.mean(self.dphi)
         self.tune_error = numpy.std(self.dphi)
@@ -70,6 +66,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From ec32df78e37b9a3756e2f6fb61020236c2b234db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 64/78] fix: FFTTuneFinder leaves the caller's data alone

---
 xboa/algorithms/tune/_fft_tune.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2198b44..05acd7b 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -78,12 +78,12 @@ class FFTTuneFinder(object):
 
         Returns the principle Fourier frequency that is not 0.
         """
-        if self.u == None:
+        if self.u is None:
             raise ValueError("No data set for Fourier Transform")
         if len(self.u) % 2 == 0:
-            if self.up != None:
-                del self.up[-1]
-            del self.u[-1]
+            if self.up is not None:
+                self.up = self.up[:-1]
+            self.u = self.u[:-1]
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-- 
2.43.0


From ae693919e77fe43e97944279ee1498aa71b3f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 65/78] fix: FFTTuneFinder falls back on the slow transform and
 forgets the peaks of the last call

---
 xboa/algorithms/tune/_fft_tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 05acd7b..43c2b56 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -87,7 +87,6 @@ class FFTTuneFinder(object):
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-        self._get_max_peak()
         if len(self.peak_x_list) == 0:
             self._sft_find_peaks(tune_tolerance)
         self._get_max_peak()
@@ -259,6 +258,7 @@ class FFTTuneFinder(object):
         """
         Run the peak finder
         """
+        self.peak_x_list, self.peak_y_list = [], []
         peak_index_list = sorted(self._peak_finder.find_peaks(self.k_mag_y))
         if len(peak_index_list) == 0:
             return
-- 
2.43.0


From 7dafd2b2a591980da6bfb2a330cab0cd7db1f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 66/78] fix: FFTTuneFinder frequencies are in units of one per
 sample

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 43c2b56..9aedee8 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -251,7 +251,7 @@ class FFTTuneFinder(object):
         fft = numpy.fft.rfft(numpy.array(self.u))
         k_list = [[float(numpy.real(z)), float(numpy.imag(z))] for z in fft]
         self.k_mag_y = [(z[0]**2+z[1]**2)**0.5 for z in k_list]
-        self.k_mag_x = [i/2./float(len(k_list)) for i, z in enumerate(k_list)]
+        self.k_mag_x = [i/float(len(self.u)) for i, z in enumerate(k_list)]
         self._find_peaks()
 
     def _find_peaks(self):
@@ -336,7 +336,7 @@ class FFTTuneFinder(object):
         for m, a_m in enumerate(self.u):
             if self.use_hanning_filter:
                 hanning = 2.*math.sin(math.pi*m/n)**2.
-            f = 2.*math.pi*m*k_x*(n+1)/n
+            f = 2.*math.pi*m*k_x
             dy = hanning*a_m*math.cos(f)
             dz = hanning*a_m*math.sin(f)
             y_point += dy
-- 
2.43.0


From 7df082f20ab8f640d0f6c27cdeb76695ce6ecd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 67/78] fix: RefinePeakFinder fits each peak afresh with an
 integer range

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ed74369..102e876 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -123,9 +123,9 @@ class RefinePeakFinder(object):
         # chi2 gives estimate of fit errors
         this_max_delta = min(len(data), self.max_delta)
         peak_with_errors = []
-        fit_quality = 0.
         fail_list = []
         for peak in self.peak_list:
+            fit_quality = 0.
             delta_fit = self.delta_seed
             while fit_quality < 1. and delta_fit < this_max_delta:
                 delta_fit *= 2
@@ -133,7 +133,7 @@ class RefinePeakFinder(object):
                     fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
                 except Exception:
                     break
-            delta_fit /= 2
+            delta_fit //= 2
             fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
             if self.draw:
                 canvas = common.make_root_canvas("values")
-- 
2.43.0


From 4f972fcc203dfbd4a20d332f05db21609c61ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 68/78] fix: CutSmoothing runs on Python 3 and with signals
 shorter than a step

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 83354d6..b531efb 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -72,13 +72,13 @@ class CutSmoothing(object):
                                  " not equal to "+str(n_signal))
         will_cut_data = [False]*n_signal
 
-        for i in range(n_signal/self.step):
+        for i in range(n_signal//self.step):
             data_mean = numpy.mean(signal[i*self.step:(i+1)*self.step])
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-        data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
-        for j in range((n_signal/self.step)*self.step, n_signal):
+        data_mean = numpy.mean(signal[max(n_signal-self.step, 0):n_signal])
+        for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         table_out = copy.deepcopy(table)
-- 
2.43.0


From 7fe31454c9b1fc873c59953823add988a76802af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 69/78] fix: HanningSmoothing names its variables

---
 xboa/algorithms/smoothing/_hanning_smoothing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/algorithms/smoothing/_hanning_smoothing.py b/xboa/algorithms/smoothing/_hanning_smoothing.py
index ff0e80d..5ed5dcc 100644
--- a/xboa/algorithms/smoothing/_hanning_smoothing.py
+++ b/xboa/algorithms/smoothing/_hanning_smoothing.py
@@ -1,4 +1,5 @@
 import copy
+import math
 
 class HanningSmoothing(object):
     def __init__(self):
@@ -8,8 +9,8 @@ class HanningSmoothing(object):
         omega = math.pi*len(data)
         data_out = copy.deepcopy(data)
         for i_index, item in enumerate(data):
-            x_smoothed = data[index]
+            x_smoothed = data[i_index]
             for j_index, item in enumerate(data):
-                x_smoothed += data[j_index]*cos(omega*(j_index-i_index))**2.
-            data_out[index] = x_smoothed
+                x_smoothed += data[j_index]*math.cos(omega*(j_index-i_index))**2.
+            data_out[i_index] = x_smoothed
         return data_out
-- 
2.43.0


From c52418f8f311abf770a25ae0324b4f92284c364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 70/78] fix: DecoupledTransferMatrix runs on Python 3, refuses
 odd sizes

---
 xboa/algorithms/decoupled_transfer_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 8fd19eb..f5ba594 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -25,14 +25,14 @@ class DecoupledTransferMatrix(object):
         self.m = numpy.array(transfer_matrix)
         if self.m.shape[0] != self.m.shape[1]:
             raise ValueError("Transfer matrix was not square")
-        if (self.m.shape[0]/2)*2 != self.m.shape[0]:
+        if (self.m.shape[0]//2)*2 != self.m.shape[0]:
             raise ValueError("Transfer matrix had odd size (should be even)")
         det_m = numpy.linalg.det(self.m)
         if abs(det_m - 1) > self.det_tolerance:
             raise ValueError("Transfer matrix determinant deviated from 1 by "+\
               str(det_m - 1)+" - DecoupledTransferMatrix.det_tolerance was "+\
               str(self.det_tolerance) )
-        self.dim = self.m.shape[0]/2
+        self.dim = self.m.shape[0]//2
         self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
         self.t_evector = None
         self.t_evalue = None
-- 
2.43.0


From aaa3311dee31e43fc5036c9bd38eb4d56e72d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 71/78] fix: DecoupledTransferMatrix decouples each pair of
 eigenvectors

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index f5ba594..6bcf759 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -52,7 +52,7 @@ class DecoupledTransferMatrix(object):
         self.v_t = numpy.zeros([self.dim*2, self.dim*2]) # real
         for i in range(self.dim):
             j = 2*i
-            evector = numpy.transpose(self.m_evector)[i]
+            evector = numpy.transpose(self.m_evector)[j]
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
             try:
-- 
2.43.0


From d4ecbbd782380b26aeb03a4ccdaa16c5a5a00526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 72/78] fix: MultiTrack splits its hits and tracks one hit

---
 xboa/tracking/_multitrack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..c713f7e 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
@@ -87,7 +87,9 @@ class MultiTrack(TrackingBase):
         """
         Just call track_one on the hit
         """
-        self.tracking.track_one(a_hit)
+        hit_list = self.tracking_job.tracking.track_one(a_hit)
+        self.last = [hit_list]
+        return hit_list
 
     def track_many(self, hit_list):
         """
-- 
2.43.0


From a2031bd832a43bd17df04d7ffc07925fd0aa3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 73/78] fix: tracking processes pickle in binary and close
 their files

---
 xboa/tracking/tracking_process/_bsub_process.py     |  5 ++---
 xboa/tracking/tracking_process/_tracking_process.py | 13 +++++++------
 .../tracking_process/xboa_tracking_process.py       |  7 +++----
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..4d95a9e 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,9 +46,8 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
-        pickle.dump(self, process_out)
-        process_out.close()
+        with open(out_path, "wb") as process_out:
+            pickle.dump(self, process_out)
 
     def start(self):
         """
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..1dcb954 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,8 +69,9 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
-        pickle.dump(self, process_out)
+        pickle_path = os.path.join(self.out_dir, self.pickle_jar)
+        with open(pickle_path, "wb") as process_out:
+            pickle.dump(self, process_out)
 
     def start(self):
         """
@@ -139,8 +140,8 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
-        self.return_value = pickle.load(fin)
+        with open(return_path, "rb") as fin:
+            self.return_value = pickle.load(fin)
         return self.return_value
 
     @classmethod
@@ -149,8 +150,8 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
-        process = pickle.load(fin)
+        with open(os.path.join(pickle_dir, cls.pickle_jar), "rb") as fin:
+            process = pickle.load(fin)
         return process
 
     # I know these names are inscrutable - but I couldn't resist. I like
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..c2ced73 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,15 +40,14 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
-    tracking_process = pickle.load(fin)
+    tracking_process = TrackingProcess.new_from_pickle(out_dir)
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
-    pickle.dump(hits, fout)
+    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+        pickle.dump(hits, fout)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 7b605a198ce82e8d363fe714d88bd7fb5fa8ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 74/78] fix: xboa_tracking_process removes the old output from
 the output directory

---
 xboa/tracking/tracking_process/xboa_tracking_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index c2ced73..170dd35 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -42,8 +42,9 @@ def main():
     out_dir = args.out_dir 
     tracking_process = TrackingProcess.new_from_pickle(out_dir)
     # clear any old data; always want to get new data
-    if os.path.exists(TrackingProcess.pickle_sandwich):
-        os.remove(TrackingProcess.pickle_sandwich)
+    old_hits_path = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
+    if os.path.exists(old_hits_path):
+        os.remove(old_hits_path)
     # run the data and dump the output
     hits = tracking_process.run()
     with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
-- 
2.43.0


From 217e303db5b6aa579ef26e49e5bc3584a43c0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 75/78] fix: BSubProcess reads the output of bsub as text

---
 xboa/tracking/tracking_process/_bsub_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 4d95a9e..ae199f8 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -65,7 +65,8 @@ class BSubProcess(TrackingProcess):
                                       '-o', log,
                                       '-e', err,
                                       self.run_executable,
-                                      "--out-dir", self.out_dir])
+                                      "--out-dir", self.out_dir],
+                                     universal_newlines=True)
         start_index = proc_output.find("<")+1
         end_index = proc_output.find(">")
         self.pid = int(proc_output[start_index:end_index])
@@ -76,7 +77,8 @@ class BSubProcess(TrackingProcess):
         """
         if self.pid == None:
             return False
-        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)])
+        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)],
+                                              universal_newlines=True)
         status = self._get_substr(proc_output, 'Status <', '>')
         if status in ["PEND", "RUN", "WAIT"]:
             return True
-- 
2.43.0


From dabe0927ddd4b24edc1df13213736ad0fbcc5d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 76/78] fix: deprecated modules xboa.Bunch and xboa.Hit import

---
 xboa/Bunch.py | 2 +-
 xboa/Hit.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/Bunch.py b/xboa/Bunch.py
index 28bdb35..0641117 100644
--- a/xboa/Bunch.py
+++ b/xboa/Bunch.py
@@ -23,5 +23,5 @@ Deprecated accessor to xboa.bunch module.
 import sys
 sys.stderr.write("Warning - importing deprecated xboa.Bunch module,"+\
                  " use xboa.bunch instead\n")
-from bunch._bunch import *
+from xboa.bunch._bunch import *
 
diff --git a/xboa/Hit.py b/xboa/Hit.py
index 7064af3..12eac62 100644
--- a/xboa/Hit.py
+++ b/xboa/Hit.py
@@ -23,5 +23,5 @@ Deprecated accessor to xboa.hit module.
 import sys
 sys.stderr.write("Warning - importing deprecated xboa.Hit module,"+\
                  " use xboa.hit instead\n")
-from hit import *
+from xboa.hit import *
 
-- 
2.43.0


From 0533486e332d5ade99135ae27c756d1837ef382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 77/78] fix: root_scatter_graph keeps the ellipse it draws

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ea6496f..1d3d423 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1678,7 +1678,7 @@ class Bunch:
                                                graph[0].GetYaxis().GetXmin(),
                                                graph[0].GetYaxis().GetXmax())
       func.Draw('SAME')
-      _function_persistent.append(fit_func)
+      Common._common._function_persistent.append(func)
     canvas.Update()
     return (canvas, graph[0], graph[1])
   
-- 
2.43.0


From bdab0b2a61a9e8af0d924bc79bddb5df8f3c61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:32 +0000
Subject: [PATCH 78/78] fix: setting and deleting hits by a negative index
 changes the same hit of the core

---
 xboa/bunch/_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 1d3d423..30b2874 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -120,13 +120,15 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
+    key = range(len(self.__hits))[key] # the core counts from the start
     self.__bunchcore.set_item(value._Hit__hitcore, key)
+    self.__hits[key] = value
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
-    self.__hits.__delitem__(key)
+    key = range(len(self.__hits))[key] # the core counts from the start
     self.__bunchcore.del_item(key)
+    self.__hits.__delitem__(key)
 
   def __del__(self):
     """Called by del"""
-- 
2.43.0

