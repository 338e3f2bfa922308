From b6b758c866935d350e7dc6264a7725ca3754fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 01/37] fix: give the light nuclei their charge in
 pdg_pid_to_charge

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..ab5741a 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -88,7 +88,7 @@ pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 11
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
 -11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:0, 1000010030:0, 1000020030:0, 1000020040:0, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From a8e7f4b8c64cec651e42a0cbbce2951167f7b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 02/37] fix: min_max ignores weights of another length instead
 of appending to the caller's list

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index ab5741a..1b99936 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -264,9 +264,9 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   new_floats = x_float_list
   if len(weight_list) == len(x_float_list):
     new_floats =  []
-  for ind in range(len(weight_list)):
-    if weight_list[ind] > 1e-6:
-      new_floats.append(x_float_list[ind]) 
+    for ind in range(len(weight_list)):
+      if weight_list[ind] > 1e-6:
+        new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
   delta = (x[1]-x[0])*margin
-- 
2.43.0


From 018bebd93842920ff9c3ca7cbe90071eec1219e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 03/37] fix: choose the number of bins in both dimensions of a
 2d histogram

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..f6327e8 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1533,7 +1533,7 @@ class Bunch:
       (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
     else:
       y_points                  = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, n_dimensions=2)
       y_bins                    = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
     x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
     return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)
-- 
2.43.0


From d4793cbe41647cd8bd7f806758c90ab88c403d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 04/37] fix: fold Newton-Raphson coordinates into the given
 periodic limits

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 1b99936..85bfc14 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -214,7 +214,7 @@ def nd_newton_raphson2(y_function, y_tolerances_list, x_start_values_list, x_del
     jacobian          = numpy.matrix( numpy.zeros( (len(x_start_values_list), len(x_start_values_list)) ) )
     for i in range( len(x_start_values_list) ):
       if limits: #make the function periodic with the limits
-        x_list[0][i] -= delta_limit[i]*math.floor(x_list[0][i]/delta_limit[i]-x_lower_limits[i]);
+        x_list[0][i] -= delta_limit[i]*math.floor((x_list[0][i]-x_lower_limits[i])/delta_limit[i]);
     for i in range( len(x_start_values_list) ):
       x_list[i+1]     = copy.deepcopy(x_list[0])
       x_list[i+1][i] += delta_x[0,i]
-- 
2.43.0


From da9a7cb7fb85cf3137571938bbe63745f82e69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 05/37] fix: normalise the fit_ellipse cut with the dimension
 of the points

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 85bfc14..3084161 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -975,7 +975,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From 18cc687f341db282a958ed05eb96cc51890e5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 06/37] fix: make CutSmoothing work with integer blocks in
 Python 3 and with signals shorter than a block

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 83354d6..a7c8acf 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -72,13 +72,13 @@ class CutSmoothing(object):
                                  " not equal to "+str(n_signal))
         will_cut_data = [False]*n_signal
 
-        for i in range(n_signal/self.step):
+        for i in range(n_signal//self.step):
             data_mean = numpy.mean(signal[i*self.step:(i+1)*self.step])
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-        data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
-        for j in range((n_signal/self.step)*self.step, n_signal):
+        data_mean = numpy.mean(signal[max(0, n_signal-self.step):n_signal])
+        for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         table_out = copy.deepcopy(table)
-- 
2.43.0


From 786858e31f56b88509e779b225ab2ddc63c55809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 07/37] fix: forget the phase advances of the previous data in
 DPhiTuneFinder

---
 xboa/algorithms/tune/_dphi_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c991a11 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -70,6 +70,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From 24379ee076f4ed1e219e2769f73857044e525265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 08/37] fix: divide the hits over tracking processes in whole
 numbers

---
 xboa/tracking/_multitrack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..6f35826 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
-- 
2.43.0


From 67e76bc5186505b728a506c9a50a36d2be86bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 09/37] fix: pickle tracking processes in binary files

---
 xboa/tracking/tracking_process/_bsub_process.py         | 2 +-
 xboa/tracking/tracking_process/_tracking_process.py     | 6 +++---
 xboa/tracking/tracking_process/xboa_tracking_process.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..90c0e24 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,7 +46,7 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
+        process_out = open(out_path, "wb")
         pickle.dump(self, process_out)
         process_out.close()
 
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..ec62150 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,7 +69,7 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
+        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "wb")
         pickle.dump(self, process_out)
 
     def start(self):
@@ -139,7 +139,7 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
+        fin = open(return_path, "rb")
         self.return_value = pickle.load(fin)
         return self.return_value
 
@@ -149,7 +149,7 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
+        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "rb")
         process = pickle.load(fin)
         return process
 
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..fb6ddb5 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,14 +40,14 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
+    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb")
     tracking_process = pickle.load(fin)
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
+    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb")
     pickle.dump(hits, fout)
 
 if __name__ == "__main__":
-- 
2.43.0


From c695d3fb2dc7ca00a808a475e7e4a871f8933cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 10/37] fix: end the closed orbit generators by returning, as
 Python 3 requires

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py     | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..9c6b8ca 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -74,7 +74,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -120,7 +120,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
@@ -128,19 +128,15 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # closed orbit has reached numerical precision limit. Nice!
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # convergence limit; tracking noise is greater than ellipse
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
  
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
-- 
2.43.0


From d8520912961698fe59c65284c57872db97ed3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 11/37] fix: take the integer half of the size of a transfer
 matrix

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 8fd19eb..de32c65 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -32,7 +32,7 @@ class DecoupledTransferMatrix(object):
             raise ValueError("Transfer matrix determinant deviated from 1 by "+\
               str(det_m - 1)+" - DecoupledTransferMatrix.det_tolerance was "+\
               str(self.det_tolerance) )
-        self.dim = self.m.shape[0]/2
+        self.dim = self.m.shape[0]//2
         self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
         self.t_evector = None
         self.t_evalue = None
-- 
2.43.0


From 6b7ef8e3e1778779689102de8b652be55cad1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 12/37] fix: decouple each plane with its own eigenvector

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index de32c65..2ceeba1 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -52,7 +52,7 @@ class DecoupledTransferMatrix(object):
         self.v_t = numpy.zeros([self.dim*2, self.dim*2]) # real
         for i in range(self.dim):
             j = 2*i
-            evector = numpy.transpose(self.m_evector)[i]
+            evector = numpy.transpose(self.m_evector)[j]
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
             try:
-- 
2.43.0


From 29ba183170b526b0753dbf55f2b2d49a82940c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 13/37] fix: refuse transfer matrices of odd size

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 2ceeba1..6bcf759 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -25,7 +25,7 @@ class DecoupledTransferMatrix(object):
         self.m = numpy.array(transfer_matrix)
         if self.m.shape[0] != self.m.shape[1]:
             raise ValueError("Transfer matrix was not square")
-        if (self.m.shape[0]/2)*2 != self.m.shape[0]:
+        if (self.m.shape[0]//2)*2 != self.m.shape[0]:
             raise ValueError("Transfer matrix had odd size (should be even)")
         det_m = numpy.linalg.det(self.m)
         if abs(det_m - 1) > self.det_tolerance:
-- 
2.43.0


From 2d08934e921377d592141b67f512ae62ddd6794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 14/37] fix: set the global weight of a copied hit after its
 identity

---
 xboa/hit/_hit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..559cc25 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -146,7 +146,9 @@ class Hit(object):
     """
     my_hit = Hit()
     for k,v in set_dict.items():
-      my_hit.set(k, v)
+      if k != 'global_weight': my_hit.set(k, v)
+    # global weight belongs to the identity (spill, event, particle), so set the identity first
+    if 'global_weight' in set_dict: my_hit.set('global_weight', set_dict['global_weight'])
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
     return my_hit
@@ -711,7 +713,8 @@ class Hit(object):
     """
     self.__init__()
     for k,v in state.items():
-      self.set(k, v)
+      if k != 'global_weight': self.set(k, v)
+    if 'global_weight' in state: self.set('global_weight', state['global_weight'])
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
-- 
2.43.0


From 4694b77b82570b3eaef11064ab708d33f1f6e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 15/37] fix: treat a line with an unparsable number as a bad
 event

---
 xboa/hit/factory/_line_factory_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 5c507c9..b304abd 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -61,8 +61,11 @@ class LineFactoryBase(HitFactoryBase):
                 # I ran into problems with int > 1000000 written in scientific 
                 # notation by G4BL (urk)
                 except ValueError:
-                    value = float(value)
-                    value = xboa.hit.Hit._default_var_types[key](value)
+                    try:
+                        value = float(value)
+                        value = xboa.hit.Hit._default_var_types[key](value)
+                    except (ValueError, OverflowError):
+                        raise xboa.hit.BadEventError("Failed to parse "+str(key)+" in line "+str(line))
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
                 a_hit.set(key, value)
-- 
2.43.0


From c3967a828195d51d33c614083a641558186fca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 16/37] fix: allow spill and global_weight columns in user
 formats

---
 xboa/hit/_hit.py                       | 2 +-
 xboa/hit/factory/_line_factory_base.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 559cc25..48bb7ae 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -823,7 +823,7 @@ class Hit(object):
   __set_variables        = {'p':set_p,'x\'':set_xP,'y\'':set_yP,'t\'':set_tP,'ct':set_ct,'kinetic_energy':set_ek,'':__do_nothing}
   _default_var_types    = {'x':float,'y':float,'z':float,'t':float,'px':float,'py':float,'pz':float,'energy':float,'bx':float,'by':float,'bz':float,
                             'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'local_weight':float,
-                            'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float}
+                            'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float,'spill':int,'global_weight':float}
 
   __get_keys = []
   __set_keys = []
diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index b304abd..d35b9b7 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -53,6 +53,7 @@ class LineFactoryBase(HitFactoryBase):
         if not(len(words) == len(format_list)): 
             raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         a_hit = xboa.hit.Hit()
+        global_weight = None
         for key in format_list:
             value = words.pop()
             if key != '':
@@ -68,6 +69,11 @@ class LineFactoryBase(HitFactoryBase):
                         raise xboa.hit.BadEventError("Failed to parse "+str(key)+" in line "+str(line))
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
-                a_hit.set(key, value)
+                if key == 'global_weight': # belongs to the identity, which may be on a later column
+                    global_weight = value
+                else:
+                    a_hit.set(key, value)
+        if global_weight is not None:
+            a_hit.set('global_weight', global_weight)
         return a_hit
 
-- 
2.43.0


From 3265cbf997e6eb279dacb4a3d192b7f1cdf2e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 17/37] fix: read g4beamline track files in the declared unit
 of length

---
 xboa/hit/_hit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 48bb7ae..aa5c1db 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -692,9 +692,10 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    for file_units in Hit.__file_units, xboa.hit.factory.BuiltinHitFactory.file_units:
+      for format in 'g4beamline_bl_track_file', 'g4beamline_bl_track_file_2':
+        for variable in 'x', 'y', 'z':
+          file_units[format][variable] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From 173ee2cc428b6715aebfe76672c024be2fdd152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 18/37] fix: writing a hit leaves its particle id alone,
 whether it succeeds or not

---
 xboa/hit/_hit.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index aa5c1db..0e95ad7 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -402,15 +402,15 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+    pid = self.get('pid')
+    try:
+      if( format.find('icool') > -1 ):
+        self.set('pid', Common.pdg_pid_to_icool[pid])
+      if( format.find('mars') > -1 ):
+        self.set('pid', Common.pdg_pid_to_mars [pid])
+      self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
+    finally:
+      self.set('pid', pid)
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
-- 
2.43.0


From 3676bcaddf0d5bc7b527d2413b37c2c0d2467839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 19/37] fix: sort with a comparison function on Python 3
 without reordering the bunch

---
 xboa/bunch/_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f6327e8..8cf5e58 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -22,6 +22,7 @@ import gzip
 import io
 import operator
 import math
+import functools
 import sys
 import bisect
 
@@ -1403,9 +1404,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
+    hits = self.__hits
     if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
-- 
2.43.0


From f064f94508e74a3d72cafb7c05af3ad3fc4fd51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 20/37] fix: replace and delete hits in the numerical core of a
 bunch as in its list

Deleting a hit from a bunch removed it from the list only (the core has no
__delitem__), an assignment out of range reached the core, and negative indices
meant different hits in the two.
---
 xboa/bunch/_bunch.py          | 8 +++++---
 xboa/core/cpplib/Bunchcore.cc | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8cf5e58..84c565a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -123,13 +123,15 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
+    key = range(len(self.__hits))[key] # as a list does, IndexError if out of range
     self.__bunchcore.set_item(value._Hit__hitcore, key)
+    self.__hits[key] = value
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
-    self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+    key = range(len(self.__hits))[key] # as a list does, IndexError if out of range
+    self.__bunchcore.del_item(key)
+    del self.__hits[key]
 
   def __del__(self):
     """Called by del"""
diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..46471a5 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -35,7 +35,7 @@ void Bunchcore::set_item(size_t i, SmartPointer<Hitcore> hit) {
 
 bool Bunchcore::del_item(size_t i) {
     // can delete an existing hit_
-    if (i > hitcores_.size()) {
+    if (i >= hitcores_.size()) {
         return false;
     }
     hitcores_.erase(hitcores_.begin()+i);
-- 
2.43.0


From 0519cde211b3ec87fffee5e5343f692dd4fe8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 21/37] fix: look up global weights by spill, event and
 particle number in that order

Hitcore swapped the event and particle number, so that a weight set through a hit
was found in the weight table under another identity.
---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..9a60e16 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -436,12 +436,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     weightContext->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = weightContext->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From ecd6613fcb4cc476119d43f00bf50e327a85fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 22/37] fix: refuse a value of the wrong kind before storing it
 in a hit

Hitcore.set stored -1 (or the low bits of a large integer) and then raised a
SystemError, or nothing at all.
---
 xboa/core/pylib/PyHitcore.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..35c8965 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -23,6 +23,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <limits.h>
 
 #include "utils/TypeConversions.hh"
 
@@ -101,12 +102,24 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (PyErr_Occurred()) // py_value is not a number
+        return NULL;
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
-    if (hc->hitcore_->set_int(variable_name, value_int))
+    int value_int = 0;
+    if (hc->hitcore_->get_int(variable_name, &value_int)) {
+        long value_long = PyLong_AsLong(py_value);
+        if (PyErr_Occurred()) // py_value is not an integer
+            return NULL;
+        if (value_long < INT_MIN || value_long > INT_MAX) {
+            PyErr_SetString(PyExc_OverflowError,
+                            "Integer out of range in Hitcore.set");
+            return NULL;
+        }
+        hc->hitcore_->set_int(variable_name, value_long);
         Py_RETURN_NONE; // success, return None
+    }
 
     PyErr_SetString(PyExc_KeyError, "Did not recognise variable in Hitcore.get");
     return NULL;
-- 
2.43.0


From a91e864c1b8d70f31b51b181a2563cbff97af8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 23/37] fix: name the weight among the arguments of
 WeightContext.set_weight

The keywords were one place out, so that identities could not be given by name,
and identity numbers that were not given were read uninitialised.
---
 xboa/core/pylib/PyWeightContext.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..a695755 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -82,13 +82,13 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    double weight;
-    int spill, event, particle;
+    double weight = 1.;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
+        cstring("weight"), cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
     };
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "d|iiiii",
                &c_argnames[0],
                &weight, &spill, &event, &particle, &event, &particle);
     if(err == 0) {
@@ -108,7 +108,7 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    int spill, event, particle;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
         cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
-- 
2.43.0


From fd635fe69a8b065791e06cf3f0bebbeff4b8d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 24/37] fix: share one weight table between hits and the cores
 of bunches

After Hitcore.set_weight_context the bunch cores went on reading and cutting
weights in the previous table.
---
 xboa/core/cpplib/Hitcore.cc    | 4 ++--
 xboa/core/cpplib/Hitcore.hh    | 7 ++++---
 xboa/core/pylib/PyBunchcore.cc | 9 +++------
 xboa/core/pylib/PyHitcore.cc   | 7 +++++--
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.cc b/xboa/core/cpplib/Hitcore.cc
index 1aa2482..ef01c0b 100644
--- a/xboa/core/cpplib/Hitcore.cc
+++ b/xboa/core/cpplib/Hitcore.cc
@@ -25,11 +25,11 @@ std::map<std::string, Hitcore::get_int_function> Hitcore::get_int_map;
 std::map<std::string, Hitcore::get_dbl_function> Hitcore::get_dbl_map;
 std::map<std::string, Hitcore::set_int_function> Hitcore::set_int_map;
 std::map<std::string, Hitcore::set_dbl_function> Hitcore::set_dbl_map;
-SmartPointer<WeightContext>& Hitcore::weightContext = *(new SmartPointer<WeightContext>());
+SmartPointer<WeightContext>* Hitcore::weightContext = new SmartPointer<WeightContext>();
 
 
 void Hitcore::clear_global_weights() {
-    weightContext->clearWeights();
+    (*weightContext)->clearWeights();
 }
 
 Hitcore::Hitcore()
diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 9a60e16..700dfd9 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -335,7 +335,8 @@ class Hitcore {
     /** Print the global weights map */
     static void print_global_weights(std::ostream& out);
 
-    static SmartPointer<WeightContext>& weightContext;
+    /** Handle to the weight table; one handle is shared by all modules */
+    static SmartPointer<WeightContext>* weightContext;
 
   private:
     double x_;
@@ -437,12 +438,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 
 void Hitcore::set_global_weight(double global_weight) {
     WeightContext::HitId hitid(spill_, event_, particle_);
-    weightContext->setWeight(hitid, global_weight);
+    (*weightContext)->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
     WeightContext::HitId hitid(spill_, event_, particle_);
-    double wt = weightContext->getWeight(hitid);
+    double wt = (*weightContext)->getWeight(hitid);
     return wt;
 }
 
diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..bd51eeb 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -528,12 +528,9 @@ static struct PyModuleDef bunchcoredef = {
 
 void setWeightContext() {
     PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
+    PyObject* wcx_c_api = PyObject_GetAttrString(hc_module, "C_API_WEIGHT_CONTEXT");
+    Hitcore::weightContext = reinterpret_cast<SmartPointer<WeightContext>*>
+                                    (PyCapsule_GetPointer(wcx_c_api, NULL));
 }
 
 
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 35c8965..37e4dbd 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -180,7 +180,7 @@ PyObject* setWeightContext(PyObject* cls, PyObject *args) {
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj);
     SmartPointer<WeightContext> contextPtr = pywc->cppcontext_;
     pyCurrentContext->cppcontext_.set(contextPtr.get());
-    Hitcore::weightContext.set(contextPtr.get());
+    Hitcore::weightContext->set(contextPtr.get());
     Py_RETURN_NONE; // success, return None
 }
 
@@ -341,7 +341,7 @@ void setWeightContext() {
     PyObject* empty_tuple = PyTuple_New(0);
     PyObject* pyobj_wc = PyObject_CallObject(wc_class, empty_tuple); // init
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
+    *Hitcore::weightContext = pywc->cppcontext_;
     pyCurrentContext =  pywc;
 }
 
@@ -410,6 +410,9 @@ PyMODINIT_FUNC PyInit__hitcore(void) {
     PyDict_SetItemString(hc_dict, "C_API_CHECK", check_c_api);
     PyDict_SetItemString(hc_dict, "C_API_SMARTPOINTER_CONTEXT", spc_c_api);
     setWeightContext();
+    PyObject* wcx_c_api = PyCapsule_New(reinterpret_cast<void*>
+                                (Hitcore::weightContext), NULL, NULL);
+    PyDict_SetItemString(hc_dict, "C_API_WEIGHT_CONTEXT", wcx_c_api);
     return module;
 }
 
-- 
2.43.0


From 6ad8ba0ba280204c2c3a4688ac6ee1b88c7e1a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 25/37] fix: conditional_remove in numbers of sigma uses the
 standard deviation, not its root

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 84c565a..b8f20a7 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -630,7 +630,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From 785eea837d097833033fd0ed2d6dabbae45eadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 26/37] fix: compare stored covariance matrices with None by
 identity

Comparing a numpy matrix with None compares it element by element, so that every
use of a stored covariance matrix raised, and bunches with stored matrices were
equal whatever their hits.
---
 xboa/bunch/_bunch.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index b8f20a7..2197f47 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -85,7 +85,7 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
+    if self.__covs is not None:
       covs = 'numpy.'+repr(self.__covs)
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
@@ -146,13 +146,9 @@ class Bunch:
     for key,value in self.__means.items():
       if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None:
+      if not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
@@ -684,7 +680,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -773,7 +769,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -785,7 +781,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1028,9 +1024,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1884,7 +1880,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From f748bd1c54e9e55e4ad481aa651cc353cc93f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 27/37] fix: set_covariance_matrix recalculates instead of
 storing the stored values again

---
 xboa/bunch/_bunch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 2197f47..617cb07 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -768,6 +768,8 @@ class Bunch:
 
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
+    self.__covs  = None # so that the values below are calculated afresh
+    self.__means = {}
     if use_internal_covariance_matrix:
       if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
@@ -775,9 +777,6 @@ class Bunch:
       if mean_dict == {}:
         self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__means = mean_dict
-    else:
-      self.__covs  = None
-      self.__means = {}
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-- 
2.43.0


From b8116d0e94d93f6835358360ab4510d0387e3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 28/37] fix: moments use the bunch mean of every variable whose
 mean is not specified

When some means were given, the others were taken as zero by the core and refused
by the python calculation.
---
 xboa/bunch/_bunch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 617cb07..b066bae 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -688,8 +688,11 @@ class Bunch:
         return float(self.__covs[i1,i2]) # not numpy.float64
       except ValueError:
         pass
-    if variable_mean_dict == {}:
-      variable_mean_dict = self.mean(variable_list)
+    unspecified = [var for var in variable_list if not var in variable_mean_dict]
+    if unspecified != []:
+      means = self.mean(unspecified)
+      means.update(variable_mean_dict)
+      variable_mean_dict = means
     try:
       moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
       return moment
@@ -774,7 +777,7 @@ class Bunch:
       if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
-      if mean_dict == {}:
+      if mean_dict == {} or mean_dict is None:
         self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__means = mean_dict
 
-- 
2.43.0


From 822a77f051f63f1d291708069d111361c1332027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 29/37] fix: emittance, Twiss functions and amplitude honour
 the geometric argument

get_emittance looked at the global setting whatever was asked for, and get_gamma,
get_alpha and get_amplitude did not pass the argument on.
---
 xboa/bunch/_bunch.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index b066bae..57b4daf 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -930,7 +930,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -958,7 +958,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1024,10 +1024,10 @@ class Bunch:
         emit_var.append(len(coupled_axis_list2)) #mark position of emittance variables
       if ax in coupled_axis_list or ax in emittance_axis_list:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
-    cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
+    cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(coupled_axis_list2)
+      my_cov = self.__cov_mat_picker(coupled_axis_list2, geometric)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
@@ -1105,14 +1105,14 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(axis_list)
+      my_cov = self.__cov_mat_picker(axis_list, geometric)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1189,17 +1189,17 @@ class Bunch:
     if geometric == None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     if mean_dict == {}:   
-      mean_dict = bunch.__mean_picker(axis_list)
+      mean_dict = bunch.__mean_picker(axis_list, geometric)
       if mean_dict == {}:
         mean_dict = bunch.mean(cov_list)
     my_vector = hit.get_vector(cov_list, mean_dict)
     my_cov    = copy.deepcopy( covariance_matrix )
     if my_cov is None:
-      my_cov = bunch.__cov_mat_picker(axis_list)
+      my_cov = bunch.__cov_mat_picker(axis_list, geometric)
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
@@ -1880,9 +1880,10 @@ class Bunch:
   def __dispersion_prime_for_get(self, variable_list):
     return self.get_dispersion_prime(variable_list[0])
 
-  def __cov_mat_picker(self, axis_list):
+  def __cov_mat_picker(self, axis_list, geometric):
     config.has_numpy()
     if self.__covs is None: return None
+    if bool(geometric) != bool(Bunch.__geometric_momentum): return None # stored in the other variables
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
@@ -1895,10 +1896,10 @@ class Bunch:
         covs[2*i,  2*j+1] = self.__covs[2*ind[i],   2*ind[j]+1]
     return covs
 
-  def __mean_picker(self, var_list):
+  def __mean_picker(self, var_list, geometric):
     if self.__means == None or self.__means == {}: return {}
     means = {}
-    all_list = Bunch.axis_list_to_covariance_list(var_list)
+    all_list = Bunch.axis_list_to_covariance_list(var_list, geometric)
     try:
       for var in all_list: means[var] = self.__means[var]
     except:
-- 
2.43.0


From 3bb04ce348d7b12f192e426495199975dadcc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 30/37] fix: get_dispersion_prime follows the geometric setting
 by default

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 57b4daf..e29a5fc 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1009,6 +1009,7 @@ class Bunch:
     ~~~~~~~~~~~~~~~
     would return the dispersion in the y-direction
     """
+    if geometric == None: geometric = Bunch.__geometric_momentum
     mom = Bunch.momentum_variable(axis, geometric)
     return self.moment([mom,'energy'])*self.mean(['energy'])['energy']/self.moment(['energy','energy'])
 
-- 
2.43.0


From 122def4390d57c878cc050a916bfbdd0e05e6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 31/37] fix: transmission_cut compares with the neighbours on
 both sides of a hit

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e29a5fc..600f907 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -877,8 +877,8 @@ class Bunch:
         diff = [abs(hit_list[next_value][i]-hit_value[i]) for i in range(len(hit_value))]
         diff = sum(diff)
         if diff < float_tolerance:   weight = hit[wt]
-      if next_value+1 < len(hit_list):
-        diff = [abs(hit_list[next_value+1][i]-hit_value[i]) for i in range(len(hit_value))]
+      if next_value > 0:
+        diff = [abs(hit_list[next_value-1][i]-hit_value[i]) for i in range(len(hit_value))]
         diff = sum(diff)
         if diff < float_tolerance: weight = hit[wt]
       hit.set(wt, weight)
-- 
2.43.0


From 63a1ede1dca5df36372d6d8e0a8164533240f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 32/37] fix: canonical angular momentum in geometric
 coordinates is taken about zero slopes by default, like the kinetic one

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 600f907..90b14d0 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1131,7 +1131,7 @@ class Bunch:
     else:
       return (self.moment(['x','y\''], rotation_axis_dict) - self.moment(['y','x\''], rotation_axis_dict)) * self.mean(['pz'])['pz']
 
-  def get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x':0, 'y':0}, rotation_axis_dict={'x':0,'y':0,'px':0,'py':0}):
+  def get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x':0, 'y':0}, rotation_axis_dict={'x':0,'y':0,'px':0,'py':0,'x\'':0,'y\'':0}):
     """
     Return the bunch canonical angular momentum about some arbitrary axis, defined by
 
-- 
2.43.0


From be7451295eadae8bc5bea48086c04fddd0dbbc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 33/37] fix: multipole weighting coefficients solved the
 transposed equations, so the weighted moments missed their targets

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..31399e5 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -122,7 +122,7 @@ class MultipoleWeighting(object):
                 list_ij = [list_i[i1]+list_j[i1] \
                                            for i1, index_i in enumerate(list_i)]
                 m_matrix[i, j] = \
-                      self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
+                      self._v_f(list_ij) - self._v_g(list_i) * self._v_f(list_j)
         m_inverse = numpy.linalg.inv(m_matrix)
         u_vector = numpy.zeros([len(self.v_g_index_by_power)])
         for i, list_i in enumerate(self.v_g_index_by_power):
-- 
2.43.0


From 05eac13dab91055b8523338d8db1a6a11625dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 34/37] fix: multipole weighting accepted repeated target
 indices that were not next to each other

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 31399e5..1a56df8 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -102,8 +102,8 @@ class MultipoleWeighting(object):
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
+        for i, item in enumerate(moment_index_list):
+            if item in moment_index_list[:i]:
                raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
-- 
2.43.0


From f1bbd4c49a54828c04070ca295e14e2ee5f511e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 35/37] fix: multipole weighting used a neighbouring moment
 when a target index was outside the moments of the bunch

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 1a56df8..1a8a148 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -135,6 +135,10 @@ class MultipoleWeighting(object):
         Get the element in v_f corresponding to index_list
         """
         index = bisect.bisect_left(self.v_f_index_by_power, index_list)
+        if index == len(self.v_f_index_by_power) or \
+           self.v_f_index_by_power[index] != index_list:
+            raise ValueError("No moment with index "+str(index_list)+\
+                       " for maximum moment "+str(self.maximum_moment))
         v_f_ = self.v_f_list[index]
         return v_f_
 
-- 
2.43.0


From 3fa304c4df29f43c11c2f5abe3e987708d88ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 36/37] fix: refuse indices too large for the core instead of
 using index 0

---
 xboa/core/utils/TypeConversions-inl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..979b8a9 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -24,6 +24,10 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         return false;
     }
     Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    if (py_index == -1 && PyErr_Occurred()) { // too large for an index
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return false;
+    }
     if (py_index < 0) {
         *index = abs(py_index+1);
     } else {
-- 
2.43.0


From a67c3127443ff440ca3bda786b9848b280e22841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 37/37] fix: raise instead of aborting when a core cannot be
 made long enough

---
 xboa/core/pylib/PyBunchcore.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index bd51eeb..a62124d 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -148,7 +148,12 @@ PyObject* set_item(PyObject* self, PyObject *args, PyObject *kwds) {
                                  reinterpret_cast<PyHitcore::PyHitcore*>(py_hc);
 
     // Py_INCREF(py_hc);
-    bc->set_item(index, py_hc_alt->hitcore_);
+    try {
+        bc->set_item(index, py_hc_alt->hitcore_);
+    } catch (std::exception& err) { // no room for that many entries
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return NULL;
+    }
     Py_RETURN_NONE;
 }
 
-- 
2.43.0

