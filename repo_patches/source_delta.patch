From 37af3ee9f9885f2b3accee7f88d4a91404db26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 01/74] fix: use the win_par argument in the Python array
 functions

The apodization parameter of the Gaussian and raised cosine weights was
always 0 whatever the caller passed.
---
 python/src/py_dream_arr_annu.cc   | 2 +-
 python/src/py_dream_arr_circ.cc   | 2 +-
 python/src/py_dream_arr_cylind.cc | 2 +-
 python/src/py_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..1886671 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..60b3b29 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..e407793 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..ae3fd74 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From 8b2bd8ff3e35233051f4d5c83df89d2725ece0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 02/74] fix: do not delay the annular array response one sample
 too much

The ring responses were shifted rint(foc_delay/dt)+1 samples, so even an
unfocused annular array lagged dreamcirc one sample, and a negative user
defined delay wrote before the start of the scratch buffer.
---
 src/dream_arr_annu.cc | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..bfed429 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -460,24 +460,16 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
 void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
                       double weight, double foc_delay, dream_idx_type n, double dt)
 {
-  double *buf = (double*) malloc(2*nt*sizeof(double));
-  for (dream_idx_type i=0; i<2*nt; i++) {
-    buf[i] = 0.0;
-  }
-
-  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
-  for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
-      buf[i + delay_idx] = h_ring[i + n*nt];
-    }
-  }
-
+  // Delay (or advance, for user defined delays < 0) the ring response with a whole number
+  // of samples. Samples that end up outside the SIR window are dropped.
+  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt);
   for (dream_idx_type i=0; i<nt; i++) {
-    h[i] += weight * buf[i];
+    dream_idx_type k = i - delay_idx;
+    if (k >= 0 && k < nt) {
+      h[i] += weight * h_ring[k + n*nt];
+    }
   }
 
-  free(buf);
-
   return;
 }
 
-- 
2.43.0


From 4932e48b00597931d9651f2931af8bdb06c33c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 03/74] fix: apply the documented hann and hamming apodization
 in dream_arr_annu

Both were silently ignored (weight 1).
---
 src/dream_arr_annu.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index bfed429..1e65fc6 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -433,6 +433,17 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
     weight = apod_par + std::cos(ring_r * M_PI / ring_r_max);
     break;
 
+  case ApodMet::hann:
+    weight = 0.5 * (1.0 - std::cos((ring_r+ring_r_max)*M_PI/ring_r_max));
+    break;
+
+  case ApodMet::hamming:
+    {
+      double a0 = 25.0/46.0;
+      weight = a0 - (1.0 - a0) * std::cos((ring_r+ring_r_max)*M_PI/ring_r_max);
+    }
+    break;
+
   case ApodMet::simply_supported:
     weight = 1.0 - ring_r*ring_r / (ring_r_max*ring_r_max);
     break;
-- 
2.43.0


From 70de50b959bfd2f185c6040135deb0714fd8b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 04/74] fix: validate the annular radii vector and count rings
 in the Python dream_arr_annu

A radii vector of even length, or a matrix, was accepted; and the Python
function took the number of rows as the number of elements, so a row
vector was cut to its first radius and user defined delays and weights
needed one entry per radius instead of one per ring.
---
 include/arg_parser.h            | 2 +-
 include/arg_parser_python.h     | 3 +--
 python/src/py_dream_arr_annu.cc | 6 +++---
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..31d8b5f 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -109,7 +109,7 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    if ( ((get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1)) || (get_m(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..aa30657 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -116,8 +116,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    if ( ((get_m(py_G) != 1) && (get_n(py_G) != 1)) || (get_m(py_G)*get_n(py_G) % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 1886671..6bb05b6 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -75,10 +75,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = (dream_idx_type) G_info.size;
+  dream_idx_type num_elements = (num_radii+1)/2; // The number of rings.
 
   //
   // Temporal and spatial sampling parameters.
@@ -178,7 +178,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From afc03397487b6c8a7824bd90a2905696809c58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 05/74] fix: report out-of-bounds events of single-threaded
 runs and of dreamsphere

With one thread (one observation point, or DREAM_NUM_THREADS=1) the error
status was dropped: no err output, no warning, and 'stop' claimed that
CTRL-C was pressed. dreamsphere only passed on 'stop' errors.
---
 extra_src/das.cc        | 1 +
 src/dream_arr_annu.cc   | 1 +
 src/dream_arr_circ.cc   | 1 +
 src/dream_arr_cylind.cc | 1 +
 src/dream_arr_rect.cc   | 1 +
 src/dreamcirc.cc        | 1 +
 src/dreamcirc_f.cc      | 1 +
 src/dreamcylind.cc      | 1 +
 src/dreamline.cc        | 1 +
 src/dreamrect.cc        | 1 +
 src/dreamrect_f.cc      | 1 +
 src/dreamsphere.cc      | 7 ++++---
 12 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..ad0cc05 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -273,6 +273,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_das(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 1e65fc6..b62f57b 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -607,6 +607,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_annu(&D[0]);
+      err = D[0].err;
     }
 
   }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..683193e 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -404,6 +404,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_circ(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..8b37da5 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -412,6 +412,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_cylind(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..37e315a 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -408,6 +408,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_rect(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..35609a0 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -250,6 +250,7 @@ SIRError Circ::dreamcirc(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_circ(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..82d1130 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -251,6 +251,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_circ_f(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..949fbec 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -248,6 +248,7 @@ SIRError Cylind::dreamcylind(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_cylind(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..b718316 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -235,6 +235,7 @@ SIRError Line::dreamline(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_line(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..e292ed3 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -247,6 +247,7 @@ SIRError Rect::dreamrect(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_rect(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..23bcd48 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -251,6 +251,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_rect_f(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..204d4b0 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -246,6 +246,7 @@ SIRError Sphere::dreamsphere(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_sphere(&D[0]);
+      err = D[0].err;
     }
   }
 
@@ -254,9 +255,9 @@ SIRError Sphere::dreamsphere(double alpha,
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
       threads[thread_n].join();
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
+      // Check if one of the threads had an out-of-bounds event.
+      if (D[thread_n].err != SIRError::none) {
+        err = D[thread_n].err;
       }
 
     }
-- 
2.43.0


From 2cc0f55f682180e0c8688d2325c17e4f10b117fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 06/74] fix: keep the error status of all array elements

An out-of-bounds event of one element was forgotten when a later element
(or disc of an annular array) was within the SIR window, so the err output
and the warning were lost.
---
 src/dream_arr_annu.cc   | 14 ++++++++++++--
 src/dream_arr_circ.cc   | 14 ++++++++++++--
 src/dream_arr_cylind.cc | 14 ++++++++++++--
 src/dream_arr_rect.cc   | 14 ++++++++++++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index b62f57b..d0779ad 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -194,6 +194,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
   verbose_err_messages = false;
 
   // NB. The first ring have no inner radius (it is a normal
@@ -234,6 +235,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                              delay,
                              v, cp, &h_disc[n*nt], err_level);
 
+      if (err != SIRError::none) {
+        arr_err = err;
+      }
+
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
       }
@@ -265,7 +270,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -280,6 +285,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
 
   // NB. The first ring have no inner radius (it is a normal
   // circular disc).
@@ -318,6 +324,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                              delay,
                              v, cp, &h_disc[n*nt], err_level);
 
+      if (err != SIRError::none) {
+        arr_err = err;
+      }
+
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
       }
@@ -349,7 +359,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 683193e..23bcd08 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -200,6 +200,7 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -232,13 +233,17 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                            err_level,
                            weight);
 
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -253,6 +258,7 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -289,13 +295,17 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                            h,
                            err_level,
                            weight);
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 8b37da5..b3a769a 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -209,6 +209,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -240,13 +241,17 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                              h,
                              err_level,
                              weight);
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
@@ -263,6 +268,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
 
   double r_max, x_max, y_max;
   max_dim_arr(&x_max, &y_max, &r_max, gx, gy, gz, num_elements);
@@ -295,13 +301,17 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                              err_level,
                              weight);
 
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 37e315a..316016f 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -201,6 +201,7 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -234,13 +235,17 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                            weight);
 
 
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -255,6 +260,7 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none; // Error status for all elements.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -292,13 +298,17 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                            err_level,
                            weight);
 
+    if (err != SIRError::none) {
+      arr_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
-- 
2.43.0


From a56601314c92dc2d6ad232480ac42ee69e489583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/74] fix: keep argument matrices alive while the Octave
 gateways read them

get_data() returned a pointer into a temporary that was already freed when
the argument was not a plain matrix (a scalar or a range), for example the
user defined weights of a one-element array.
---
 include/arg_parser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 31d8b5f..e5a6b7d 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -28,6 +28,7 @@
 #include <cstring>
 #include <cstdarg>
 #include <memory>
+#include <vector>
 
 #include "dream.h"
 #include "dream_error.h"
@@ -604,7 +605,9 @@ public:
   };
 
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
+    // Scalars, ranges, etc. are converted to a temporary matrix so keep it alive.
+    m_tmp_mats.push_back(args(arg_num).matrix_value());
+    const Matrix &tmp_mat = m_tmp_mats.back();
     return (double*) tmp_mat.data();
   };
 
@@ -657,4 +660,10 @@ public:
     return s.str();
   };
 #endif
+
+#ifdef DREAM_OCTAVE
+private:
+
+  std::vector<Matrix> m_tmp_mats; // Matrices referenced by get_data().
+#endif
 };
-- 
2.43.0


From 8098f1c07e3f44a2cfdbc689979ad5858777a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 08/74] fix: let dream_att place the response at the nearest
 sample

The transducer functions use the sample nearest to the propagation time, but
dream_att truncated and added one (a left over from one-based indexing), so the
attenuation response came up to one sample too late.
---
 oct/oct_dream_att.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oct/oct_dream_att.cc b/oct/oct_dream_att.cc
index 9351f7a..7c39c0a 100644
--- a/oct/oct_dream_att.cc
+++ b/oct/oct_dream_att.cc
@@ -184,7 +184,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         zo = Ro[n+2*No];
 
         r = std::sqrt(xo*xo + yo*yo + zo*zo);
-        it = (int) ( (r * 1.0e3/cp - delay[0])/dt + 1);
+        it = (int) std::rint((r * 1.0e3/cp - delay[0])/dt);
         att.att(xc, x, r, it, &h[n*nt], 1.0);
       }
     } else {
@@ -194,7 +194,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         zo = Ro[n+2*No];
 
         r = std::sqrt(xo*xo + yo*yo + zo*zo);
-        it = (int) ( (r*1.0e3/cp - delay[n])/dt + 1);
+        it = (int) std::rint((r*1.0e3/cp - delay[n])/dt);
         att.att(xc, x, r, it, &h[n*nt], 1.0);
       }
     }
-- 
2.43.0


From d1ffd3f13a976d9ba1d3054dcca68ecc5b819d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 09/74] fix: rect_sir: use the fourth sub-rectangle and the
 normal velocity

Inside the aperture the fourth sub-rectangle repeated the first one, which is
only right on the x axis, and the normal velocity v was never applied.
---
 extra_src/rect_sir.cc | 4 ++--
 opencl/rect_sir.cl    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..411e15f 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -288,7 +288,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
@@ -415,7 +415,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..2353149 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From f25f2905d9230e6a6ed86147528e78db7e821740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 10/74] fix: no NaN in the analytic responses when the wave
 just reaches an edge

Round-off makes the arccos argument slightly larger than one (or 0/0) at
samples that coincide with the arrival from an aperture edge.
---
 extra_src/circ_sir.cc | 18 ++++++++++++++++--
 extra_src/rect_sir.cc | 17 +++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/extra_src/circ_sir.cc b/extra_src/circ_sir.cc
index cee1694..5790357 100644
--- a/extra_src/circ_sir.cc
+++ b/extra_src/circ_sir.cc
@@ -26,6 +26,20 @@
 #include "circ_sir.h"
 #include "dream_error.h"
 
+//
+// acos(num/den) where round-off can make the argument slightly larger than one (or 0/0)
+// when the wave just reaches, or just leaves, the aperture edge.
+//
+
+static double acos_arc(double num, double den)
+{
+  if (num >= den) {
+    return (num > 0.0) ? 0.0 : M_PI/2.0;
+  }
+
+  return (num <= -den) ? M_PI : std::acos(num/den);
+}
+
 /***
  *
  *  Subroutine circ_sir - Continous spatial impulse response for a circular aperture.
@@ -77,7 +91,7 @@ void circ_sir(double xo_i,
         h[it] = v * cp;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * acos_arc(cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r, 2.0*r_cyl*std::sqrt(std::fmax(cp*t*cp*t-zo*zo, 0.0)));
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
@@ -90,7 +104,7 @@ void circ_sir(double xo_i,
         h[it] = 0.0;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * acos_arc(cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r, 2.0*r_cyl*std::sqrt(std::fmax(cp*t*cp*t-zo*zo, 0.0)));
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 411e15f..897c597 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -226,6 +226,19 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   return m_out_err;
 }
 
+//
+// acos(d/rho) for d <= rho where round-off can make d/rho larger than one (or 0/0).
+//
+
+static double acos_edge(double d, double rho)
+{
+  if (d <= 0.0) {
+    return M_PI/2.0;
+  }
+
+  return (d < rho) ? std::acos(d/rho) : 0.0;
+}
+
 /***
  *
  *  Subroutine rect_sir - Continous spatial impulse response for a rectangular aperture.
@@ -410,10 +423,10 @@ void RectSir::rect_sir_serial(double xo_i,
         a_k += cp/4;
 
       if ( (t >= tau_2) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( s_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * acos_edge( s_k, cp * std::sqrt(t*t - t_z*t_z));
 
       if ( (t >= tau_3) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * acos_edge( l_k, cp * std::sqrt(t*t - t_z*t_z));
 
       h[it] += v * g_k * a_k;
 
-- 
2.43.0


From c4388383513918336366c68980dcc9059cdb4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 11/74] fix: keep argument matrices alive while the Octave das
 reads them

---
 extra_src/oct_das.cc | 45 ++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..7c08d85 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -204,11 +204,16 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   float *Yf = nullptr;
   double *Yd = nullptr;
 
+  // The matrices are declared outside the if-blocks, here and below, since the data
+  // pointers are only valid as long as the matrices exist.
+  FloatMatrix tmp0f;
+  Matrix tmp0d;
+
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -225,12 +230,14 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   const float *Gt_f=nullptr;
   const double *Gt_d=nullptr;
+  FloatMatrix tmp1f;
+  Matrix tmp1d;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -241,6 +248,8 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   dream_idx_type num_r_elements = 0;
   const float *Gr_f = nullptr;
   const double *Gr_d = nullptr;
+  FloatMatrix tmp2f;
+  Matrix tmp2d;
 
   if (mxGetM(2) != 0) {         // SAFT is using an empty Gr.
 
@@ -252,10 +261,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -275,12 +284,14 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   const float *Ro_f = nullptr;
   const double *Ro_d = nullptr;
+  FloatMatrix tmp3f;
+  Matrix tmp3d;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -295,13 +306,15 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   float dt_f = 0.0;
   double dt_d = 0.0;
+  FloatMatrix tmp4f;
+  Matrix tmp4d;
 
   if (use_float) {
-    const FloatMatrix tmp4f= args(4).float_matrix_value();
+    tmp4f = args(4).float_matrix_value();
     const float *s_par_f = tmp4f.data();
     dt_f = s_par_f[0];
   } else {
-    const Matrix tmp4d = args(4).matrix_value();
+    tmp4d = args(4).matrix_value();
     const double *s_par_d = (double*) tmp4d.data();
     dt_d = s_par_d[0];
   }
@@ -321,12 +334,14 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
+  FloatMatrix tmp5f;
+  Matrix tmp5d;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -343,13 +358,15 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Sound speed.
   float cp_f = 0.0;
   double cp_d = 0.0;
+  FloatMatrix tmp6f;
+  Matrix tmp6d;
 
   if (use_float) {
-    const FloatMatrix tmp6f = args(6).float_matrix_value();
+    tmp6f = args(6).float_matrix_value();
     const float *m_par_f = tmp6f.data();
     cp_f = m_par_f[0];
   } else {
-    const Matrix tmp6d = args(6).matrix_value();
+    tmp6d = args(6).matrix_value();
     const double *m_par_d = (double*) tmp6d.data();
     cp_d = m_par_d[0];
   }
-- 
2.43.0


From 26ffbfd5599a0dbc53c52b3ec878cde5b1ada8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 12/74] fix: keep argument matrices alive while the Octave
 das_uni reads them

---
 extra_src/oct_das_uni.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index f851617..f00cf49 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -182,11 +182,15 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const float *Yf = nullptr;
   const double *Yd = nullptr;
 
+  // The matrices must be alive as long as the data pointers are used.
+  FloatMatrix tmp0f;
+  Matrix tmp0d;
+
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -324,12 +328,14 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
 
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
+  FloatMatrix tmp5f;
+  Matrix tmp5d;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
-- 
2.43.0


From 27f84b048706a150a8bf0e77518e23716c7e362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 13/74] fix: use the single precision object in the single
 precision Octave das

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 7c08d85..6ad44fa 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -481,7 +481,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
     std::signal(SIGABRT, DAS<float>::abort);
-- 
2.43.0


From 7ce0a69cc1e57135b959b1a6e9ea968b47e18928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 14/74] fix: use the device argument of das also when verbose
 is given

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 6ad44fa..a2fdd70 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -400,7 +400,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
-- 
2.43.0


From b3f220504db82bf9de0100c5185f3443f1179aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 15/74] fix: use the right element counts for the RCA stripe
 edges

The edges of the column stripes are given by the first and last row, and vice
versa, so the old code read the wrong (or no) elements when the number of rows
and columns differ.
---
 extra_src/das.cc     | 12 ++++++------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index ad0cc05..09e01a5 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -462,10 +462,10 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -558,10 +558,10 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From cd1f5cf2500ddd66bd7d990e198cf56d03abd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 16/74] fix: accept the gpu device in the Python das and reject
 unknown devices

---
 python/include/py_das.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..f4d2dc8 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -143,7 +143,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From aa2a5a31526d12c56abe3703291f8a11e1a9cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 17/74] fix: make the verbose argument of the Python das
 optional

The tests and benchmarks call das without it.
---
 python/src/py_das.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index 3c23496..18f9ac1 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -58,7 +58,7 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("verbose"));
+        py::arg("verbose") = "");
 }
 
 #else
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("vebose"));
+        py::arg("verbose") = "");
 }
 #endif
-- 
2.43.0


From 40aef6939b2f92a93cd30edabfc0dc126214385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 18/74] fix: tell about the out-of-bounds event in the
 exception of the Python das

---
 python/include/py_das.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index f4d2dc8..ed4093c 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -228,11 +228,11 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
         dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
+        throw std::runtime_error("DAS out-of-bounds!\n");
       } else {
         dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+        throw std::runtime_error("CTRL-C pressed!\n");
       }
-
-      throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
     }
 
 #ifdef USE_OPENCL
-- 
2.43.0


From 8af1782673756be667741e84f84c3ddf91c7ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 19/74] fix: require an A-scan for each transmit-receive
 combination in das

Otherwise the processing reads beyond the data matrix.
---
 extra_src/oct_das.cc      | 6 ++++++
 python/include/py_das.hpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index a2fdd70..4ecea2c 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -380,6 +380,12 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // Check that there is an A-scan for each transmit-receive combination.
+  if (mxGetN(0) < num_t_elements*((das_type == DASType::saft || num_r_elements == 0) ? 1 : num_r_elements)) {
+    error("Argument 1 must have one column (A-scan) for each transmit-receive combination!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index ed4093c..4d6f568 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -91,6 +91,11 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // Check that there is an A-scan for each transmit-receive combination.
+  if (ap.get_n(py_Y) < num_t_elements*(num_r_elements > 0 ? num_r_elements : 1)) {
+    throw std::runtime_error("Argument 1 must have one column (A-scan) for each transmit-receive combination!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From ba1a9dee7ecdd6113237f3f84cc01a59bb33a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 20/74] fix: handle one-dimensional and scalar numpy arrays in
 the Python argument checks

The number of columns was read beyond the end of the shape vector.
---
 include/arg_parser_python.h       | 13 +++++--------
 python/src/py_dream_arr_annu.cc   |  4 ++--
 python/src/py_dream_arr_circ.cc   |  4 ++--
 python/src/py_dream_arr_cylind.cc |  4 ++--
 python/src/py_dream_arr_rect.cc   |  4 ++--
 python/src/py_dreamcirc.cc        |  4 ++--
 python/src/py_dreamcirc_f.cc      |  4 ++--
 python/src/py_dreamcylind.cc      |  4 ++--
 python/src/py_dreamline.cc        |  4 ++--
 python/src/py_dreamrect.cc        |  4 ++--
 python/src/py_dreamrect_f.cc      |  4 ++--
 python/src/py_dreamsphere.cc      |  4 ++--
 12 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index aa30657..745946b 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -84,8 +84,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info ro_info = py_ro->request();
-    auto ro_n = ro_info.shape[1];
+    auto ro_n = get_n(py_ro);
 
     if (ro_n != 3) {
       s << func_name <<  " requires that observation point arg must be a (number of observation points) x 3 matrix!";
@@ -100,8 +99,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info G_info = py_G->request();
-    auto G_n = G_info.shape[1];
+    auto G_n = get_n(py_G);
 
     if ( G_n != 3 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
@@ -591,22 +589,21 @@ public:
 
   dream_idx_type get_m(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto m = py_arg_info.shape[0];
+    auto m = py_arg_info.ndim > 0 ? py_arg_info.shape[0] : 1; // A scalar has no dimensions.
 
     return (dream_idx_type) m;
   };
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = py_arg_info.shape[1];
+    auto n = py_arg_info.ndim > 1 ? py_arg_info.shape[1] : 1; // A vector has just one dimension.
 
     return (dream_idx_type) n;
   };
 
   // Assume vector here. We do not care it is a row or column vector.
   dream_idx_type get_len(const py::array_t<T,py::array::f_style> *py_arg) {
-    py::buffer_info py_arg_info = py_arg->request();
-    auto len = py_arg_info.shape[0] * py_arg_info.shape[1];
+    auto len = get_m(py_arg) * get_n(py_arg);
 
     return (dream_idx_type) len;
   };
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 6bb05b6..481b17b 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -99,8 +99,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 60b3b29..45305c4 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index e407793..0db5ce3 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index ae3fd74..ef46e14 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 6cc4009..45290f7 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index ac66b1f..29eaaca 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -92,8 +92,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 1e8b19f..6544a51 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f0d8591..3403bb3 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index be1e020..2676e73 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 5e4223e..ae7505e 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -92,8 +92,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index c3bee38..0a9e415 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-- 
2.43.0


From 980a87e11f4f2880e30983c2f297317adc4b144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 21/74] fix: compensate for the pulse system delay once in SAFT

The delay was added to the one-way travel time and then doubled, so the SAFT image
was displaced compared with a TFM image of the same data.
---
 extra_src/das.cc         | 2 +-
 opencl/das_double.cl     | 2 +-
 opencl/das_float.cl      | 2 +-
 opencl/das_uni_double.cl | 2 +-
 opencl/das_uni_float.cl  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 09e01a5..a4e7ccc 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -331,9 +331,9 @@ SIRError DAS<T>::das_saft_serial(const T *Y, // Size: a_scan_len x num_elements
     T gy_tr = g[n_tr + 1*num_elements] - yo;
     T gz_tr = g[n_tr + 2*num_elements] - zo;
     T t_tr =  std::sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp;
-    t_tr += delay_ms;           // Compensate for pulse system delay.
 
     T t_dp = 2.0*t_tr; // Double-path travel time.
+    t_dp += delay_ms;           // Compensate for pulse system delay.
     auto k = dream_idx_type(t_dp*Fs_khz);
 
     if ((k < a_scan_len) && (k >= 0)) {
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index b7daf59..891df09 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -35,9 +35,9 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
     DAS_DATATYPE gy_tr = G[n_tr + 1*num_elements] - yo;
     DAS_DATATYPE gz_tr = G[n_tr + 2*num_elements] - zo;
     DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
-    t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
+    t_dp += delay_ms;           // Compensate for pulse system delay.
     int k = (int) (t_dp*Fs_khz);
 
     if ((k < a_scan_len) && (k >= 0)) {
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index 3fc582c..3d5ed1a 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -36,9 +36,9 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
     DAS_DATATYPE gy_tr = G[n_tr + 1*num_elements] - yo;
     DAS_DATATYPE gz_tr = G[n_tr + 2*num_elements] - zo;
     DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
-    t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
+    t_dp += delay_ms;           // Compensate for pulse system delay.
     int k = (int) (t_dp*Fs_khz);
 
     if ((k < a_scan_len) && (k >= 0)) {
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 91d622e..33c0f74 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -60,9 +60,9 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     //DAS_DATATYPE gy_tr = yo; // Assume y_tr = 0.0;
     //DAS_DATATYPE gz_tr = zo; // Assume z_tr = 0.0;
     DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
-    t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
+    t_dp += delay_ms;           // Compensate for pulse system delay.
     int k = (int) (t_dp*Fs_khz);
 
     if ((k < a_scan_len) && (k >= 0)) {
diff --git a/opencl/das_uni_float.cl b/opencl/das_uni_float.cl
index 66ad315..e7026bd 100644
--- a/opencl/das_uni_float.cl
+++ b/opencl/das_uni_float.cl
@@ -61,9 +61,9 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     //DAS_DATATYPE gy_tr = yo; // Assume y_tr = 0.0;
     //DAS_DATATYPE gz_tr = zo; // Assume z_tr = 0.0;
     DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
-    t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
+    t_dp += delay_ms;           // Compensate for pulse system delay.
     int k = (int) (t_dp*Fs_khz);
 
     if ((k < a_scan_len) && (k >= 0)) {
-- 
2.43.0


From 06aa3d479bbcf6fdee07ee16c6ada6735a0747ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 22/74] fix: let the in-place modes of fftconv_ola replace, add
 to, or subtract from Y

---
 extra_src/oct_fftconv_ola.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..d29bace 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -90,6 +90,7 @@ void* smp_dream_fftconv_ola(void *arg)
   dream_idx_type A_M = D.A_M, B_M = D.B_M, B_N = D.B_N;
   dream_idx_type block_len = D.block_len;
   ConvMode conv_mode = D.conv_mode;
+  const double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
   dream_idx_type fft_len = block_len + B_M - 1;
 
   // Input vectors.
@@ -122,6 +123,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) { // Replace the old contents.
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +142,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +160,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +171,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -194,6 +199,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) { // Replace the old contents.
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +215,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +233,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +242,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
-- 
2.43.0


From e6839b2430206a40149cfb57736fc65fd0ffa96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 23/74] fix: fftconv_ola: do not skip columns when B is a
 vector

---
 extra_src/oct_fftconv_ola.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index d29bace..e198ee7 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -259,8 +259,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
-- 
2.43.0


From e5888e9af1a3f664a6db8d23d4e8ff10f912995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 24/74] fix: reject a zero block length in fftconv_ola

---
 extra_src/oct_fftconv_ola.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index e198ee7..188973d 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -421,7 +421,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From 07431ab88c4f46619e701daf9eb74ec76be0a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 25/74] fix: sum_fftconv: a one-row U holds one sample per
 input

---
 extra_src/oct_sum_fftconv.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..04823ea 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -333,11 +333,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
-- 
2.43.0


From 7123ed0d7af51d4e04fdc4007bdfc5626a2c7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 26/74] fix: tell FFTW wisdom strings from other strings

---
 include/fft.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fft.h b/include/fft.h
index 6d99259..119014b 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -173,8 +173,8 @@ class FFT
   bool import_wisdom(char *str) {return fftw_import_wisdom_from_string(str);}
   bool import_wisdom(std::string str) {return fftw_import_wisdom_from_string(str.c_str());}
   void forget_wisdom() {fftw_forget_wisdom();}
-  bool is_wisdom(char *str) {return std::strcmp("fftw_wisdom",str);}
-  bool is_wisdom(std::string str) {return std::strcmp("fftw_wisdom",str.c_str());}
+  bool is_wisdom(char *str) {return std::strstr(str, "fftw_wisdom") != nullptr;}
+  bool is_wisdom(std::string str) {return str.find("fftw_wisdom") != std::string::npos;}
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
     std::string w_str(str);
-- 
2.43.0


From 01d0b2ed237e01bc753b1ee9eaf4fe0a8c4fa968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 27/74] fix: obey the mode of in-place FFT convolutions also
 when wisdom is given

---
 extra_src/oct_fftconv_ola.cc | 20 +++++++++++++++++---
 extra_src/oct_fftconv_p.cc   | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 188973d..3dce3e3 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -512,7 +512,21 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     break;
 
   case 6: // In-place mode if 6 input args.
-    if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
+    if ( args(4).is_string() && args(5).is_string() ) { // 5th arg is a mode string and 6:th arg fftw wisdom.
+
+      // Read the in-place mode string.
+      std::string ip_mode = args(4).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 5!");
+        return oct_retval;
+      }
 
       // Read the wisdom string.
       wisdom_str = args(5).string_value();
@@ -523,8 +537,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
       } else {
         load_wisdom = true;
       }
-    } else { // 6th arg not a string
-      error("Argument 6 is not a valid string format!");
+    } else { // 5th or 6th arg not a string
+      error("Arguments 5 and 6 are not in a valid string format!");
       return oct_retval;
     }
     break;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..db2ba78 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -391,7 +391,21 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 5: // In-place mode if input 5 args.
-    if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
+    if ( args(3).is_string() && args(4).is_string() ) { // 4th arg is a mode string and 5:th arg FFTW wisdom.
+
+      // Read the in-place mode string.
+      std::string ip_mode = args(3).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 4!");
+        return oct_retval;
+      }
 
       // Read the wisdom string.
       wisdom_str = args(4).string_value();
@@ -403,8 +417,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         load_wisdom = true;
       }
 
-    } else { // 5th arg not a string
-      error("Argument 5 is not a valid string format!");
+    } else { // 4th or 5th arg not a string
+      error("Arguments 4 and 5 are not in a valid string format!");
       return oct_retval;
     }
     break;
-- 
2.43.0


From 42650209d2630e4f4287c0618ca14689cec950f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 28/74] fix: let copy_p and add_p touch the columns of B only

---
 extra_src/oct_add_p.cc  | 10 +++++-----
 extra_src/oct_copy_p.cc | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..f56ffe5 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -264,9 +264,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -311,8 +311,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..215129b 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -262,9 +262,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -309,8 +309,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From 3768781a5275d5c330cf2ea867b1bdc89423c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 29/74] fix: check the start indices in copy_p and add_p

---
 extra_src/oct_add_p.cc  | 4 ++--
 extra_src/oct_copy_p.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index f56ffe5..d838fea 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -211,7 +211,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
+  if ( (octave_idx_type) r[0] < 1 || r[1] < r[0]) {
     error("1st element of argument 2 must be > 1!");
     return oct_retval;
   }
@@ -227,7 +227,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
+  if ( (octave_idx_type) k[0] < 1 || k[1] < k[0]) {
     error("1st element of argument 3 must be > 1!");
     return oct_retval;
   }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 215129b..8d03211 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -209,7 +209,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
+  if ( (octave_idx_type) r[0] < 1 || r[1] < r[0]) {
     error("1st element of argument 2 must be > 1!");
     return oct_retval;
   }
@@ -225,7 +225,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
+  if ( (octave_idx_type) k[0] < 1 || k[1] < k[0]) {
     error("1st element of argument 3 must be > 1!");
     return oct_retval;
   }
-- 
2.43.0


From 24275ebe3d56417c033d86aba330580f2b78ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 30/74] fix: do not write a 1x1 convolution to freed memory

An octave_value made from an 1x1 Matrix is narrowed to a scalar, which copies
the (not yet computed) sample and frees the matrix that the result then was
written to.
---
 extra_src/oct_conv_p.cc      | 10 +++++++---
 extra_src/oct_fftconv_ola.cc | 10 +++++++---
 extra_src/oct_fftconv_p.cc   | 10 +++++++---
 extra_src/oct_sum_fftconv.cc | 10 +++++++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..8d25bc3 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -164,6 +164,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   DATA *D = nullptr;
   ConvMode conv_mode = ConvMode::equ;
 
+  Matrix Ymat; // Output data in normal mode.
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -299,11 +300,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     // Normal (non in-place) mode.
     //
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat.resize(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
-    oct_retval.append(Ymat);
-
   } else {
 
     //
@@ -404,5 +403,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // An 1x1 matrix is copied when it is returned so append it when it is computed.
+  if (nrhs == 2) {
+    oct_retval.append(Ymat);
+  }
+
   return oct_retval;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 3dce3e3..49ba7ba 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -355,6 +355,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   dream_idx_type block_len;
   ConvMode conv_mode=ConvMode::equ;
 
+  Matrix Ymat; // Output data in normal mode.
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -615,13 +616,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
 
     // Allocate mamory for the output matrix.
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat.resize(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -723,6 +722,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // An 1x1 matrix is copied when it is returned so append it when it is computed.
+  if (nrhs == 3 || (nrhs == 4 && load_wisdom)) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index db2ba78..6a8ae73 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -251,6 +251,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   bool return_wisdom = false, load_wisdom = false;
   bool is_set = false;
   ConvMode conv_mode=ConvMode::equ;
+  Matrix Ymat; // Output data in normal mode.
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -486,13 +487,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat.resize(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -604,6 +603,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // An 1x1 matrix is copied when it is returned so append it when it is computed.
+  if (nrhs == 2 || (nrhs == 3 && load_wisdom)) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 04823ea..7e5b76f 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -270,6 +270,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   bool return_wisdom = false, load_wisdom = false;
   ConvMode conv_mode=ConvMode::equ;
 
+  Matrix Ymat; // Output data in normal mode.
   octave_value_list oct_retval;
 
   int nrhs = args.length();
@@ -452,14 +453,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
 
-    Matrix Ymat(fft_len, H_N);
+    Ymat.resize(fft_len, H_N);
     Y = (double*) Ymat.data();
 
     // Clear output in normal mode
     SIRData ymat(Y, fft_len, H_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -568,6 +567,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free(H);
   }
 
+  // An 1x1 matrix is copied when it is returned so append it when it is computed.
+  if (nrhs == 2 || (nrhs == 3 && load_wisdom)) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From c582d4a4e9b562c0c4c2876954aa503b4f6dba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 31/74] fix: dream_apodwin: return ones for 'off' and the given
 weights for 'ud'

The window was left uninitialized for 'off', and the first weight was taken as
the number of weights for 'ud'.
---
 oct/oct_dream_apodwin.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..7bb0eb8 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -108,7 +108,15 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   //
 
   const Matrix tmp1 = args(1).matrix_value();
-  dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  dream_idx_type num_elements = tmp1.numel(); // A vector of weights for the 'ud' option.
+  if (num_elements > 0 && !(args(0).is_string() && args(0).string_value() == "ud")) {
+    num_elements = (dream_idx_type) tmp1.data()[0];
+  }
+
+  if (num_elements < 1) {
+    dream_err_msg("dream_apodwin needs a window of at least one sample!");
+    return oct_retval;
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -126,12 +134,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   double weight = 1.0;
   double ramax = 1.0;
   double ys = 0.0;
-  if (do_apod) {
-    for (dream_idx_type n=0; n<num_elements; n++) {
+  for (dream_idx_type n=0; n<num_elements; n++) {
+    if (do_apod) {
       double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
-      h[n] = weight;
     }
+    h[n] = weight;
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From 7c443f3de1dfea01de5498e18e66cf14289a71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 32/74] fix: reject an empty delay vector

The first element of an empty delay vector was read. Also print the message
for a delay vector of wrong length, which was left out.
---
 include/arg_parser.h        |  9 +++------
 include/arg_parser_julia.h  |  4 ++--
 include/arg_parser_python.h | 10 +++-------
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index e5a6b7d..d95977b 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -239,12 +239,9 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
-        s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    if ( (delay_len < 1) || ((delay_len > 1) && (delay_len != No)) ) { // delay is empty or a vector
+      s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
diff --git a/include/arg_parser_julia.h b/include/arg_parser_julia.h
index fe026ff..bacd33a 100644
--- a/include/arg_parser_julia.h
+++ b/include/arg_parser_julia.h
@@ -267,8 +267,8 @@ public:
 
     //dream_idx_type delay_len = get_m(jl_focal)*get_n(jl_focal);
     dream_idx_type delay_len = get_len(jl_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-      s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
+    if ( (delay_len < 1) || ((delay_len > 1) && (delay_len != No)) ) { // delay is empty or a vector
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
       s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 745946b..96cd38e 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -256,13 +256,9 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
-            (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-        s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    if ( (delay_len < 1) || ((delay_len > 1) && (delay_len != No)) ) { // delay is empty or a vector
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
-- 
2.43.0


From 9e1c8de3fb5ab7a19320e6fbdf4550bc351e922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 33/74] fix: tell what is wrong with user defined focusing and
 apodization vectors

A vector of the wrong length was rejected without any message, and the
Octave functions then returned as if all was well.
---
 include/arg_parser.h        | 2 ++
 include/arg_parser_python.h | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d95977b..f227840 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -510,6 +510,7 @@ public:
         // Vector of apodization weights.
         if (get_m(args, arg_num+1) * get_n(args, arg_num+1) != num_elements) {
           s << func_name <<  " the length of argument arg " << arg_num+1 << " (apodization vector) must be the same as the number of array elements!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         } else { // Copy the user defined apodization weights.
           double *tmp_apod = get_data(args, arg_num+1);
@@ -517,6 +518,7 @@ public:
             std::memcpy(apod, tmp_apod, num_elements*sizeof(double));
           } else {
             s << func_name << " apodization vector not initialzed!";
+            dream_err_msg(s.str().c_str());
             retval=false;
           }
         }
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 96cd38e..02fdc3d 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -347,6 +347,7 @@ public:
       if (get_m(py_focal) * get_n(py_focal) != num_elements) {
         s << func_name <<  " the time delay vector arg for user defined ('ud') focusing\n!";
         s << "delays must have the same length as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_focal = get_data(py_focal);
@@ -354,6 +355,7 @@ public:
           std::memcpy(focal, tmp_focal, num_elements*sizeof(T));
         } else {
           s << func_name << " focal vector not initialzed!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         }
       }
@@ -499,6 +501,7 @@ public:
       // Vector of apodization weights.
       if (get_m(py_apod) * get_n(py_apod) != num_elements) {
         s << func_name <<  " the length of apodization vector argument must be the same as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_apod = get_data(py_apod);
@@ -506,6 +509,7 @@ public:
           std::memcpy(apod, tmp_apod, num_elements*sizeof(T));
         } else {
           s << func_name << " apodization vector not initialzed!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         }
       }
@@ -567,7 +571,7 @@ public:
     if (is_set == false) {
       retval=false;
       s << func_name <<  " Unknown delay-and-sum method!";
-      //dream_err_msg(s.str().c_str());
+      dream_err_msg(s.str().c_str());
     }
 
     return retval;
-- 
2.43.0


From ac4dbcd90e42f3e20744be8766e6ab6635da462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 34/74] fix: dream_arr_annu: drop rings that are delayed beyond
 any window

---
 src/dream_arr_annu.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index d0779ad..a5aaa22 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -483,6 +483,9 @@ void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
 {
   // Delay (or advance, for user defined delays < 0) the ring response with a whole number
   // of samples. Samples that end up outside the SIR window are dropped.
+  if (!(std::fabs(foc_delay) < double(nt) * dt + dt)) {
+    return; // All samples end up outside the window.
+  }
   dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt);
   for (dream_idx_type i=0; i<nt; i++) {
     dream_idx_type k = i - delay_idx;
-- 
2.43.0


From 23680f5c7464fc01227d7d8a7a6f2b9a57a7e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 35/74] fix: reject responses with less than one time sample

An attenuated response with no (or a negative number of) samples was
computed in too small buffers.
---
 extra_src/oct_rect_sir.cc   |  4 ++++
 include/arg_parser.h        | 12 ++++++++++++
 include/arg_parser_python.h |  6 ++++++
 oct/oct_dream_att.cc        |  4 ++++
 4 files changed, 26 insertions(+)

diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..1a91793 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -146,6 +146,10 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   const Matrix tmp2 = args(2).matrix_value();
   double *s_par = (double*) tmp2.data();
+  if (!(s_par[1] >= 1.0)) {
+    error("rect_sir: There must be at least one time sample!");
+    return oct_retval;
+  }
   double dt = s_par[0]; // Temporal discretization size (= 1/sampling freq).
   dream_idx_type nt = (dream_idx_type) s_par[1];	// Length of SIR.
 
diff --git a/include/arg_parser.h b/include/arg_parser.h
index f227840..d08acc6 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -178,6 +178,12 @@ public:
       retval=false;
     }
 
+    if (retval && !(get_data(args, arg_num)[num_pars-1] >= 1.0)) {
+      s << func_name <<  " requires that arg " << arg_num+1 << " (sampling) has at least one time sample!";
+      dream_err_msg(s.str().c_str());
+      retval=false;
+    }
+
     return retval;
   };
 
@@ -191,6 +197,12 @@ public:
       retval=false;
     }
 
+    if (retval && !(get_data(args, arg_num)[num_pars-1] >= 1.0)) {
+      s << func_name <<  " requires that arg " << arg_num+1 << " (sampling) has at least one time sample!";
+      dream_err_msg(s.str().c_str());
+      retval=false;
+    }
+
     if (retval) {
       dx = get_data(args, arg_num)[0]; // Spatial x-direction discretization size.
       dy = get_data(args, arg_num)[1]; // Spatial y-direction discretization size.
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 02fdc3d..cfa9c90 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -204,6 +204,12 @@ public:
       retval=false;
     }
 
+    if (retval && !(get_data(py_s_par)[num_pars-1] >= 1.0)) {
+      s << func_name <<  " requires that sampling par arg has at least one time sample!";
+      dream_err_msg(s.str().c_str());
+      retval=false;
+    }
+
     if (retval) {
       dx = get_data(py_s_par)[0]; // Spatial x-direction discretization size.
       dy = get_data(py_s_par)[1]; // Spatial y-direction discretization size.
diff --git a/oct/oct_dream_att.cc b/oct/oct_dream_att.cc
index 7c39c0a..3b450e4 100644
--- a/oct/oct_dream_att.cc
+++ b/oct/oct_dream_att.cc
@@ -129,6 +129,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
   const Matrix tmp1 = args(1).matrix_value();
   s_par = (double*) tmp1.data();
+  if (!(s_par[1] >= 1.0)) {
+    error("There must be at least one time sample!");
+    return oct_retval;
+  }
   dt    = s_par[0];		// Temporal discretization size (= 1/sampling freq).
   nt    = (int) s_par[1];	// Length of SIR.
 
-- 
2.43.0


From daf3b40ce627a45f9a21789c9e710fc7b6f7e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 36/74] fix: OpenCL: allow any number of observation points

---
 opencl/cl_das.cc       | 3 +++
 opencl/cl_das_uni.cc   | 3 +++
 opencl/cl_dreamcirc.cc | 5 +++--
 opencl/cl_dreamrect.cc | 5 +++--
 opencl/cl_rect_sir.cc  | 5 +++--
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b9d0197..7038833 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -133,6 +133,9 @@ int DAS<T>::cl_das(const T *Y, // Data
 
   cl::NDRange global(m_No);
   cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
+  if (m_No % 64) {
+    local = cl::NullRange; // The number of work items must be divisible by the work group size so let OpenCL choose.
+  }
   try {
     m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
   }
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 1074874..c87d0f9 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -160,6 +160,9 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
 
   cl::NDRange global(m_No);
   cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
+  if (m_No % 64) {
+    local = cl::NullRange; // The number of work items must be divisible by the work group size so let OpenCL choose.
+  }
   try {
     m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
   }
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index f656dad..8332f71 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -203,8 +203,9 @@ int Circ::cl_dreamcirc(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t local_item_size = 64; // The work group size which No must be divisible by.
+  const size_t *local_size = (global_item_size % local_item_size) ? NULL : &local_item_size; // Otherwise let OpenCL choose.
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, local_size, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1fd85a5..1e457ae 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -206,8 +206,9 @@ int Rect::cl_dreamrect(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t local_item_size = 64; // The work group size which No must be divisible by.
+  const size_t *local_size = (global_item_size % local_item_size) ? NULL : &local_item_size; // Otherwise let OpenCL choose.
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, local_size, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8d6b0a4..fd6f0ae 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -193,8 +193,9 @@ int RectSir::cl_rect_sir(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t local_item_size = 64; // The work group size which No must be divisible by.
+  const size_t *local_size = (global_item_size % local_item_size) ? NULL : &local_item_size; // Otherwise let OpenCL choose.
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, local_size, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
-- 
2.43.0


From 0497cf6740395067f03efa1f04c4b9439f896b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 37/74] fix: OpenCL: use the start delay of every observation
 point

---
 extra_src/mex_das.cc      |  4 ++--
 extra_src/mex_das_uni.cc  |  9 +++++++--
 extra_src/oct_das.cc      |  4 ++--
 extra_src/oct_das_uni.cc  |  9 +++++++--
 extra_src/oct_rect_sir.cc |  2 +-
 include/das.h             | 17 ++++++++++++++++-
 include/das_uni.h         | 17 ++++++++++++++++-
 include/dreamcirc.h       |  2 +-
 include/dreamrect.h       |  2 +-
 include/rect_sir.h        |  2 +-
 julia/include/jl_das.hpp  |  2 +-
 oct/oct_dreamcirc.cc      |  2 +-
 oct/oct_dreamrect.cc      |  2 +-
 opencl/cl_das.cc          | 11 +++++++++--
 opencl/cl_das_uni.cc      | 11 +++++++++--
 opencl/cl_dreamcirc.cc    | 16 +++++++++++++---
 opencl/cl_dreamrect.cc    | 16 +++++++++++++---
 opencl/cl_rect_sir.cc     | 16 +++++++++++++---
 opencl/das_double.cl      | 16 ++++++++--------
 opencl/das_float.cl       | 16 ++++++++--------
 opencl/das_uni_double.cl  | 16 ++++++++--------
 opencl/das_uni_float.cl   | 16 ++++++++--------
 opencl/dreamcirc.cl       |  3 ++-
 opencl/dreamrect.cl       |  3 ++-
 opencl/rect_sir.cl        |  3 ++-
 python/include/py_das.hpp |  2 +-
 26 files changed, 153 insertions(+), 66 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 014c312..eb953fa 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -371,9 +371,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (device == "gpu") {
 
     if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_type, delay_f, cp_f, Im_f);
     } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_type, delay_d, cp_d, Im_d);
     }
 
   } else { // Otherwise use the cpu
diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 17ac7e7..bc6239c 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -214,6 +214,11 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
 
   ap.check_delay("das", prhs, 5, No);
 
+  DelayType delay_type = DelayType::single;  // delay is a scalar.
+  if (mxGetM(prhs[5]) * mxGetN(prhs[5]) != 1) {
+    delay_type = DelayType::multiple; // delay is a vector.
+  }
+
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
 
@@ -352,7 +357,7 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
                           min_Ry_f, dy_f, max_Ry_f,
                           min_Rz_f, dz_f, max_Rz_f,
                           dt_f,
-                          delay_f[0], cp_f,
+                          delay_type, delay_f, cp_f,
                           Im_f);
   } else { // Double precision
     das_uni_d->cl_das_uni(Yd,
@@ -362,7 +367,7 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
                           min_Ry_d, dy_d, max_Ry_d,
                           min_Rz_d, dz_d, max_Rz_d,
                           dt_d,
-                          delay_d[0], cp_d,
+                          delay_type, delay_d, cp_d,
                           Im_d);
   }
 
diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 4ecea2c..7585e3a 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -538,9 +538,9 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   if (device == "gpu") {
 
     if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_type, delay_f, cp_f, Im_f);
     } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_type, delay_d, cp_d, Im_d);
     }
 
   } else { // Otherwise use the cpu
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index f00cf49..0a0abf9 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -326,6 +326,11 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  DelayType delay_type = DelayType::single;  // delay is a scalar.
+  if (mxGetM(5) * mxGetN(5) != 1) {
+    delay_type = DelayType::multiple; // delay is a vector.
+  }
+
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
   FloatMatrix tmp5f;
@@ -477,7 +482,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                           min_Ry_f, dy_f, max_Ry_f,
                           min_Rz_f, dz_f, max_Rz_f,
                           dt_f,
-                          delay_f[0], cp_f,
+                          delay_type, delay_f, cp_f,
                           Im_f);
   } else { // Double precision
     das_uni_d->cl_das_uni(Yd,
@@ -487,7 +492,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                           min_Ry_d, dy_d, max_Ry_d,
                           min_Rz_d, dz_d, max_Rz_d,
                           dt_d,
-                          delay_d[0], cp_d,
+                          delay_type, delay_d, cp_d,
                           Im_d);
   }
 
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 1a91793..3c1a60e 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -238,7 +238,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
   if (device == "gpu") {
-    rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+    rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay_type, delay, v, cp, h);
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/include/das.h b/include/das.h
index c79ad2d..e86a4f8 100644
--- a/include/das.h
+++ b/include/das.h
@@ -367,6 +367,19 @@ public:
       throw std::runtime_error(the_err);
     }
 
+    // Start delays
+    m_buflen_delay  =  m_No*sizeof(T);
+    try {
+      m_cl_buf_delay = cl::Buffer(context, CL_MEM_READ_ONLY, m_buflen_delay);
+    }
+
+    catch (const cl::Error &err) {
+      std::string the_err = "Error in das - OpenCL error - Buffer delay allocation failed: " ;
+      the_err += err.what();
+      the_err += "\n";
+      throw std::runtime_error(the_err);
+    }
+
     // Write buffer
 
     // Image
@@ -388,7 +401,7 @@ public:
              const T *gt,
              const T *gr,
              T dt,
-             T delay,
+             DelayType delay_type, const T *delay,
              T cp,
              T *Im);
 #endif
@@ -445,11 +458,13 @@ private:
   cl::Buffer m_cl_buf_gt;
   cl::Buffer m_cl_buf_gr;
   cl::Buffer m_cl_buf_Ro;
+  cl::Buffer m_cl_buf_delay;
   cl::Buffer m_cl_buf_Im;
   cl_int m_buflen_Y;
   cl_int m_buflen_gt;
   cl_int m_buflen_gr;
   cl_int m_buflen_Ro;
+  cl_int m_buflen_delay;
   cl_int m_buflen_Im;
 #endif
 
diff --git a/include/das_uni.h b/include/das_uni.h
index 7191f42..9037637 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -302,6 +302,19 @@ class DAS_UNI
     throw std::runtime_error(the_err);
   }
 
+  // Start delays
+  m_buflen_delay  =  m_No*sizeof(T);
+  try {
+    m_cl_buf_delay = cl::Buffer(context, CL_MEM_READ_ONLY, m_buflen_delay);
+  }
+
+  catch (const cl::Error &err) {
+    std::string the_err = "Error in das_uni - OpenCL error - Buffer delay allocation failed: " ;
+    the_err += err.what();
+    the_err += "\n";
+    throw std::runtime_error(the_err);
+  }
+
   // Write buffer
 
   // Image
@@ -359,7 +372,7 @@ class DAS_UNI
                  T min_Ry, T dy, T max_Ry,
                  T min_Rz, T dz, T max_Rz,
                  T dt,
-                 T delay,
+                 DelayType delay_type, const T *delay,
                  T cp,
                  T *Im);
 
@@ -375,7 +388,9 @@ class DAS_UNI
   cl::CommandQueue m_queue;
   cl::Kernel m_kernel;
   cl::Buffer m_cl_buf_Y;
+  cl::Buffer m_cl_buf_delay;
   cl::Buffer m_cl_buf_Im;
   cl_int m_buflen_Y;
+  cl_int m_buflen_delay;
   cl_int m_buflen_Im;
 };
diff --git a/include/dreamcirc.h b/include/dreamcirc.h
index e6f2a07..e02b025 100644
--- a/include/dreamcirc.h
+++ b/include/dreamcirc.h
@@ -49,7 +49,7 @@ class Circ
                    double R,
                    double dx, double dy, double dt,
                    int nt,
-                   double delay,
+                   DelayType delay_type, const double *delay,
                    double v, double cp,
                    double *H);
 #endif
diff --git a/include/dreamrect.h b/include/dreamrect.h
index bcc5ad2..6404ba6 100644
--- a/include/dreamrect.h
+++ b/include/dreamrect.h
@@ -53,7 +53,7 @@ class Rect
                    double dy,
                    double dt,
                    int nt,
-                   double delay,
+                   DelayType delay_type, const double *delay,
                    double v,
                    double cp,
                    double *h);
diff --git a/include/rect_sir.h b/include/rect_sir.h
index 34f9758..ce5508a 100644
--- a/include/rect_sir.h
+++ b/include/rect_sir.h
@@ -53,7 +53,7 @@ ErrorLevel rect_sir(double *Ro, dream_idx_type No,
                   double b,
                   double dt,
                   int nt,
-                  double delay,
+                  DelayType delay_type, const double *delay,
                   double v,
                   double cp,
                   double *h);
diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index ad474ae..67fc2a1 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -218,7 +218,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // Check if we should use the GPU
   if (device_str == "gpu") {
 
-    das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
+    das->cl_das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im);
 
   } else { // Otherwise use the cpu
 
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 4e5d165..37673be 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -234,7 +234,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt, delay_type, delay, v, cp, h);
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5851f8..e845927 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -236,7 +236,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   // Check if we should use the GPU
   if (device == "gpu") {
-    rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+    rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay_type, delay, v, cp, h);
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index 7038833..f02d4a7 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -64,7 +64,7 @@ int DAS<T>::cl_das(const T *Y, // Data
                    const T *gt,
                    const T *gr,
                    T dt,
-                   T delay,
+                   DelayType delay_type, const T *delay,
                    T cp,
                    T *Im)
 {
@@ -80,6 +80,13 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
   m_queue.enqueueWriteBuffer(m_cl_buf_Ro, CL_TRUE, 0, m_buflen_Ro, Ro);
 
+  // One start delay per observation point.
+  std::vector<T> delays(m_No);
+  for (dream_idx_type no=0; no<m_No; no++) {
+    delays[no] = (delay_type == DelayType::multiple) ? delay[no] : delay[0];
+  }
+  m_queue.enqueueWriteBuffer(m_cl_buf_delay, CL_TRUE, 0, m_buflen_delay, delays.data());
+
   //
   // Set the arguments of the kernel
   //
@@ -117,7 +124,7 @@ int DAS<T>::cl_das(const T *Y, // Data
 
   // delay
   arg_idx++;
-  m_kernel.setArg(arg_idx, delay);
+  m_kernel.setArg(arg_idx, m_cl_buf_delay);
 
   // cp
   arg_idx++;
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index c87d0f9..cc193ea 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -74,7 +74,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
                            T min_Ry, T dy, T max_Ry,
                            T min_Rz, T dz, T max_Rz,
                            T dt,
-                           T delay,
+                           DelayType delay_type, const T *delay,
                            T cp,
                            T *Im)
 {
@@ -85,6 +85,13 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
 
   m_queue.enqueueWriteBuffer(m_cl_buf_Y, CL_TRUE, 0, m_buflen_Y, Y);
 
+  // One start delay per observation point.
+  std::vector<T> delays(m_No);
+  for (dream_idx_type no=0; no<m_No; no++) {
+    delays[no] = (delay_type == DelayType::multiple) ? delay[no] : delay[0];
+  }
+  m_queue.enqueueWriteBuffer(m_cl_buf_delay, CL_TRUE, 0, m_buflen_delay, delays.data());
+
   //
   // Set the arguments of the kernel
   //
@@ -144,7 +151,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
 
   // delay
   arg_idx++;
-  m_kernel.setArg(arg_idx, delay);
+  m_kernel.setArg(arg_idx, m_cl_buf_delay);
 
   // cp
   arg_idx++;
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index 8332f71..5068341 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <fstream>
 #include <streambuf>
+#include <vector>
 
 #include "dreamcirc.h"
 #include "dream_error.h"
@@ -47,7 +48,7 @@ int Circ::cl_dreamcirc(const double *Ro,
                        double dy,
                        double dt,
                        int nt,
-                       double delay,
+                       DelayType delay_type, const double *delay,
                        double v,
                        double cp,
                        double *H)
@@ -111,12 +112,19 @@ int Circ::cl_dreamcirc(const double *Ro,
   if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
   cl_int No_mo = No;
 
+  // One start delay per observation point.
+  std::vector<double> delays(No);
+  for (int no=0; no<No; no++) {
+    delays[no] = (delay_type == DelayType::multiple) ? delay[no] : delay[0];
+  }
+  cl_mem delay_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*sizeof(double), NULL, &ret);
+  if (ret < 0) std::cout << "cl delay mem ret: " << ret << std::endl;
+
   cl_double r_mo = r;
   cl_double dx_mo = dx;
   cl_double dy_mo = dy;
   cl_double dt_mo = dt;
   cl_int nt_mo = nt;
-  cl_double delay_mo = delay;
   cl_double v_mo = v;
   cl_double cp_mo = cp;
 
@@ -130,6 +138,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  ret = clEnqueueWriteBuffer(command_queue, delay_mo, CL_TRUE, 0, No * sizeof(double), delays.data(),  0, NULL, NULL);
 
   //
   // Create a program from the kernel source
@@ -188,7 +197,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   ret = clSetKernelArg(kernel, 6, sizeof(cl_int), (void *) &nt_mo);
   if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
 
-  ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &delay_mo);
+  ret = clSetKernelArg(kernel, 7, sizeof(cl_mem), (void *) &delay_mo);
   if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &v_mo);
   if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
@@ -225,6 +234,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   ret = clReleaseProgram(program);
 
   ret = clReleaseMemObject(Ro_mo);
+  ret = clReleaseMemObject(delay_mo);
   ret = clReleaseMemObject(H_mo);
 
   ret = clReleaseCommandQueue(command_queue);
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1e457ae..e926d0f 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <fstream>
 #include <streambuf>
+#include <vector>
 
 #include "dreamrect.h"
 #include "dream_error.h"
@@ -47,7 +48,7 @@ int Rect::cl_dreamrect(const double *Ro,
                        double dy,
                        double dt,
                        int nt,
-                       double delay,
+                       DelayType delay_type, const double *delay,
                        double v,
                        double cp,
                        double *H)
@@ -111,13 +112,20 @@ int Rect::cl_dreamrect(const double *Ro,
   if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
   cl_int No_mo = No;
 
+  // One start delay per observation point.
+  std::vector<double> delays(No);
+  for (int no=0; no<No; no++) {
+    delays[no] = (delay_type == DelayType::multiple) ? delay[no] : delay[0];
+  }
+  cl_mem delay_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*sizeof(double), NULL, &ret);
+  if (ret < 0) std::cout << "cl delay mem ret: " << ret << std::endl;
+
   cl_double a_mo = a;
   cl_double b_mo = b;
   cl_double dx_mo = dx;
   cl_double dy_mo = dy;
   cl_double dt_mo = dt;
   cl_int nt_mo = nt;
-  cl_double delay_mo = delay;
   cl_double v_mo = v;
   cl_double cp_mo = cp;
 
@@ -131,6 +139,7 @@ int Rect::cl_dreamrect(const double *Ro,
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  ret = clEnqueueWriteBuffer(command_queue, delay_mo, CL_TRUE, 0, No * sizeof(double), delays.data(),  0, NULL, NULL);
 
   //
   // Create a program from the kernel source
@@ -191,7 +200,7 @@ int Rect::cl_dreamrect(const double *Ro,
   ret = clSetKernelArg(kernel, 7, sizeof(cl_int), (void *) &nt_mo);
   if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
 
-  ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &delay_mo);
+  ret = clSetKernelArg(kernel, 8, sizeof(cl_mem), (void *) &delay_mo);
   if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &v_mo);
   if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
@@ -228,6 +237,7 @@ int Rect::cl_dreamrect(const double *Ro,
   ret = clReleaseProgram(program);
 
   ret = clReleaseMemObject(Ro_mo);
+  ret = clReleaseMemObject(delay_mo);
   ret = clReleaseMemObject(H_mo);
 
   ret = clReleaseCommandQueue(command_queue);
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index fd6f0ae..d98414c 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <fstream>
 #include <streambuf>
+#include <vector>
 
 #include "rect_sir.h"
 
@@ -44,7 +45,7 @@ int RectSir::cl_rect_sir(const double *Ro,
                          double b,
                          double dt,
                          int nt,
-                         double delay,
+                         DelayType delay_type, const double *delay,
                          double v,
                          double cp,
                          double *h)
@@ -104,11 +105,18 @@ int RectSir::cl_rect_sir(const double *Ro,
   if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
   cl_int No_mo = No;
 
+  // One start delay per observation point.
+  std::vector<double> delays(No);
+  for (int no=0; no<No; no++) {
+    delays[no] = (delay_type == DelayType::multiple) ? delay[no] : delay[0];
+  }
+  cl_mem delay_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*sizeof(double), NULL, &ret);
+  if (ret < 0) std::cout << "cl delay mem ret: " << ret << std::endl;
+
   cl_double a_mo = a;
   cl_double b_mo = b;
   cl_double dt_mo = dt;
   cl_int nt_mo = nt;
-  cl_double delay_mo = delay;
   cl_double v_mo = v;
   cl_double cp_mo = cp;
 
@@ -122,6 +130,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  ret = clEnqueueWriteBuffer(command_queue, delay_mo, CL_TRUE, 0, No * sizeof(double), delays.data(),  0, NULL, NULL);
 
   //
   // Create a program from the kernel source
@@ -178,7 +187,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   ret = clSetKernelArg(kernel, 5, sizeof(cl_int), (void *) &nt_mo);
   if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
 
-  ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &delay_mo);
+  ret = clSetKernelArg(kernel, 6, sizeof(cl_mem), (void *) &delay_mo);
   if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &v_mo);
   if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
@@ -215,6 +224,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   ret = clReleaseProgram(program);
 
   ret = clReleaseMemObject(Ro_mo);
+  ret = clReleaseMemObject(delay_mo);
   ret = clReleaseMemObject(H_mo);
 
   ret = clReleaseCommandQueue(command_queue);
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 891df09..dfcf151 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -10,7 +10,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
                        __global const DAS_DATATYPE *G, const int num_elements, // Size: num_elements x 3
                        __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                        const DAS_DATATYPE dt,
-                       const DAS_DATATYPE delay,
+                       __global const DAS_DATATYPE *delay, // Size: No
                        const DAS_DATATYPE cp,
                        __global DAS_DATATYPE *Im)
 {
@@ -21,7 +21,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
 
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -57,7 +57,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
                       __global const DAS_DATATYPE *Gr, const int num_r_elements, // Size: num_r_elements x 3
                       __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                       const DAS_DATATYPE dt,
-                      const DAS_DATATYPE delay,
+                      __global const DAS_DATATYPE *delay, // Size: No
                       const DAS_DATATYPE cp,
                       __global DAS_DATATYPE *Im)
 {
@@ -68,7 +68,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
 
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0; // For double
@@ -113,7 +113,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, // Size: No
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -124,7 +124,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[no]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
@@ -193,7 +193,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, // Size: No
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -204,7 +204,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[no]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index 3d5ed1a..0b06023 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -11,7 +11,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
                        __global const DAS_DATATYPE *G, const int num_elements, // Size: num_elements x 3
                        __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                        const DAS_DATATYPE dt,
-                       const DAS_DATATYPE delay,
+                       __global const DAS_DATATYPE *delay, // Size: No
                        const DAS_DATATYPE cp,
                        __global DAS_DATATYPE *Im)
 {
@@ -22,7 +22,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
 
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -58,7 +58,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
                       __global const DAS_DATATYPE *Gr, const int num_r_elements, // Size: num_r_elements x 3
                       __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                       const DAS_DATATYPE dt,
-                      const DAS_DATATYPE delay,
+                      __global const DAS_DATATYPE *delay, // Size: No
                       const DAS_DATATYPE cp,
                       __global DAS_DATATYPE *Im)
 {
@@ -69,7 +69,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
 
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -114,7 +114,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, // Size: No
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -125,7 +125,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[no]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
@@ -194,7 +194,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
                             __global const DAS_DATATYPE *G_row, const int num_rows, // Size: num_rows x 3
                             __global const DAS_DATATYPE *Ro, const int No,  // Size: No x 3
                             const DAS_DATATYPE dt,
-                            const DAS_DATATYPE delay,
+                            __global const DAS_DATATYPE *delay, // Size: No
                             const DAS_DATATYPE cp,
                             __global DAS_DATATYPE *Im)
 {
@@ -205,7 +205,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
 
   const DAS_DATATYPE Fs_khz = (DAS_DATATYPE) (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = (DAS_DATATYPE) 1.0/cp;
-  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
+  const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay[no]/1000.0;
 
   // Element (stripe) lengths
   const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 33c0f74..d394910 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -13,7 +13,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                            DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                            DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                            const DAS_DATATYPE dt,
-                           const DAS_DATATYPE delay,
+                           __global const DAS_DATATYPE *delay, // Size: No
                            const DAS_DATATYPE cp,
                            __global DAS_DATATYPE *Im)
 {
@@ -45,7 +45,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -84,7 +84,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                           DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                           DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                           const DAS_DATATYPE dt,
-                          const DAS_DATATYPE delay,
+                          __global const DAS_DATATYPE *delay, // Size: No
                           const DAS_DATATYPE cp,
                           __global DAS_DATATYPE *Im)
 {
@@ -122,7 +122,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -174,7 +174,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // Size: No
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -218,7 +218,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (1.0/dt)*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -288,7 +288,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // Size: No
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -332,7 +332,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = 1.0/dt*1000.0;
   const DAS_DATATYPE one_over_cp = 1.0/cp;
-  const DAS_DATATYPE delay_ms = delay/1000.0;
+  const DAS_DATATYPE delay_ms = delay[no]/1000.0;
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_uni_float.cl b/opencl/das_uni_float.cl
index e7026bd..75852c5 100644
--- a/opencl/das_uni_float.cl
+++ b/opencl/das_uni_float.cl
@@ -14,7 +14,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                            DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                            DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                            const DAS_DATATYPE dt,
-                           const DAS_DATATYPE delay,
+                           __global const DAS_DATATYPE *delay, // Size: No
                            const DAS_DATATYPE cp,
                            __global DAS_DATATYPE *Im)
 {
@@ -46,7 +46,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -85,7 +85,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
                           DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                           DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                           const DAS_DATATYPE dt,
-                          const DAS_DATATYPE delay,
+                          __global const DAS_DATATYPE *delay, // Size: No
                           const DAS_DATATYPE cp,
                           __global DAS_DATATYPE *Im)
 {
@@ -123,7 +123,7 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -175,7 +175,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // Size: No
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -219,7 +219,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
@@ -289,7 +289,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
                                 DAS_DATATYPE min_Ry, DAS_DATATYPE dy, DAS_DATATYPE max_Ry,
                                 DAS_DATATYPE min_Rz, DAS_DATATYPE dz, DAS_DATATYPE max_Rz,
                                 const DAS_DATATYPE dt,
-                                const DAS_DATATYPE delay,
+                                __global const DAS_DATATYPE *delay, // Size: No
                                 const DAS_DATATYPE cp,
                                 __global DAS_DATATYPE *Im)
 {
@@ -333,7 +333,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   // Pre-compute this to avoid divisions in the inner loops.
   const DAS_DATATYPE Fs_khz = (F_SFX(1.0)/dt)*F_SFX(1000.0);
   const DAS_DATATYPE one_over_cp = F_SFX(1.0)/cp;
-  const DAS_DATATYPE delay_ms = delay/F_SFX(1000.0);
+  const DAS_DATATYPE delay_ms = delay[no]/F_SFX(1000.0);
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0); // For float
diff --git a/opencl/dreamcirc.cl b/opencl/dreamcirc.cl
index 2192bef..6fdfbdd 100644
--- a/opencl/dreamcirc.cl
+++ b/opencl/dreamcirc.cl
@@ -5,7 +5,7 @@ __kernel void dreamcirc(__global const double *Ro,
                         double dy,
                         double dt,
                         int nt,
-                        double delay,
+                        __global const double *delays,
                         double v,
                         double cp,
                         __global double *H)
@@ -14,6 +14,7 @@ __kernel void dreamcirc(__global const double *Ro,
   double xo = Ro[no];
   double yo = Ro[no + No*1];
   double zo = Ro[no + No*2];
+  double delay = delays[no];
 
   __global double *h = &H[0+nt*no];
   for (int i = 0; i < nt; i++) {
diff --git a/opencl/dreamrect.cl b/opencl/dreamrect.cl
index 8d311f4..b510edc 100644
--- a/opencl/dreamrect.cl
+++ b/opencl/dreamrect.cl
@@ -6,7 +6,7 @@ __kernel void dreamrect(__global const double *Ro,
                         double dy,
                         double dt,
                         int nt,
-                        double delay,
+                        __global const double *delays,
                         double v,
                         double cp,
                         __global double *H)
@@ -15,6 +15,7 @@ __kernel void dreamrect(__global const double *Ro,
   double xo = Ro[no];
   double yo = Ro[no + No*1];
   double zo = Ro[no + No*2];
+  double delay = delays[no];
 
   __global double *h = &H[0+nt*no];
   for (int i = 0; i < nt; i++) {
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 2353149..08cab63 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -4,7 +4,7 @@ __kernel void rect_sir(__global const double *Ro,
                        double b_i,
                        double dt,
                        int nt,
-                       double delay,
+                       __global const double *delays,
                        double v,
                        double cp,
                        __global double *H)
@@ -13,6 +13,7 @@ __kernel void rect_sir(__global const double *Ro,
   double xo = Ro[no];
   double yo = Ro[no + No*1];
   double zo = Ro[no + No*2];
+  double delay = delays[no];
 
   __global double *h = &H[0+nt*no];
   for (int it = 0; it < nt; it++) {
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 4d6f568..123865c 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -218,7 +218,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Check if we should use the GPU
   if (device_str == "gpu") {
 
-    das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
+    das->cl_das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im);
 
   } else { // Otherwise use the cpu
 
-- 
2.43.0


From d1a497de79925ab10ceaac55864c317fcfea9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 38/74] fix: OpenCL: compute attenuated responses on the CPU
 instead of ignoring the attenuation

---
 oct/oct_dreamcirc.cc | 7 ++++++-
 oct/oct_dreamrect.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 37673be..3f30a0a 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -231,8 +231,13 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
+  if (device == "gpu" && alpha > 0.0) {
+    std::cout << "Warning: Compute device set to 'gpu' but attenuation is not supported on the GPU!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+  }
+
   // Check if we should use the GPU
-  if (device == "gpu") {
+  if (device == "gpu" && !(alpha > 0.0)) {
 
     circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt, delay_type, delay, v, cp, h);
 
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index e845927..fb01454 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -234,8 +234,13 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
+  if (device == "gpu" && alpha > 0.0) {
+    std::cout << "Warning: Compute device set to 'gpu' but attenuation is not supported on the GPU!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+  }
+
   // Check if we should use the GPU
-  if (device == "gpu") {
+  if (device == "gpu" && !(alpha > 0.0)) {
     rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay_type, delay, v, cp, h);
 
   } else { // Otherwise use the cpu
-- 
2.43.0


From 7c96bae8967aeed185f3ccbf744dc2ca1386159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 39/74] fix: das_uni: require an A-scan for each
 transmit-receive combination and use SAFT when gr is empty

---
 extra_src/oct_das_uni.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 0a0abf9..aa42bf9 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -378,6 +378,24 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // SAFT is also selected if gr is empty.
+  if (mxGetM(2)*mxGetN(2) == 0) {
+    das_type = DASType::saft;
+  }
+
+  // Check that there is an A-scan for each transmit-receive combination.
+  dream_idx_type num_scans = use_float ?
+    (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.0) : (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.0);
+  if (das_type != DASType::saft) {
+    num_scans *= use_float ?
+      (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.0) : (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.0);
+  }
+
+  if (mxGetN(0) < num_scans) {
+    error("Argument 1 must have one column (A-scan) for each transmit-receive combination!");
+    return oct_retval;
+  }
+
   //
   // Init DAS_UNI and output arg.
   //
-- 
2.43.0


From 9412cf0489a28a35e03922311e0844fc824fba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 40/74] fix: OpenCL: das uses SAFT when there are no receive
 elements

---
 include/das.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/das.h b/include/das.h
index e86a4f8..21abb52 100644
--- a/include/das.h
+++ b/include/das.h
@@ -100,6 +100,10 @@ public:
     std::string kernel_str;
     std::string kernel_name="das_tfm"; // Default function name of the OpenCL kernel
 
+    if (m_num_r_elements == 0) { // SAFT is also used, as on the CPU, when there are no receive elements.
+      m_das_type = DASType::saft;
+    }
+
     if (m_das_type == DASType::saft) {
       kernel_name="das_saft";
       m_num_r_elements = 0;
-- 
2.43.0


From d451dc9aff3d6cd4eff557ae19798ebaa0c0a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 41/74] fix: OpenCL: no jumps in rect_sir when the wave just
 reaches an edge

---
 opencl/rect_sir.cl | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 08cab63..08e5a2e 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -1,3 +1,13 @@
+// acos(d/rho) for d <= rho where round-off can make d/rho larger than one (or 0/0).
+double acos_edge(double d, double rho)
+{
+  if (d <= 0.0) {
+    return M_PI/2.0;
+  }
+
+  return (d < rho) ? acos(d/rho) : 0.0;
+}
+
 __kernel void rect_sir(__global const double *Ro,
                        int No,
                        double a_i,
@@ -182,11 +192,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( s_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos_edge(s_k, cp * native_sqrt(t*t - t_z*t_z));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( l_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos_edge(l_k, cp * native_sqrt(t*t - t_z*t_z));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From 9a04e375731f637465571618c756fa3820b55aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 42/74] fix: link das_uni with the error functions so that it
 can be loaded

---
 oct/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oct/CMakeLists.txt b/oct/CMakeLists.txt
index 12d0378..da7dd3a 100644
--- a/oct/CMakeLists.txt
+++ b/oct/CMakeLists.txt
@@ -546,6 +546,7 @@ if (OpenCL_FOUND)
   set (oct_das_uni_SOURCE_FILES
     ../extra_src/oct_das_uni.cc
     ../opencl/cl_das_uni.cc
+    ../src/dream_error.cc
   )
 
   file (COPY ../opencl/das_uni_float.cl DESTINATION kernels)
-- 
2.43.0


From cf5db13e243bc489ddc3c6af2ea26ffb9c9b091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 43/74] fix: h2o_soundspeed: exponents of three terms of Del
 Grosso's formula

---
 m_files/h2o_soundspeed.m | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m_files/h2o_soundspeed.m b/m_files/h2o_soundspeed.m
index 44ef2f6..c8b4483 100644
--- a/m_files/h2o_soundspeed.m
+++ b/m_files/h2o_soundspeed.m
@@ -71,7 +71,7 @@ end
              + 0.221535969240e-3  .* T.^3;
 
   deltaC_S = 0.132952290781e1   .* S ...
-             + 0.128955756844e-3 .* S.^3;
+             + 0.128955756844e-3 .* S.^2;
 
   deltaC_P = 0.156059257041     .* P ...
              + 0.244998688441e-4 .* P.^2 ...
@@ -80,10 +80,10 @@ end
   deltaC_STP = - 0.127562783426e-1.*T.*S  ...
                + 0.635191613389e-2 .* T    .* P    ...
                + 0.265484716608e-7 .* T.^2 .* P.^2 ...
-               - 0.159349479045e-5 .* T    .* P.^3 ...
+               - 0.159349479045e-5 .* T    .* P.^2 ...
                + 0.522116437235e-9 .* T    .* P.^3 ...
                - 0.438031096213e-6 .* T.^3 .* P    ...
-               - 0.161674495909-8  .* S.^2 .* P.^2 ...
+               - 0.161674495909e-8 .* S.^2 .* P.^2 ...
                + 0.968403156410e-4 .* T.^2 .* S    ...
                + 0.485639620015e-5 .* T    .* S.^2 .* P ...
                - 0.340597039004e-3 .* T    .* S    .* P;
-- 
2.43.0


From 703c07b1c3b860011504ee5b57296ae69bb3a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 44/74] fix: free the thread handles of every call

---
 extra_src/das.cc             | 1 +
 extra_src/fftconv_p.cc       | 1 +
 extra_src/oct_add_p.cc       | 1 +
 extra_src/oct_circ_sir.cc    | 1 +
 extra_src/oct_conv_p.cc      | 1 +
 extra_src/oct_copy_p.cc      | 1 +
 extra_src/oct_fftconv_ola.cc | 1 +
 extra_src/oct_fftconv_p.cc   | 1 +
 extra_src/oct_scirc_sir.cc   | 1 +
 extra_src/oct_sum_fftconv.cc | 1 +
 extra_src/rect_sir.cc        | 1 +
 src/dream_arr_annu.cc        | 1 +
 src/dream_arr_circ.cc        | 1 +
 src/dream_arr_cylind.cc      | 1 +
 src/dream_arr_rect.cc        | 1 +
 src/dreamcirc.cc             | 1 +
 src/dreamcirc_f.cc           | 1 +
 src/dreamcylind.cc           | 1 +
 src/dreamline.cc             | 1 +
 src/dreamrect.cc             | 1 +
 src/dreamrect_f.cc           | 1 +
 src/dreamsphere.cc           | 1 +
 22 files changed, 22 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a4e7ccc..538c841 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -292,6 +292,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 63603d8..104c106 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -388,6 +388,7 @@ ErrorLevel FFTConvP::run(double *Y,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index d838fea..915213d 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -337,6 +337,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     threads[thread_n].join();
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   //
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d39561..eb972f6 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -402,6 +402,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     threads[thread_n].join();
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   //
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 8d25bc3..a2df0d8 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -379,6 +379,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 8d03211..d2bd3af 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -335,6 +335,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     threads[thread_n].join();
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   //
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 49ba7ba..3019df7 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -698,6 +698,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   }
 
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 6a8ae73..c5189ba 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -579,6 +579,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 82a6aaf..b4c2643 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -419,6 +419,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     threads[thread_n].join();
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   //
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 7e5b76f..786466d 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -539,6 +539,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 897c597..6553575 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -220,6 +220,7 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index a5aaa22..e87baf9 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -640,6 +640,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 23bcd08..cadcfe1 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -432,6 +432,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   }
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   return err;
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index b3a769a..c044d02 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -441,6 +441,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 316016f..dd9857d 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -437,6 +437,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 35609a0..fcf7f61 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -269,6 +269,7 @@ SIRError Circ::dreamcirc(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index 82d1130..a567d24 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -270,6 +270,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 949fbec..a3fd542 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -267,6 +267,7 @@ SIRError Cylind::dreamcylind(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index b718316..6f12e01 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -254,6 +254,7 @@ SIRError Line::dreamline(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index e292ed3..3cfa071 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -266,6 +266,7 @@ SIRError Rect::dreamrect(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 23bcd48..06a470c 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -270,6 +270,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 204d4b0..9ad2501 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -265,6 +265,7 @@ SIRError Sphere::dreamsphere(double alpha,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
-- 
2.43.0


From 89769dad137f32b33d60e3f9325525a5395abe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 45/74] fix: destroy the FFTW plans and free the exported
 wisdom of every call

---
 include/fft.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/fft.h b/include/fft.h
index 119014b..063015f 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -25,8 +25,10 @@
 
 #include <complex> // Must be included before fftw3.h
 #include <mutex>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <memory>
 
 #include "dream.h"
 
@@ -143,24 +145,24 @@ class FFT
 
       const std::lock_guard<std::mutex> lock(m_fft_mutex[0]);
 
-      m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
-      m_p_backward = fftw_plan_dft_c2r_1d( (int) fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
+      m_p_forward = make_plan(fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm));
+      m_p_backward = make_plan(fftw_plan_dft_c2r_1d( (int) fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm));
 
     } else { // Don't use a mutex
 
-      m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
-      m_p_backward = fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
+      m_p_forward = make_plan(fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm));
+      m_p_backward = make_plan(fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm));
     }
   };
 
   ~FFT() = default;
 
   void fft(FFTVec &x, FFTCVec &yc) {
-    fftw_execute_dft_r2c(m_p_forward, x.get(), reinterpret_cast<fftw_complex*>(yc.get()));
+    fftw_execute_dft_r2c(m_p_forward.get(), x.get(), reinterpret_cast<fftw_complex*>(yc.get()));
   }
 
   void ifft(FFTCVec &xc, FFTVec &y) {
-    fftw_execute_dft_c2r(m_p_backward, reinterpret_cast<fftw_complex*>(xc.get()), y.get());
+    fftw_execute_dft_c2r(m_p_backward.get(), reinterpret_cast<fftw_complex*>(xc.get()), y.get());
 
     // FFTW's FFT's are not normalized so normalize it:
     for (dream_idx_type k=0; k<m_fft_len; k++) {
@@ -178,15 +180,21 @@ class FFT
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
     std::string w_str(str);
+    free(str);
     return w_str;
   }
 
  private:
 
+  // The plans are shared by the copies of an FFT object and destroyed with the last one.
+  typedef std::shared_ptr<std::remove_pointer<fftw_plan>::type> Plan;
+
+  static Plan make_plan(fftw_plan p) {return Plan(p, fftw_destroy_plan);}
+
   dream_idx_type m_fft_len;
   std::mutex *m_fft_mutex;
-  fftw_plan m_p_forward;
-  fftw_plan m_p_backward;
+  Plan m_p_forward;
+  Plan m_p_backward;
 };
 
 #endif
-- 
2.43.0


From 31becfbe20b24f14d64e1a6830a1d585557e73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 46/74] fix: sum_fftconv: free the matrix pointers also after
 an error

---
 extra_src/oct_sum_fftconv.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 786466d..0b0be43 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 #include <thread>
 #include <complex>
+#include <vector>
 
 #include <octave/oct.h>
 
@@ -319,7 +320,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   H_L = dv(2);
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::vector<double*> H_vec(H_L);
+  double **H = H_vec.data();
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = (double*) &(tmp0.data()[H_M*H_N*k]);
   }
@@ -564,10 +566,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (H) {
-    free(H);
-  }
-
   // An 1x1 matrix is copied when it is returned so append it when it is computed.
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) {
     oct_retval.append(Ymat);
-- 
2.43.0


From ac7a5c9ee74fd42a87a7811fdf63fef4861a3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 47/74] fix: re-install the previous signal handler after a
 call and stop das and rect_sir on SIGINT

---
 extra_src/oct_das.cc              | 10 +++---
 extra_src/oct_rect_sir.cc         |  5 +--
 include/signal_handler.h          | 51 +++++++++++++++++++++++++++++++
 oct/oct_dream_arr_circ.cc         |  5 +--
 oct/oct_dream_arr_cylind.cc       |  5 +--
 oct/oct_dream_arr_rect.cc         |  5 +--
 oct/oct_dreamcirc.cc              |  5 +--
 oct/oct_dreamcirc_f.cc            |  5 +--
 oct/oct_dreamcylind.cc            |  5 +--
 oct/oct_dreamline.cc              |  5 +--
 oct/oct_dreamrect.cc              |  5 +--
 oct/oct_dreamrect_f.cc            |  5 +--
 oct/oct_dreamsphere.cc            |  5 +--
 python/include/py_das.hpp         |  5 +--
 python/src/py_dream_arr_annu.cc   |  5 +--
 python/src/py_dream_arr_circ.cc   |  5 +--
 python/src/py_dream_arr_cylind.cc |  5 +--
 python/src/py_dream_arr_rect.cc   |  5 +--
 python/src/py_dreamcirc.cc        |  5 +--
 python/src/py_dreamcirc_f.cc      |  5 +--
 python/src/py_dreamcylind.cc      |  5 +--
 python/src/py_dreamline.cc        |  5 +--
 python/src/py_dreamrect.cc        |  5 +--
 python/src/py_dreamrect_f.cc      |  5 +--
 python/src/py_dreamsphere.cc      |  5 +--
 25 files changed, 124 insertions(+), 52 deletions(-)
 create mode 100644 include/signal_handler.h

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 7585e3a..bc1aac1 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -25,6 +25,7 @@
 
 #include "das.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -489,9 +490,6 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
     das_f->set_running();
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -525,11 +523,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
 
     das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
   }
 
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 3c1a60e..98a2e8b 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -25,6 +25,7 @@
 
 #include "rect_sir.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -227,8 +228,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   RectSir rect_sir;
 
-  // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
diff --git a/include/signal_handler.h b/include/signal_handler.h
new file mode 100644
index 0000000..6ea658e
--- /dev/null
+++ b/include/signal_handler.h
@@ -0,0 +1,51 @@
+/***
+*
+* Copyright (C) 2025 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+
+#pragma once
+
+#include <csignal>
+
+// Installs a signal handler and re-installs the previous one when it goes out of scope.
+class SignalHandler
+{
+ public:
+
+  SignalHandler(int signum, void (*handler)(int))
+    : m_signum(signum)
+    , m_old_handler(std::signal(signum, handler))
+  {};
+
+  ~SignalHandler() {
+    if (m_old_handler != SIG_ERR) {
+      std::signal(m_signum, m_old_handler);
+    }
+  };
+
+  SignalHandler(const SignalHandler&) = delete;
+  SignalHandler& operator=(const SignalHandler&) = delete;
+
+ private:
+
+  int m_signum;
+  void (*m_old_handler)(int);
+};
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index 453128e..a3ceb53 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -25,6 +25,7 @@
 
 #include "dream_arr_circ.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 //
 // Octave headers.
@@ -333,8 +334,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrCirc arr_circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index dc47b8f..4106717 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -25,6 +25,7 @@
 
 #include "dream_arr_cylind.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 //
 // Octave headers.
@@ -337,8 +338,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrCylind arr_cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 6df3e5f..1570f19 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -25,6 +25,7 @@
 
 #include "dream_arr_rect.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 //
 // Octave headers.
@@ -335,8 +336,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrRect arr_rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 3f30a0a..064bcb1 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -25,6 +25,7 @@
 
 #include "dreamcirc.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -220,8 +221,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Circ circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index 21774ac..1d63e41 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -25,6 +25,7 @@
 
 #include "dreamcirc_f.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -226,8 +227,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 1bf8104..5d9c9c8 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -25,6 +25,7 @@
 
 #include "dreamcylind.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 //
 // Octave headers.
@@ -212,8 +213,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   Cylind cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 1e46c26..c59b556 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -26,6 +26,7 @@
 
 #include "dreamline.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -191,8 +192,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index fb01454..2550a77 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -25,6 +25,7 @@
 
 #include "dreamrect.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -223,8 +224,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index 3161f94..315ee92 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -25,6 +25,7 @@
 
 #include "dreamrect_f.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -229,8 +230,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index cf8d5fc..5be2531 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -25,6 +25,7 @@
 
 #include "dreamsphere.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include <octave/oct.h>
 
@@ -204,8 +205,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   Sphere sphere;
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 123865c..0e13e25 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -210,8 +211,8 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
 
   das->set_running();
 
-  // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 481b17b..205f059 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_annu.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -164,8 +165,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 45305c4..fdb0ca5 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_circ.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -188,8 +189,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 0db5ce3..1ecca5d 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_cylind.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -188,8 +189,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index ef46e14..45bc6d3 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_rect.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -188,8 +189,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 45290f7..d1de75d 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -126,8 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index 29eaaca..f92a718 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc_f.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -141,8 +142,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 6544a51..2ad7795 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcylind.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -126,8 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index 3403bb3..3ab7e16 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -26,6 +26,7 @@
 
 #include "dreamline.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -128,8 +129,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index 2676e73..2816b51 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -128,8 +129,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index ae7505e..5fce993 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect_f.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -141,8 +142,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index 0a9e415..82f915f 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -26,6 +26,7 @@
 
 #include "dreamsphere.h"
 #include "arg_parser_python.h"
+#include "signal_handler.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -126,8 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
-- 
2.43.0


From 3da44a9c32111cf12dab0066449ecdefa699b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 48/74] fix: MEX: let dream_att place the response at the
 nearest sample

---
 mex/mex_dream_att.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mex/mex_dream_att.cc b/mex/mex_dream_att.cc
index 88872f5..eea607f 100644
--- a/mex/mex_dream_att.cc
+++ b/mex/mex_dream_att.cc
@@ -109,7 +109,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       double zo = Ro[n+2*No];
 
       double r = std::sqrt(xo*xo + yo*yo + zo*zo);
-      dream_idx_type it = (dream_idx_type) ( (r * 1.0e3/cp - delay[0])/dt + 1);
+      dream_idx_type it = (dream_idx_type) std::rint((r * 1.0e3/cp - delay[0])/dt);
       att.att(xc, x, r, it, &h[n*nt], 1.0);
     }
   } else {
@@ -119,7 +119,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       double zo = Ro[n+2*No];
 
       double r = std::sqrt(xo*xo + yo*yo + zo*zo);
-      dream_idx_type it = (dream_idx_type) ( (r * 1.0e3/cp - delay[n])/dt + 1);
+      dream_idx_type it = (dream_idx_type) std::rint((r * 1.0e3/cp - delay[n])/dt);
       att.att(xc, x, r, it, &h[n*nt], 1.0);
     }
   }
-- 
2.43.0


From 374f224f9133dc97033614dcdb4216d5781c329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 49/74] fix: MEX: return ones for 'off' and the given weights
 for 'ud' in dream_apodwin

---
 mex/mex_dream_apodwin.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mex/mex_dream_apodwin.cc b/mex/mex_dream_apodwin.cc
index d501d2b..f9fcecb 100644
--- a/mex/mex_dream_apodwin.cc
+++ b/mex/mex_dream_apodwin.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include "arr_functions.h"
+#include <cstring>
 #include "arg_parser.h"
 
 #include "mex.h"
@@ -44,7 +45,15 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   ap.check_arg_in("dream_apodwin", nrhs, 3, 3);
   ap.check_arg_out("dream_apodwin", nlhs, 0, 1);
 
-  dream_idx_type num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  dream_idx_type num_elements = mxGetM(prhs[1]) * mxGetN(prhs[1]); // A vector of weights for the 'ud' option.
+  char apod_str[3] = "";
+  if (num_elements > 0 && !(mxGetString(prhs[0], apod_str, sizeof(apod_str)) == 0 && std::strcmp(apod_str, "ud") == 0)) {
+    num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  }
+
+  if (num_elements < 1) {
+    dream_err_msg("dream_apodwin needs a window of at least one sample!");
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -60,11 +69,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double weight=1.0;
   double ramax = 1.0;
   double ys = 0.0;
-  if (do_apod) {
-    for (dream_idx_type n=0; n<num_elements; n++) {
+  for (dream_idx_type n=0; n<num_elements; n++) {
+    if (do_apod) {
       double xs = 2*ramax * (0.5 - ((double) n / (double) num_elements));
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
-      h[n] = weight;
     }
+    h[n] = weight;
   }
 }
-- 
2.43.0


From bc8cccb0f654c72b2fcc1abb42c00f73f54cf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 50/74] fix: MEX: check the indices of copy_p and touch the
 columns of B only

---
 extra_src/mex_copy_p.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 11b260a..9c95a4a 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -169,7 +169,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( r_M * r_N !=2 )
     mexErrMsgTxt("Argument 2 must be a 2 element vector!");
 
-  if ( (size_t) r[1] < 1)
+  if (!(r[0] >= 1) || r[1] < r[0])
     mexErrMsgTxt("1st element of argument 2 must be > 1!");
 
   if (( (size_t) r[0] > A_M) || ( (size_t) r[1] > A_M))
@@ -179,7 +179,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( k_M * k_N !=2 )
     mexErrMsgTxt("Argument 3 must be a 2 element vector!");
 
-  if ( (size_t) k[1] < 1)
+  if (!(k[0] >= 1) || k[1] < k[0])
     mexErrMsgTxt("1st element of argument 3 must be > 1!");
 
   if (( (size_t) k[0] > A_N) || ( (size_t) k[1] > A_N))
@@ -208,9 +208,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -251,8 +251,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = thread_n * A_N/nthreads;
-    line_stop =  (thread_n+1) * A_N/nthreads;
+    line_start = thread_n * B_N/nthreads;
+    line_stop =  (thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From 74672d5a021aeb2f749bde8425e7bc7d8820cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 51/74] fix: MEX: let the in-place modes of fftconv_ola
 replace, add to, or subtract from Y

---
 extra_src/mex_fftconv_ola.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 7e0a712..f12c3ac 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -90,6 +90,7 @@ void* smp_dream_fftconv_ola(void *arg)
   dream_idx_type A_M = D.A_M, B_M = D.B_M, B_N = D.B_N;
   dream_idx_type block_len = D.block_len;
   ConvMode conv_mode = D.conv_mode;
+  const double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
   dream_idx_type fft_len = block_len + B_M - 1;
 
   // Input vectors.
@@ -122,6 +123,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) { // Replace the old contents.
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +142,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +160,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +171,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
@@ -194,6 +199,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) { // Replace the old contents.
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +215,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +233,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +242,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign*y[l];
           }
         }
 
-- 
2.43.0


From f2f7adde3a48ef107b9a0ed178ac4805ca345887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 52/74] fix: MEX: fftconv_ola: do not skip columns when B is a
 vector

---
 extra_src/mex_fftconv_ola.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index f12c3ac..9232eb2 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -259,8 +259,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
-- 
2.43.0


From 4875071f32f6df7cbf0008ae2aa6b12306ce456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 53/74] fix: MEX: reject a zero block length in fftconv_ola

---
 extra_src/mex_fftconv_ola.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 9232eb2..a6a1432 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -359,7 +359,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
   block_len = (dream_idx_type) mxGetPr(prhs[2])[0]; // Get scalar
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     dream_err_msg("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
   }
 
-- 
2.43.0


From baf5d5b8acc43817187aa7e1298afa27aa6ad8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 54/74] fix: MEX: obey the mode of in-place FFT convolutions
 also when wisdom is given

---
 extra_src/mex_fftconv_ola.cc | 21 ++++++++++++++++++---
 extra_src/mex_fftconv_p.cc   | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index a6a1432..584e7bd 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -449,7 +449,22 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
 
   case 6: // In-place mode if 6 input args.
-    if ( mxIsChar(prhs[5]) ) { // 6:th arg is a string (fftw wisdom).
+    if ( mxIsChar(prhs[4]) && mxIsChar(prhs[5]) ) { // 5th arg is a mode string and 6:th arg fftw wisdom.
+
+      // Read the in-place mode string.
+      char *mode_str = mxArrayToString(prhs[4]);
+      std::string ip_mode(mode_str);
+      mxFree(mode_str);
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        dream_err_msg("Non-valid string in arg 5!");
+      }
 
       // Read the wisdom string.
       char *str = mxArrayToString(prhs[5]);
@@ -461,8 +476,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       } else {
         load_wisdom = true;
       }
-    } else { // 6th arg not a string
-      dream_err_msg("Argument 6 is not a valid string format!");
+    } else { // 5th or 6th arg not a string
+      dream_err_msg("Arguments 5 and 6 are not in a valid string format!");
     }
     break;
 
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index e982699..2d5ba51 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -334,7 +334,22 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
 
   case 5: // In-place mode if input 5 args.
-    if (mxIsChar(prhs[4])) { // 5:th arg is a string (FFTW wisdom).
+    if (mxIsChar(prhs[3]) && mxIsChar(prhs[4])) { // 4th arg is a mode string and 5:th arg FFTW wisdom.
+
+      // Read the in-place mode string.
+      char *mode_str = mxArrayToString(prhs[3]);
+      std::string ip_mode(mode_str);
+      mxFree(mode_str);
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        dream_err_msg("Non-valid string in arg 4!");
+      }
 
       char *str = mxArrayToString(prhs[4]);
       wisdom_str += str;
@@ -346,8 +361,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
         load_wisdom = true;
       }
 
-    } else { // 5th arg not a string
-      dream_err_msg("Argument 5 is not a valid string format!");
+    } else { // 4th or 5th arg not a string
+      dream_err_msg("Arguments 4 and 5 are not in a valid string format!");
     }
     break;
 
-- 
2.43.0


From 1ba457efe1e43414f931c7dab81178fe1ffaba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 55/74] fix: MEX: sum_fftconv: a one-row U holds one sample per
 input

---
 extra_src/mex_sum_fftconv.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 8280b76..736dcac 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -228,11 +228,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("3rd dimension of arg 1 must match the number of columns in arg 2\n");
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
-- 
2.43.0


From 190fb4a17b379134ac6a43c39ecc8a3c955a070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 56/74] fix: MEX: sum_fftconv: free the matrix pointers also
 after an error

---
 extra_src/mex_sum_fftconv.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 736dcac..d75a5c7 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -23,6 +23,7 @@
 
 #include <csignal>
 #include <thread>
+#include <vector>
 #include <complex>
 
 #include "mex.h"
@@ -214,7 +215,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   H_L = dv[2];
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::vector<double*> H_vec(H_L);
+  double **H = H_vec.data();
   double* tmp_p = mxGetPr(prhs[0]);
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = &(tmp_p[H_M*H_N*k]);
@@ -447,10 +449,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
 
-  if (H) {
-    free(H);
-  }
-
 
   // FIXME: Should we really return this here?
 
-- 
2.43.0


From ee22084a5b31e51bcb8b5ba4f5f6c1b3a7161c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 57/74] fix: MEX: free the thread handles of every call

---
 extra_src/mex_circ_sir.cc    | 1 +
 extra_src/mex_conv_p.cc      | 1 +
 extra_src/mex_copy_p.cc      | 1 +
 extra_src/mex_fftconv_ola.cc | 1 +
 extra_src/mex_fftconv_p.cc   | 1 +
 extra_src/mex_scirc_sir.cc   | 1 +
 extra_src/mex_sum_fftconv.cc | 1 +
 7 files changed, 7 insertions(+)

diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index 9bd827c..333cfa8 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -319,6 +319,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     threads[thread_n].join();
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   //
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 756ce4b..e89c5c5 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -336,6 +336,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 9c95a4a..24b2e9e 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -278,6 +278,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 584e7bd..4503eda 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -627,6 +627,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
 
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index 2d5ba51..eaf0ef7 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -514,6 +514,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index d22b974..a9e670e 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -335,6 +335,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     threads[thread_n].join();
 
   // Free memory.
+  delete[] threads;
   free((void*) D);
 
   //
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index d75a5c7..5fd3955 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -426,6 +426,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
-- 
2.43.0


From c7c194142143eb523929f540dc54c8ecc82a693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 58/74] fix: MEX: re-install the previous signal handler after
 a call

---
 mex/mex_dream_arr_circ.cc   | 5 +++--
 mex/mex_dream_arr_cylind.cc | 5 +++--
 mex/mex_dream_arr_rect.cc   | 5 +++--
 mex/mex_dreamcirc.cc        | 5 +++--
 mex/mex_dreamcirc_f.cc      | 5 +++--
 mex/mex_dreamcylind.cc      | 5 +++--
 mex/mex_dreamline.cc        | 5 +++--
 mex/mex_dreamrect.cc        | 5 +++--
 mex/mex_dreamrect_f.cc      | 5 +++--
 mex/mex_dreamsphere.cc      | 5 +++--
 10 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index f3f3a95..bcecba0 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -25,6 +25,7 @@
 
 #include "dream_arr_circ.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -164,8 +165,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCirc arr_circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index 6d3b818..2705d3a 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -25,6 +25,7 @@
 
 #include "dream_arr_cylind.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -165,8 +166,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCylind arr_cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 229a81a..b241f31 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -25,6 +25,7 @@
 
 #include "dream_arr_rect.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -165,8 +166,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrRect arr_rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index 8487182..4cc9c4b 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -25,6 +25,7 @@
 
 #include "dreamcirc.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index ad92e8b..3624d5b 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -25,6 +25,7 @@
 
 #include "dreamcirc_f.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -121,8 +122,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index 9795813..e05f62b 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -25,6 +25,7 @@
 
 #include "dreamcylind.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Cylind cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index 585fb1a..f313397 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -25,6 +25,7 @@
 
 #include "dreamline.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 6757227..4447d56 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -25,6 +25,7 @@
 
 #include "dreamrect.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index 91ab2f6..2d3b6e8 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -25,6 +25,7 @@
 
 #include "dreamrect_f.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -121,8 +122,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index 3bf1b8a..9c60832 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -25,6 +25,7 @@
 
 #include "dreamsphere.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Sphere sphere;
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
-- 
2.43.0


From 414f1a2302660b8bd6564d6b679719bd66941b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 59/74] fix: MEX: use the single precision object in the single
 precision das

---
 extra_src/mex_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index eb953fa..b6881d7 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -320,7 +320,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
     std::signal(SIGABRT, DAS<float>::abort);
-- 
2.43.0


From 6e7f0fb93b72ac64becf1baad6e8292412a4a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 60/74] fix: MEX: use the device argument of das also when
 verbose is given

---
 extra_src/mex_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index b6881d7..b25e681 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -242,7 +242,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(prhs[9])) {
       dream_err_msg("Argument 10 must be a string");
-- 
2.43.0


From 29fb1c6192733008633b28570b2b79c712783806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 61/74] fix: MEX: require an A-scan for each transmit-receive
 combination in das

---
 extra_src/mex_das.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index b25e681..b1e3c42 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -224,6 +224,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   DASType das_type;
   ap.parse_das_arg("das", prhs, 7, das_type);
 
+  // Check that there is an A-scan for each transmit-receive combination.
+  if (mxGetN(prhs[0]) < num_t_elements*((das_type == DASType::saft || num_r_elements == 0) ? 1 : num_r_elements)) {
+    dream_err_msg("Argument 1 must have one column (A-scan) for each transmit-receive combination!");
+  }
+
   //
   // Error reporting.
   //
-- 
2.43.0


From 3ec717669ac9708fd8635a77a7081db6bda8decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 62/74] fix: MEX: das: read dt and cp of any numeric class

---
 extra_src/mex_das.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index b1e3c42..70828bb 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -170,11 +170,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double dt_d = 0.0;
 
   if (use_float) {
-    float *s_par_f = (float*) mxGetData(prhs[4]);
-    dt_f = s_par_f[0];
+    dt_f = (float) mxGetScalar(prhs[4]); // Single or double precision.
   } else {
-    double *s_par_d = mxGetPr(prhs[4]);
-    dt_d = s_par_d[0];
+    dt_d = mxGetScalar(prhs[4]);
   }
 
   //
@@ -210,11 +208,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double cp_d = 0.0;
 
   if (use_float) {
-    float *m_par_f = (float*) mxGetData(prhs[6]);
-    cp_f = m_par_f[0];
+    cp_f = (float) mxGetScalar(prhs[6]); // Single or double precision.
   } else {
-    double *s_par_d = mxGetPr(prhs[6]);
-    cp_d = s_par_d[0];
+    cp_d = mxGetScalar(prhs[6]);
   }
 
   //
-- 
2.43.0


From 1a76c03caf8bb21d83e1730375f6c3aee37017b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 63/74] fix: MEX: stop das on SIGINT

---
 extra_src/mex_das.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 70828bb..154c3ef 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -25,6 +25,7 @@
 
 #include "das.h"
 #include "arg_parser.h"
+#include "signal_handler.h"
 
 #include "mex.h"
 
@@ -323,9 +324,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     das_f->set_running();
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -359,11 +357,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
 
     das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
   }
 
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
-- 
2.43.0


From b74628644024df61e90c0b7cbbdebc7659cfdd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 64/74] fix: MEX: das_uni: require an A-scan for each
 transmit-receive combination and use SAFT when gr is empty

---
 extra_src/mex_das_uni.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index bc6239c..8933265 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -255,6 +255,23 @@ min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3])
   DASType das_type;
   ap.parse_das_arg("das_uni", prhs, 7, das_type);
 
+  // SAFT is also selected if gr is empty.
+  if (mxGetM(prhs[2])*mxGetN(prhs[2]) == 0) {
+    das_type = DASType::saft;
+  }
+
+  // Check that there is an A-scan for each transmit-receive combination.
+  dream_idx_type num_scans = use_float ?
+    (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.0) : (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.0);
+  if (das_type != DASType::saft) {
+    num_scans *= use_float ?
+      (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.0) : (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.0);
+  }
+
+  if (mxGetN(prhs[0]) < num_scans) {
+    dream_err_msg("Argument 1 must have one column (A-scan) for each transmit-receive combination!");
+  }
+
 //
   // Init DAS and output arg.
   //
-- 
2.43.0


From 4689ba6b4b7f083083fbc9f510d77594752a15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 65/74] fix: Julia: use the win_par argument in the array
 functions

---
 julia/src/jl_dream_arr_annu.cc   | 2 +-
 julia/src/jl_dream_arr_circ.cc   | 2 +-
 julia/src/jl_dream_arr_cylind.cc | 2 +-
 julia/src/jl_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 18922ea..9da1b01 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -130,7 +130,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index 1a01b3e..ef1bfa6 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index 7887996..18ce8cb 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 2fcac32..3221b51 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From cab5f6c6bdd5469b1bb44867140f4c3675b103ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 66/74] fix: Julia: count rings in dream_arr_annu

---
 julia/src/jl_dream_arr_annu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 9da1b01..53e73d4 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -68,10 +68,10 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Error in dream_arr_annu!");
   }
 
-  auto G_m = ap.get_len(jl_G);
   double *G = ap.get_data(jl_G);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = (dream_idx_type) ap.get_len(jl_G);
+  dream_idx_type num_elements = (num_radii+1)/2; // The number of rings.
 
   //
   // Temporal and spatial sampling parameters.
@@ -170,7 +170,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
                                          dx, dy,  dt, nt,
                                          delay_type, delay,
                                          v, cp,
-                                         num_elements, G,
+                                         num_radii, G,
                                          foc_met, focal.get(),
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
-- 
2.43.0


From dc130081555e9da390aaeea7b49a29b984a02c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 67/74] fix: Julia: tell about out-of-bounds events in
 dreamcylind

---
 julia/src/jl_dreamcylind.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index d64b43e..463be11 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -145,6 +145,10 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
     throw std::runtime_error("Error in dreamcylind!");
   }
 
+  if (err == SIRError::warn_out_of_bounds) {
+    std::cout << "Warning: SIR out-of-bounds!" << std::endl;
+  }
+
   return jl_h_mat;
 }
 
-- 
2.43.0


From 7feaac5b5fa8b509c976648e388c15ab792d3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 68/74] fix: Julia: accept the gpu device in das and reject
 unknown devices

---
 julia/include/jl_das.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index 67fc2a1..b1b1b33 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -140,7 +140,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From fea63dd2292e2358db258bed62fa717683b473d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 69/74] fix: Julia: tell about the out-of-bounds event in the
 exception of das

---
 julia/include/jl_das.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index b1b1b33..36c06d1 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -233,11 +233,11 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
         dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
+        throw std::runtime_error("DAS out-of-bounds!\n");
       } else {
         dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+        throw std::runtime_error("CTRL-C pressed!\n");
       }
-
-      throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
     }
 
 #ifdef USE_OPENCL
-- 
2.43.0


From cc0ccbc0929b883c116f4f5b11a97def29146607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:38 +0000
Subject: [PATCH 70/74] fix: Julia: require an A-scan for each transmit-receive
 combination in das

---
 julia/include/jl_das.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index 36c06d1..c82f20d 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -88,6 +88,11 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
     Gr = static_cast<T*>(ap.get_data(jl_Gr));
   }
 
+  // Check that there is an A-scan for each transmit-receive combination.
+  if ((dream_idx_type) ap.get_n(jl_Y) < num_t_elements*(num_r_elements > 0 ? num_r_elements : 1)) {
+    throw std::runtime_error("Argument 1 must have one column (A-scan) for each transmit-receive combination!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From 612ac26d9f96680a1eaee47b284821d6f5013186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 71/74] fix: Julia: reject responses with less than one time
 sample

---
 include/arg_parser_julia.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/arg_parser_julia.h b/include/arg_parser_julia.h
index bacd33a..e3a48f0 100644
--- a/include/arg_parser_julia.h
+++ b/include/arg_parser_julia.h
@@ -211,6 +211,12 @@ public:
       retval=false;
     }
 
+    if (retval && !(get_data(jl_s_par)[num_pars-1] >= 1.0)) {
+      s << func_name <<  " requires that sampling par arg has at least one time sample!";
+      dream_err_msg(s.str().c_str());
+      retval=false;
+    }
+
     if (retval) {
       dx = get_data(jl_s_par)[0]; // Spatial x-direction discretization size.
       dy = get_data(jl_s_par)[1]; // Spatial y-direction discretization size.
-- 
2.43.0


From 72f74fb6f41fd968737b75bb1bd73ee155138e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 72/74] fix: Julia: free the thread handles of every call

---
 julia/src/jl_conv_p.cc    | 1 +
 julia/src/jl_fftconv_p.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index bffd5d1..c882a3c 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -261,6 +261,7 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index dc17fc9..2683502 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -324,6 +324,7 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Free memory.
   if (D) {
+    delete[] threads;
     free((void*) D);
   }
 
-- 
2.43.0


From 0ebc714f1d8ab73d3e4a794548cce7260041344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 73/74] fix: Julia: re-install the previous signal handler
 after a call and stop das on SIGINT

---
 julia/include/jl_das.hpp         | 5 +++--
 julia/src/jl_dream_arr_annu.cc   | 5 +++--
 julia/src/jl_dream_arr_circ.cc   | 5 +++--
 julia/src/jl_dream_arr_cylind.cc | 5 +++--
 julia/src/jl_dream_arr_rect.cc   | 5 +++--
 julia/src/jl_dreamcirc.cc        | 5 +++--
 julia/src/jl_dreamcirc_f.cc      | 5 +++--
 julia/src/jl_dreamcylind.cc      | 5 +++--
 julia/src/jl_dreamline.cc        | 5 +++--
 julia/src/jl_dreamrect.cc        | 5 +++--
 julia/src/jl_dreamrect_f.cc      | 5 +++--
 julia/src/jl_dreamsphere.cc      | 5 +++--
 12 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index c82f20d..eaa170d 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -215,8 +216,8 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
 
   das->set_running();
 
-  // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 53e73d4..fe91e88 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_annu.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -158,8 +159,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
 
   ArrAnnu arr_annu;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index ef1bfa6..5c47b1d 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_circ.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -181,8 +182,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
 
   ArrCirc arr_circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index 18ce8cb..9e5a001 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_cylind.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -181,8 +182,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
 
   ArrCylind arr_cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 3221b51..b4a842a 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_rect.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -181,8 +182,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
 
   ArrRect arr_rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcirc.cc b/julia/src/jl_dreamcirc.cc
index 6a7559c..a3e96eb 100644
--- a/julia/src/jl_dreamcirc.cc
+++ b/julia/src/jl_dreamcirc.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -120,8 +121,8 @@ jl::ArrayRef<double, 2> jl_dreamcirc(jl::ArrayRef<double, 2> jl_ro,
 
   Circ circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcirc_f.cc b/julia/src/jl_dreamcirc_f.cc
index 2e9308d..4f9465a 100644
--- a/julia/src/jl_dreamcirc_f.cc
+++ b/julia/src/jl_dreamcirc_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc_f.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -133,8 +134,8 @@ jl::ArrayRef<double, 2> jl_dreamcirc_f(jl::ArrayRef<double, 2> jl_ro,
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index 463be11..24374db 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcylind.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -120,8 +121,8 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
 
   Cylind cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamline.cc b/julia/src/jl_dreamline.cc
index 5283b4b..d501eae 100644
--- a/julia/src/jl_dreamline.cc
+++ b/julia/src/jl_dreamline.cc
@@ -26,6 +26,7 @@
 
 #include "dreamline.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -120,8 +121,8 @@ jl::ArrayRef<double, 2> jl_dreamline(jl::ArrayRef<double, 2> jl_ro,
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamrect.cc b/julia/src/jl_dreamrect.cc
index f9af430..e60106a 100644
--- a/julia/src/jl_dreamrect.cc
+++ b/julia/src/jl_dreamrect.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -120,8 +121,8 @@ jl::ArrayRef<double, 2> jl_dreamrect(jl::ArrayRef<double, 2> jl_ro,
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamrect_f.cc b/julia/src/jl_dreamrect_f.cc
index 05d36b9..e29b5f3 100644
--- a/julia/src/jl_dreamrect_f.cc
+++ b/julia/src/jl_dreamrect_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect_f.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -133,8 +134,8 @@ jl::ArrayRef<double, 2> jl_dreamrect_f(jl::ArrayRef<double, 2> jl_ro,
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamsphere.cc b/julia/src/jl_dreamsphere.cc
index 58e6065..213455b 100644
--- a/julia/src/jl_dreamsphere.cc
+++ b/julia/src/jl_dreamsphere.cc
@@ -26,6 +26,7 @@
 
 #include "dreamsphere.h"
 #include "arg_parser_julia.h"
+#include "signal_handler.h"
 
 namespace jl = jlcxx;
 
@@ -120,8 +121,8 @@ jl::ArrayRef<double, 2> jl_dreamsphere(jl::ArrayRef<double, 2> jl_ro,
 
   Sphere sphere;
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (until we return).
+  SignalHandler signal_handler(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
-- 
2.43.0


From 4919784cd324f31e892dae6b124631c6197a180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 74/74] fix: Julia: tell what is wrong with user defined
 apodization vectors

---
 include/arg_parser_julia.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/arg_parser_julia.h b/include/arg_parser_julia.h
index e3a48f0..215c030 100644
--- a/include/arg_parser_julia.h
+++ b/include/arg_parser_julia.h
@@ -372,6 +372,7 @@ public:
           std::memcpy(focal, tmp_focal, num_elements*sizeof(T));
         } else {
           s << func_name << " focal vector not initialzed!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         }
       }
@@ -515,6 +516,7 @@ public:
       // Vector of apodization weights.
       if (get_len(jl_apod) != num_elements) {
         s << func_name <<  " the length of apodization vector argument must be the same as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_apod = get_data(jl_apod);
@@ -522,6 +524,7 @@ public:
           std::memcpy(apod, tmp_apod, num_elements*sizeof(T));
         } else {
           s << func_name << " apodization vector not initialzed!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         }
       }
-- 
2.43.0

