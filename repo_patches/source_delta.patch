From e8d51ca93e5b4f5ad5874cde93af1199c979e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 01/41] fix: threaded() no longer yields a trailing None and
 raises the error of the video

---
 cddm/video.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..e569c3b 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -586,7 +586,10 @@ def threaded(video, queue_size = 0):
         try:
             for frames in video: 
                 q.put(frames)
-        finally:
+        except BaseException as e:
+            #must be raised in the thread that iterates over the frames
+            q.put(e)
+        else:
             q.put(None)
     
     threading.Thread(target=worker,args = (video,) ,daemon=True).start()
@@ -594,10 +597,11 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
-                
         if out is None:
             break
+        if isinstance(out, BaseException):
+            raise out
+        yield out
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From f8249ed7eb44af5fac7c3579538071d4a8b8f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 02/41] fix: play_threaded() raises the error of the video
 instead of ending as if complete

---
 cddm/video.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cddm/video.py b/cddm/video.py
index e569c3b..08990d1 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -522,7 +522,10 @@ def play_threaded(video, fps = None):
         try:
             for frames in video: 
                 q.put(frames)
-        finally:
+        except BaseException as e:
+            #must be raised in the thread that iterates over the frames
+            q.put(e)
+        else:
             q.put(None)
     
     threading.Thread(target=worker,args = (video,) ,daemon=True).start()
@@ -536,6 +539,8 @@ def play_threaded(video, fps = None):
                 q.task_done()
                 if out is None:
                     break
+                elif isinstance(out, BaseException):
+                    raise out
                 else:
                     yield out
         else:
@@ -546,6 +551,8 @@ def play_threaded(video, fps = None):
                     t0 = time.time()
                 if out is None:
                     break
+                elif isinstance(out, BaseException):
+                    raise out
                 else:
                     yield out
                 if time.time()-t0 >= i/fps:
-- 
2.43.0


From 36a7582dda98ec9d1392b9e10a9b3c855dccd681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 03/41] fix: show_fft() figures no longer share one automatic
 title

---
 cddm/video.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 08990d1..cf118a6 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -667,10 +667,16 @@ def show_fft(video, id = 0, title = None, clip = None, mode = "abs"):
         A multi-frame iterator
     
     """
-    if title is None:
-        title = figure_title("fft - camera {}".format(id))
     norm_func = norm_rfft2(clip, mode)
-    return show_video(video, id = id, title = title, norm_func = norm_func)
+    
+    def _show(title):
+        #figure must be registered immediately after title is determined.
+        if title is None:
+            title = figure_title("fft - camera {}".format(id))
+        for frames in show_video(video, id = id, title = title, norm_func = norm_func):
+            yield frames
+            
+    return _show(title)
                
 
 def show_video(video, id = 0, title = None, norm_func = lambda x : x.real):
-- 
2.43.0


From d0ad2f09b3465f250798ca6bd772ac0a92f03b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 04/41] fix: live figures are removed also when playback fails
 or is closed before the end

---
 cddm/video.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index cf118a6..a9899f7 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -10,6 +10,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 import matplotlib.pyplot as plt
+import functools
 import time   
 from cddm.conf import CDDMConfig, CV2_INSTALLED,  FDTYPE, PYQTGRAPH_INSTALLED
 from cddm.print_tools import print_progress, print1, print_frame_rate
@@ -418,7 +419,20 @@ def pause(i = 1):
         
 #placehold for imshow figures        
 _FIGURES = {}
+
+def _clear_figures(play_function):
+    """A decorator for play functions. Removes imshow figures when playback is
+    finished, when it fails, or when it is closed before the end of the video."""
+    @functools.wraps(play_function)
+    def _play(*args, **kwargs):
+        try:
+            for frames in play_function(*args, **kwargs):
+                yield frames
+        finally:
+            _FIGURES.clear()
+    return _play
              
+@_clear_figures
 def play(video, fps = 100., max_delay = 0.1):
     """Plays video for real-time visualization. 
     
@@ -475,9 +489,8 @@ def play(video, fps = 100., max_delay = 0.1):
             
         yield frames
         
-    _FIGURES.clear()
-    
 
+@_clear_figures
 def play_threaded(video, fps = None):
     """Plays video for real-time visualization. 
     
@@ -568,8 +581,6 @@ def play_threaded(video, fps = None):
                 queue.task_done()
         i+=1
         pause()
-            
-    _FIGURES.clear()
     
 def threaded(video, queue_size = 0):
     """
-- 
2.43.0


From 0bb655f35ec18230f15f1419edde884224728a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 05/41] fix: streaming and multitau results have the shape of
 the frame also with 1D frames, and with mask and thread_divisor combined

---
 cddm/core.py     | 17 ++++++++++++-----
 cddm/multitau.py | 14 +++++++-------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..334615e 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -331,7 +331,7 @@ def reshape_frame(frame, shape, mask = None):
     else:
         return x
     
-def reshape_output(data, shape = None, mask = None):
+def reshape_output(data, shape = None, mask = None, nlead = None):
     """Reshapes output data as returned from ccorr,acorr functions
     to original frame shape data.
     
@@ -351,6 +351,10 @@ def reshape_output(data, shape = None, mask = None):
     mask : ndarray, optional
         If provided, reconstruct reshaped data to original shape, prior to masking
         with mask.
+    nlead : int, optional
+        Number of leading axes of the data that do not belong to the frame (0 for
+        linear data, 1 for multilevel data). If not given, it is determined from
+        the dimensions of the data.
         
     Returns
     -------
@@ -364,7 +368,7 @@ def reshape_output(data, shape = None, mask = None):
         if i != 1 and x is not None: 
             x = x.reshape(shape)
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(lead + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -376,10 +380,13 @@ def reshape_output(data, shape = None, mask = None):
         if mask is None:
             raise ValueError("Either `mask` or `shape` must be defined")
         shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
+    if nlead is not None:
+        lead = data[0].shape[0:nlead]
+    elif mask is None:
+        lead = data[0].shape[0:-(len(shape)+1)]
     else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        lead = data[0].shape[0:-mask.ndim]
+    shape = lead + tuple(shape) + (data[0].shape[-1],) 
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..55ac12a 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -298,7 +298,7 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     print_frame_rate(length, t0)
     
     #reshape back to original data shape
-    return tuple((reshape_output(o, kshape, mask = mask) for o in out))
+    return tuple((reshape_output(o, kshape, mask, nlead) for nlead, o in enumerate(out)))
 
 
 def ccorr_multi(f1,f2, t1 = None, t2 = None,  level_size = 2**4, norm = None, method = None, align = False, axis = 0,
@@ -1035,12 +1035,12 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             
             if stats == True:
                 if cross:
-                    yield tuple((reshape_output(o, original_shape,mask) for o in out)), (reshape_frame(out_bg1,original_shape,mask), reshape_frame(out_bg2,original_shape,mask)), (reshape_frame(out_var1,original_shape,mask), reshape_frame(out_var2,original_shape,mask))
+                    yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out))), (reshape_frame(out_bg1,original_shape,mask), reshape_frame(out_bg2,original_shape,mask)), (reshape_frame(out_var1,original_shape,mask), reshape_frame(out_var2,original_shape,mask))
                 else:
-                    yield tuple((reshape_output(o, original_shape,mask) for o in out)), reshape_frame(out_bg1,original_shape,mask),  reshape_frame(out_var1,original_shape,mask)
+                    yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out))), reshape_frame(out_bg1,original_shape,mask),  reshape_frame(out_var1,original_shape,mask)
 
             else:
-                yield tuple((reshape_output(o, original_shape,mask) for o in out))
+                yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out)))
     
     if i < nframes-1:
         print (i)
@@ -1079,12 +1079,12 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     print_frame_rate(nframes, t0)
     if stats == True:
         if cross:
-            yield tuple((reshape_output(o, original_shape,mask) for o in out)), (reshape_frame(out_bg1,original_shape,mask), reshape_frame(out_bg2,original_shape,mask)), (reshape_frame(out_var1,original_shape,mask), reshape_frame(out_var2,original_shape,mask))
+            yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out))), (reshape_frame(out_bg1,original_shape,mask), reshape_frame(out_bg2,original_shape,mask)), (reshape_frame(out_var1,original_shape,mask), reshape_frame(out_var2,original_shape,mask))
         else:
-            yield tuple((reshape_output(o, original_shape,mask) for o in out)), reshape_frame(out_bg1,original_shape,mask),  reshape_frame(out_var1,original_shape,mask)
+            yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out))), reshape_frame(out_bg1,original_shape,mask),  reshape_frame(out_var1,original_shape,mask)
     
     else:
-        yield tuple((reshape_output(o, original_shape,mask) for o in out))
+        yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out)))
 
 def iccorr_multi(data, t1 = None, t2 = None, level_size = 2**4, norm = None, method = "corr", count = None, period = 1,
                  binning = None, nlevel = None, chunk_size = None, thread_divisor = None,  
-- 
2.43.0


From c74d2417cf5479f1fe985bc0d88200ad44a7503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 06/41] fix: no wrap-around and no reads out of bounds when
 more delays than frames are requested

---
 cddm/_core_nb.py | 37 +++++++++++++++++--------------------
 cddm/core.py     |  8 ++++----
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..9ecceb6 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -573,13 +573,11 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     out_length = len(dummy)
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
-    length = len(x)
-    tmp1 = np.empty((length*2), x.dtype)
-    tmp1[0:length] = x
-    tmp1[length:] = 0.
-    tmp2 = np.empty((length*2), y.dtype)
-    tmp2[0:length] = y
-    tmp2[length:] = 0.  
+    length = max(len(x), out_length) #no wrap-around if more delays than frames
+    tmp1 = np.zeros((length*2), x.dtype)
+    tmp1[0:len(x)] = x
+    tmp2 = np.zeros((length*2), y.dtype)
+    tmp2[0:len(y)] = y
     x = _fft(tmp1, overwrite_x = True)
     y = _fft(tmp2, overwrite_x = True)
     
@@ -596,10 +594,9 @@ def _cross_corr_fft_regular(x, y, dummy, out):
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
-    length = len(x)
-    tmp = np.empty((length*2), x.dtype)
-    tmp[0:length] = x
-    tmp[length:] = 0.
+    length = max(len(x), out_length) #no wrap-around if more delays than frames
+    tmp = np.zeros((length*2), x.dtype)
+    tmp[0:len(x)] = x
  
     x = _fft(tmp, overwrite_x = True)
     x = x*np.conj(x)
diff --git a/cddm/core.py b/cddm/core.py
index 334615e..5417b5f 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -200,7 +200,7 @@ def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex
     #use None for "n" argument to determine length needed for FFT
     f1,f2,t1,t2,axis,n = _inspect_cross_arguments(f1,f2,t1,t2,axis,n,aout, aout_full_size = complex)
     #determine fft length
-    length = _determine_full_length_cross(f1.shape,t1,t2,axis)
+    length = max(_determine_full_length_cross(f1.shape,t1,t2,axis), n)
             
     #algorithm needs calculation to be done over the last axis.. so move it here
     f1 = np.moveaxis(f1,axis, -1)
@@ -227,7 +227,7 @@ def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout =
     """  
     f,t,axis,n = _inspect_auto_arguments(f,t,axis,n,aout)
     #determine fft length
-    length = _determine_full_length_auto(f.shape,t,axis)
+    length = max(_determine_full_length_auto(f.shape,t,axis), n)
                 
     #algorithm needs calculation to be done over the last axis.. so move it here
     f = np.moveaxis(f,axis, -1)
@@ -843,7 +843,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
     time_inversion = bool(time_inversion)
     f,f,t,t_other,axis,n = _inspect_cross_arguments(f,f,t,t_other,axis,n, aout,dtype = None, aout_full_size = complex)
 
-    length = _determine_full_length_cross(f.shape,t,t_other,axis)
+    length = max(_determine_full_length_cross(f.shape,t,t_other,axis), n)
         
     #algorithm needs calculation to be done over the last axis.. so move it here
     f = np.moveaxis(f,axis, -1)
@@ -940,7 +940,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
 
     f,t,axis,n = _inspect_auto_arguments(f,t,axis,n,aout, dtype = None)
     
-    length = _determine_full_length_auto(f.shape,t,axis)
+    length = max(_determine_full_length_auto(f.shape,t,axis), n)
         
     #algorithm needs calculation to be done over the last axis.. so move it here
     f = np.moveaxis(f,axis, -1)
-- 
2.43.0


From d98d73ecd4c75b86339cde2f2cb738557450e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 07/41] fix: complex streaming auto-correlation no longer loses
 the pairs of neighbouring chunks

---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 55ac12a..75a781f 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -930,7 +930,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #earlier chunk first, so that delays are positive
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1004,7 +1005,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From fc3dd45f316ab22775204e38d13502bf9dba88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 08/41] fix: streaming auto-correlation with method 'diff'
 works with more than one chunk

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 75a781f..033647b 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -808,6 +808,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From 42d2f2229dcf52d5524512fd3ab6bf27ef8481c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 09/41] fix: no empty levels when nlevel exceeds the number of
 levels that fill a chunk

---
 cddm/multitau.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 033647b..a3863a4 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -755,10 +755,10 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
-            raise ValueError("Invalid nlevel")
         nlevel = min(int(nlevel),n_decades_max -1)
+        if nlevel < 0:
+            raise ValueError("Invalid nlevel")
+        n_decades = min(nlevel + 1, n_decades)
               
     t_slow = np.arange(nframes)
           
-- 
2.43.0


From 80534a5f5fcbe7ac422276093bdc043da5a5e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 10/41] fix: levels of in-memory complex multitau correlation
 have the size of the delays computed

---
 cddm/multitau.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index a3863a4..7244bf7 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -232,16 +232,16 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     if axis == -1:
         new_axis = -1
         slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (_full_size(n_slow),) if complex and cross else slow_shape
     else:
         new_axis = axis
         slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (_full_size(n_slow),) + k_shape[-1:] if complex and cross else slow_shape
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, _full_size(n_slow),),IDTYPE) if complex and cross else np.zeros((nlevel, n_slow,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From b758b551b14b611eba34f46168e03950ce792b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 11/41] fix: streaming multitau with BINNING_FIRST takes the
 first of each pair, as in-memory multitau and the documentation

---
 cddm/multitau.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 7244bf7..6bb0c12 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -433,9 +433,12 @@ def _add_data1(i,x, out, binning = True, r = None):
                     x = x if r > 0.5 else out[j-1,index_top-1,...]
                     out[j,index_low,...] = x                    
             else:
+                #first of the pair
                 if OPTIMIZE_LAYOUT:
+                    x = out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
                 else:
+                    x = out[j-1,index_top-1,...]
                     out[j,index_low,...] = x
             
             index_top = index_low
@@ -484,10 +487,15 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2                    
             else:
+                #first of the pair
                 if OPTIMIZE_LAYOUT:
+                    x1 = out1[j-1,...,index_top-1,:]
+                    x2 = out2[j-1,...,index_top-1,:]
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
                 else:
+                    x1 = out1[j-1,index_top-1,...]
+                    x2 = out2[j-1,index_top-1,...]
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2            
             index_top = index_low
-- 
2.43.0


From 7b64cffb15439e63930a69e2e5c49f2765a79a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 12/41] fix: in-memory multitau with BINNING_CHOOSE selects the
 same frames of both cameras and of the squared signal

---
 cddm/multitau.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 6bb0c12..48f7d8e 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -271,11 +271,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        r = np.random.rand() #the same random selection for all data
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From 49009042641f1cc01c1f09e3c317afbf4077f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 13/41] fix: message verbosity is no longer changed by
 computations that fail, run concurrently or run with messages disabled

---
 cddm/multitau.py    | 24 +++++++++---------------
 cddm/norm.py        | 15 +++++++--------
 cddm/print_tools.py | 44 ++++++++++++++++++++++++++++++++++++--------
 cddm/viewer.py      | 12 +++++-------
 4 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 48f7d8e..69967bd 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -32,7 +32,7 @@ from cddm.core import _transpose_data, _inspect_cross_arguments,_default_norm,\
 import numpy as np
 
 from cddm.conf import CDTYPE, FDTYPE, IDTYPE
-from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints
+from cddm.print_tools import print_progress,  print_frame_rate, silent, silenced
 from cddm.print_tools import print1, print2
 
 from cddm._core_nb import convolve, _calc_stats_vec,  _abs2
@@ -43,6 +43,9 @@ from cddm.avg import log_interpolate
 
 import time
 
+#these are called with the messages switched off
+ccorr, acorr = silenced(ccorr), silenced(acorr)
+
 #: placehold for matplotlib plots so that they are not garbage collected diring live view
 _VIEWERS = {}
 
@@ -219,7 +222,6 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
 
     
     print_progress(0, 100)        
-    v = disable_prints()
     
 
     if cross == True:
@@ -259,7 +261,6 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     else:
         out = data_fast, (out_slow, count_slow, m1,m2)  
     
-    enable_prints(v) 
     
     progress = 0.5
     progress_int = int(100*progress)
@@ -281,14 +282,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
         
-        v = disable_prints() 
 
         if cross == True:
             ccorr(f1,f2, f1s = f1s, f2s = f2s,axis = axis, n = n_slow, norm = norm, aout = _out, method = method, complex = complex)
         else:
             acorr(f1, fs = f1s,axis = axis, norm = norm, n = n_slow, aout = _out, method = method, complex = complex)
 
-        enable_prints(v)
         progress = progress*0.5
         progress_int = progress_int + int(100*progress)
         
@@ -901,7 +900,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
            
             out = data_fast
                 
-            verbosity = disable_prints() #we do not want to print messages of f()
             
 
             if cross:
@@ -1041,7 +1039,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
 
             out = data_fast, data_slow
                 
-            enable_prints(verbosity)#enable prints back to show progress
             print_progress(i+1, nframes)
             
             if stats == True:
@@ -1057,7 +1054,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
         print (i)
         raise ValueError("Data iterator too short.") 
          
-    verbosity = disable_prints()
     
     #process rest of the data
     
@@ -1084,7 +1080,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
         else:
             acorr(f1, fs = sq1, axis = axis, norm = norm,n = n_slow, aout = out, method = method, complex = complex)
 
-    enable_prints(verbosity)
 
     out =  data_fast, data_slow
     print_frame_rate(nframes, t0)
@@ -1693,7 +1688,6 @@ def normalize_multi(data, background = None, variance = None, norm = None,  mode
     print2("   * mode       : {}".format(mode))
     print2("   * mask       : {}".format(mask is not None))
     
-    level = disable_prints()
     
     
     # if ((norm & NORM_WEIGHTED == NORM_WEIGHTED)):
@@ -1740,12 +1734,12 @@ def normalize_multi(data, background = None, variance = None, norm = None,  mode
     #     multi = normalize(multi, background = background, variance = variance, norm = norm, mode = mode,
     #               scale = scale, mask = mask)  
     
-    lin = normalize(lin, background = background, variance = variance, norm = norm, mode = mode,
-              scale = scale, mask = mask)
-    multi = normalize(multi, background = background, variance = variance, norm = norm, mode = mode,
-              scale = scale, mask = mask)  
+    with silent():
+        lin = normalize(lin, background = background, variance = variance, norm = norm, mode = mode,
+                  scale = scale, mask = mask)
+        multi = normalize(multi, background = background, variance = variance, norm = norm, mode = mode,
+                  scale = scale, mask = mask)  
 
-    enable_prints(level)        
     return lin, multi
 
 #if __name__ == "__main__":
diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..efb61f4 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 from cddm.conf import CDTYPE, FDTYPE
-from cddm.print_tools import print1,print2, enable_prints, disable_prints
+from cddm.print_tools import print1,print2, silent
 
 from cddm._core_nb import normalize_struct_compensated, normalize_corr_compensated,\
     normalize_corr_compensated_subtracted,\
@@ -561,13 +561,14 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
     bg1, bg2 = _inspect_background(background, norm, mask)
     
     if (norm & NORM_WEIGHTED == NORM_WEIGHTED):
-        level = disable_prints()
         norm_comp = (norm & (NORM_SUBTRACTED | NORM_COMPENSATED)) | NORM_STRUCTURED
-        comp_data = normalize(data, background, variance, norm = norm_comp,  mode = mode, 
-              scale = scale, mask = mask)
+        with silent():
+            comp_data = normalize(data, background, variance, norm = norm_comp,  mode = mode, 
+                  scale = scale, mask = mask)
         norm_base = (norm & (NORM_SUBTRACTED| NORM_COMPENSATED))| NORM_STANDARD
-        base_data = normalize(data, background, variance, norm = norm_base,  mode = mode, 
-              scale = scale, mask = mask)
+        with silent():
+            base_data = normalize(data, background, variance, norm = norm_base,  mode = mode, 
+                  scale = scale, mask = mask)
         
         _scale_factor = 1. if scale == True else scale_factor(variance,mask)
         
@@ -616,8 +617,6 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         #         weight = weight_prime_from_data(y_avg, bg1, bg2, delta, scale_factor = _scale_factor, mode = mode)
         #     weight = _nb.log_interpolate(x_interp,x_avg, weight)
         
-        enable_prints(level) 
-        
         if ret_weight == True:
             return weighted_sum(comp_data, base_data,weight), weight
         else:
diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..6c77d3d 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -6,23 +6,50 @@ verbosity levels 1 and 2 enable printing, 0 disables printing messages.
 from __future__ import absolute_import, print_function, division
 
 import time
+import threading
+from contextlib import contextmanager
+from functools import wraps
 import cddm.conf
 
+_local = threading.local()
+
+@contextmanager
+def silent():
+    """Within this context the calling thread prints no messages."""
+    state = getattr(_local, "silent", False)
+    _local.silent = True
+    try:
+        yield
+    finally:
+        _local.silent = state
+
+def silenced(f):
+    """Returns a function that does what `f` does, but prints no messages."""
+    @wraps(f)
+    def _f(*args, **kwargs):
+        with silent():
+            return f(*args, **kwargs)
+    return _f
+
+def _verbose():
+    """Verbosity level in the calling thread"""
+    return 0 if getattr(_local, "silent", False) else cddm.conf.CDDMConfig.verbose
+
 def print1(*args, **kwargs):
     """prints level 1 messages"""
-    if cddm.conf.CDDMConfig.verbose >= 1:
+    if _verbose() >= 1:
         print(*args,**kwargs)
         
 def print2(*args,**kwargs):
     """prints level 2 messages"""
-    if cddm.conf.CDDMConfig.verbose >= 2:
+    if _verbose() >= 2:
         print(*args,**kwargs)
         
 def print_progress (iteration, total, prefix = '', suffix = '', decimals = 1, length = 50, fill = '='):
     """
     Call in a loop to create terminal progress bar
     """
-    if cddm.conf.CDDMConfig.verbose >= 1:
+    if _verbose() >= 1:
         percent = ("{0:." + str(decimals) + "f}").format(100 * (iteration / float(total)))
         filledLength = int(length * iteration // total)
         bar = fill * filledLength + '-' * (length - filledLength)
@@ -35,7 +62,7 @@ def print_progress (iteration, total, prefix = '', suffix = '', decimals = 1, le
         
 def print_frame_rate(n_frames, t0, t1 = None, message = "... processed"):
     """Prints calculated frame rate"""
-    if cddm.conf.CDDMConfig.verbose >= 2:
+    if _verbose() >= 2:
         if t1 is None:
             t1 = time.time()#take current time
         print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, n_frames/(t1-t0)))
@@ -48,9 +75,10 @@ def disable_prints():
     return value
     
 def enable_prints(level = None):
-    """Enable message printing. Returns previous verbosity level"""
-    #set verbosity to positve value
-    value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    """Enable message printing, or restore the level returned by 
+    :func:`disable_prints`. Returns previous verbosity level"""
+    #set verbosity to positve value, or to the given level
+    value = cddm.conf.CDDMConfig.verbose
+    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
                                         
\ No newline at end of file
diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..5a24356 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -7,7 +7,7 @@ from matplotlib.widgets import Slider, Button, RadioButtons, CheckButtons, AxesW
 from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft2_data, as_rfft2_mask, as_rfft2_conj
 from cddm.multitau import normalize_multi, log_merge, log_average
 from cddm.norm import normalize, _default_norm_from_data, _method_from_data, NORM_STRUCTURED, NORM_SUBTRACTED, NORM_WEIGHTED, NORM_STANDARD, NORM_COMPENSATED, fold_data
-from cddm.print_tools import disable_prints, enable_prints
+from cddm.print_tools import silent
 from cddm.decorators import doc_inherit, skip_runtime_error
 
 
@@ -370,9 +370,8 @@ class DataArrayViewer(object):
             self._init_fig()
               
         with np.errstate(divide='ignore', invalid='ignore'):
-            state = disable_prints()
-            t, avg_data = self.get_data()
-            enable_prints(state)            
+            with silent():
+                t, avg_data = self.get_data()
         try:
             self.l.set_ydata(avg_data)
             self.l.set_xdata(t)
@@ -779,9 +778,8 @@ class DataViewer(object):
         self.im.set_data(np.fft.fftshift(self.graph))
                     
         with np.errstate(divide='ignore', invalid='ignore'):
-            state = disable_prints()
-            t, avg_data = self.get_data()
-            enable_prints(state)            
+            with silent():
+                t, avg_data = self.get_data()
         try:
             self.l.set_ydata(avg_data)
             self.l.set_xdata(t)
-- 
2.43.0


From dbed0d8b585f4dd883acddd4c5e9d75ed4a5d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 14/41] fix: print_frame_rate() does not fail when the clock
 did not advance

---
 cddm/print_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 6c77d3d..b7e3c08 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -65,7 +65,9 @@ def print_frame_rate(n_frames, t0, t1 = None, message = "... processed"):
     if _verbose() >= 2:
         if t1 is None:
             t1 = time.time()#take current time
-        print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, n_frames/(t1-t0)))
+        #clocks may be coarse, or set back in the meantime
+        rate = n_frames/(t1-t0) if t1 > t0 else float("nan")
+        print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, rate))
         
 def disable_prints():
     """Disable message printing. Returns previous verbosity level"""
-- 
2.43.0


From 84a77bd25b8ddaff767c06c0fb1b15b294ffe974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 15/41] fix: no stray output when the data iterator is too
 short

---
 cddm/multitau.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 69967bd..1d63450 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1051,7 +1051,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                 yield tuple((reshape_output(o, original_shape, mask, nlead) for nlead, o in enumerate(out)))
     
     if i < nframes-1:
-        print (i)
         raise ValueError("Data iterator too short.") 
          
     
-- 
2.43.0


From 49bdf7571eb33a9c2f03c96eade3b7e7b87071a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 16/41] fix: iacorr() does not fail with its default norm

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index 5417b5f..dbba5c7 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1399,7 +1399,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
-- 
2.43.0


From 300691401c31b278fdf2745660fd93ccb5a0600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 17/41] fix: the output arrays take precedence over n also in
 the fft correlation of irregular data

---
 cddm/core.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index dbba5c7..5ac7532 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -95,16 +95,16 @@ def _inspect_cross_arguments(f1,f2,t1,t2,axis,n, aout, dtype = CDTYPE, aout_full
     if ndim == 0 or f1.shape != f2.shape:
         raise ValueError("Wrong shape of input arrays")
 
-    if n is None:
-        if aout is not None:
-            if not isinstance(aout, np.ndarray):
-                raise TypeError("aout must be a valid numpy array.")
-            if aout_full_size == False:
-                n = aout.shape[-1]
-            else:
-                n = (aout.shape[-1]+1)//2
+    #aout takes precedence over n
+    if aout is not None:
+        if not isinstance(aout, np.ndarray):
+            raise TypeError("aout must be a valid numpy array.")
+        if aout_full_size == False:
+            n = aout.shape[-1]
         else:
-            n = _determine_full_length_cross(f1.shape,t1,t2,axis)
+            n = (aout.shape[-1]+1)//2
+    elif n is None:
+        n = _determine_full_length_cross(f1.shape,t1,t2,axis)
             
     if t1 is not None and t2 is not None:
         t1min,t2min = t1.min(), t2.min()
@@ -154,13 +154,13 @@ def _inspect_auto_arguments(f,t,axis,n,aout, dtype = CDTYPE):
     if ndim == 0:
         raise ValueError("Wrong shape of input arrays")
 
-    if n is None:
-        if aout is not None:
-            if not isinstance(aout, np.ndarray):
-                raise TypeError("aout must be a valid numpy array.")
-            n = aout.shape[-1]
-        else: 
-            n = _determine_full_length_auto(f.shape,t,axis)
+    #aout takes precedence over n
+    if aout is not None:
+        if not isinstance(aout, np.ndarray):
+            raise TypeError("aout must be a valid numpy array.")
+        n = aout.shape[-1]
+    elif n is None: 
+        n = _determine_full_length_auto(f.shape,t,axis)
             
     if t is not None:
         tmin = t.min()
-- 
2.43.0


From 495dd6f7c0516ef126a8421a67a63c80a82c5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 18/41] fix: a correlation that can not be added to the given
 output leaves all output arrays unchanged

---
 cddm/core.py | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/cddm/core.py b/cddm/core.py
index 5ac7532..55ad0d5 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -189,6 +189,44 @@ def _default_out(out, data_shape, n, calc_axis, dtype = FDTYPE, complex = False)
             raise ValueError("Wrong output dtype")
     return out
 
+def _inspect_out(aout, count, f, times, squares, axis):
+    """Raises an error if data can not be added to the output arrays (or if the 
+    input data does not match), before any of the output arrays is modified.
+    
+    Here, aout is a list of (output array, minimum dtype) pairs."""
+    nframes = f.shape[axis]
+    shape = list(f.shape)
+    shape.pop(axis)
+    length = None
+    
+    for t in times:
+        if t is not None and t.shape != (nframes,):
+            raise ValueError("Wrong length of the time sequence")
+    for square in squares:
+        if square is not None and np.shape(square) != f.shape:
+            raise ValueError("Wrong shape of the squared input array")
+    for out, dtype in aout:
+        if out is not None:
+            if not isinstance(out, np.ndarray):
+                raise TypeError("aout must be a tuple of valid numpy arrays.")
+            if length is None:
+                length = out.shape[-1]
+            if out.shape != tuple(shape) + (length,):
+                raise ValueError("Wrong output array shape")
+            if out.dtype not in (FDTYPE, CDTYPE) or not np.can_cast(dtype, out.dtype):
+                raise ValueError("Wrong output dtype")
+            if not out.flags.writeable:
+                raise ValueError("Output array is read-only")
+    if count is not None:
+        if not isinstance(count, np.ndarray):
+            raise TypeError("aout must be a tuple of valid numpy arrays.")
+        if count.dtype != IDTYPE or count.ndim < 1:
+            raise ValueError("Input array is not integer dtype or has wrong dimensions.")
+        if length is not None and count.shape[-1] != length:
+            raise ValueError("Wrong output array shape")
+        if not count.flags.writeable:
+            raise ValueError("Output array is read-only")
+
 def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex = False, aout = None):
     """Calculates cross-correlation function of two equal sized input arrays using FFT.
     
@@ -1086,6 +1124,17 @@ def acorr(f, t = None, fs = None,  n = None,  norm = None,
 
     f,t,axis,n = _inspect_auto_arguments(f,t,axis,n, cor)
     
+    structured = (norm & NORM_STRUCTURED) and correlate
+    subtracted = (norm & NORM_SUBTRACTED) and correlate
+    
+    if aout is not None:
+        out = [(cor, CDTYPE if complex else FDTYPE)]
+        if structured:
+            out.append((sq, CDTYPE if np.iscomplexobj(fs) else FDTYPE))
+        if subtracted:
+            out.append((ds, CDTYPE))
+        _inspect_out(out, count, f, (t,), (fs,) if structured else (), axis)
+    
     nframes = f.shape[axis]
 
     regular = False
@@ -1233,6 +1282,17 @@ def ccorr(f1,f2,t1 = None, t2 = None,  n = None,
 
     f1,f2,t1,t2,axis,n = _inspect_cross_arguments(f1,f2,t1,t2,axis,n,cor,aout_full_size = complex)
     
+    structured = (norm & NORM_STRUCTURED) and correlate
+    subtracted = norm & NORM_SUBTRACTED
+    
+    if aout is not None:
+        out = [(cor, CDTYPE if complex else FDTYPE)]
+        if structured:
+            out.append((sq, CDTYPE if np.iscomplexobj(f1s) or np.iscomplexobj(f2s) else FDTYPE))
+        if subtracted:
+            out.extend(((ds1, CDTYPE), (ds2, CDTYPE)))
+        _inspect_out(out, count, f1, (t1,t2), (f1s,f2s) if structured else (), axis)
+    
     nframes = f1.shape[axis]
     
     regular = False
-- 
2.43.0


From 5263a03f4e5c6ebb4ce26bba384f63ba16bee9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 19/41] fix: particles_video() pairs the k-th frames of the
 cameras also when trigger times of neighbouring pairs overlap

---
 cddm/sim.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..f73b0c6 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -231,8 +231,9 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    #frames waiting for the frame of the other camera
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -262,20 +263,18 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         if i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
         if t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            if out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            if out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From f897682064ae36aaa11a22d9b4dc16797123980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 20/41] fix: data_trigger() without indices yields nothing
 instead of raising IndexError

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index f73b0c6..48a6ca0 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -291,6 +291,9 @@ def data_trigger(data, indices):
     
     t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
     
+    if not t:
+        return
+    
     ii = t.pop()
     
     for i,d in enumerate(data):
-- 
2.43.0


From 83ada77d65a41dbcf0372db8af8a72d661b67946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 21/41] fix: draw_psf() does not write outside the image when
 the PSF is larger than the image

---
 cddm/_sim_nb.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..276aebd 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -143,17 +143,15 @@ def draw_psf(im, points, intensity, sigma):
                 #i = i0 % height
                 
                 # slightly faster implementation of flooring
-                if j0 >= width:
-                    j= j0 - width
-                elif j0 < 0:
-                    j = width + j0
-                else:
-                    j = j0
-                if i0>= height:
-                    i = i0 - height
-                elif i0 < 0:
-                    i = height + i0
-                else:
-                    i = i0
+                j = j0
+                while j >= width:
+                    j = j - width
+                while j < 0:
+                    j = width + j
+                i = i0
+                while i >= height:
+                    i = i - height
+                while i < 0:
+                    i = height + i
                 im[i,j] = im[i,j] + p
     return im  
\ No newline at end of file
-- 
2.43.0


From 35ad6b9fd674a27e3624426dbf68c4635ca899c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 22/41] fix: asarrays() and asmemmaps() raise instead of
 returning uninitialised frames; asmemmaps() accepts any iterable

---
 cddm/video.py | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index a9899f7..0870523 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -48,6 +48,26 @@ def fromarrays(arrays):
     """
     return (frames for frames in zip(*arrays)) 
 
+def _load_video(video, count, empty_arrays):
+    """Loads `count` multi-frames into arrays made by the `empty_arrays` function
+    and verifies that there is data for all elements of these arrays."""
+    out = None
+    j = -1
+    for j, frames in enumerate(video):
+        if out is None:
+            out = empty_arrays(frames)
+        else:
+            print_progress(j, count)
+        if len(frames) != len(out):
+            raise ValueError("Number of cameras changed at frame {}".format(j))
+        for array, frame in zip(out, frames):
+            if frame.shape != array.shape[1:]:
+                raise ValueError("Shape changed at frame {}".format(j))
+            array[j] = frame
+    if out is None or j + 1 < count:
+        raise ValueError("Video has {} frames, expected {}".format(j + 1, count))
+    return out
+
 def asarrays(video, count = None):
     """Loads multi-frame video into numpy arrays. 
      
@@ -68,9 +88,6 @@ def asarrays(video, count = None):
     
     t0 = time.time()
     
-    def _load(array, frame):
-        array[...] = frame
-        
     print1("Loading array...")
     
     if count is None:
@@ -81,14 +98,10 @@ def asarrays(video, count = None):
 
     print_progress(0, count)
     
-    video = iter(video)
-    
-    frames = next(video)
-    out = tuple((np.empty(shape = (count,) + frame.shape, dtype = frame.dtype) for frame in frames))
-    [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-    for j,frames in enumerate(video):
-        print_progress(j+1, count)
-        [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+    def _empty_arrays(frames):
+        return tuple((np.empty(shape = (count,) + frame.shape, dtype = frame.dtype) for frame in frames))
+
+    out = _load_video(video, count, _empty_arrays)
         
     print_progress(count, count)
     print_frame_rate(count,t0)
@@ -123,9 +136,6 @@ def asmemmaps(basename, video, count = None):
         except TypeError:
             raise ValueError("You must provide count")
         
-    def _load(array, frame):
-        array[...] = frame
-        
     def _empty_arrays(frames):
         out = tuple( (np.lib.format.open_memmap(basename + "_{}.npy".format(i), "w+", shape = (count,) + frame.shape, dtype = frame.dtype) 
                       for i,frame in enumerate(frames)))
@@ -134,12 +144,7 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
-    frames = next(video)
-    out = _empty_arrays(frames)
-    [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-    for j,frames in enumerate(video):
-        print_progress(j+1, count)
-        [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+    out = _load_video(video, count, _empty_arrays)
     
     print_progress(count, count)   
     return out
-- 
2.43.0


From e648f63350277344f383c89cf40139afb631a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 23/41] fix: import of conf does not fail when numba may use
 fewer threads than there are cores or threads configured

---
 cddm/conf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..3e7ab99 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -353,8 +353,7 @@ set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_c
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
-    pass
+    set_numba_threads(numba.get_num_threads())
 
 F32 = numba.float32
 F64 = numba.float64
-- 
2.43.0


From 539460c3ee56d832ad54d640949ec0bbaeef13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 24/41] fix: import of conf does not fail when cddm.ini is
 damaged or names an unsupported library

---
 cddm/conf.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 3e7ab99..f82dec5 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -15,10 +15,10 @@ C = None
 NUMBA_PARALLEL = None
 
 try:
-    from configparser import ConfigParser
+    from configparser import ConfigParser, Error as ConfigParserError
 except:
     #python 2.7
-    from ConfigParser import ConfigParser
+    from ConfigParser import ConfigParser, Error as ConfigParserError
 
 #: path to data files
 DATAPATH = os.path.dirname(__file__)
@@ -77,7 +77,13 @@ if not os.path.exists(CONF):
     except:
         warnings.warn("Could not copy config file in user's home directory! Is it writeable?")
         CONF = CONF_TEMPLATE
-config.read(CONF)
+
+try:
+    config.read(CONF)
+except (ConfigParserError, ValueError):
+    #not a valid file, or not a text file
+    warnings.warn("Could not read config file {}, using defaults!".format(CONF))
+    config = ConfigParser()
     
 def _readconfig(func, section, name, default):
     try:
@@ -344,10 +350,18 @@ def set_numba_threads(n):
     CDDMConfig.numba_threads = int(n)
     return out
   
-set_fftlib(_readconfig(config.get, "fft", "fftlib", ("mkl_fft" if MKL_FFT_INSTALLED else "numpy")))
-set_rfft2lib(_readconfig(config.get, "fft", "rfft2lib", "numpy"))
+def _configure_lib(func, section, name, default):
+    value = _readconfig(config.get, section, name, default)
+    try:
+        func(value)
+    except ValueError:
+        warnings.warn("Unsupported {} '{}' in config file, using default!".format(name, value))
+        func(default)
+
+_configure_lib(set_fftlib, "fft", "fftlib", ("mkl_fft" if MKL_FFT_INSTALLED else "numpy"))
+_configure_lib(set_rfft2lib, "fft", "rfft2lib", "numpy")
 set_verbose(_readconfig(config.getint, "core", "verbose", 0))
-set_showlib(_readconfig(config.get, "core", "showlib", "cv2" if CV2_INSTALLED else "matplotlib"))
+_configure_lib(set_showlib, "core", "showlib", "cv2" if CV2_INSTALLED else "matplotlib")
 set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_cores()))
 
 try:
-- 
2.43.0


From 8b3d4b8c78afd8517e2e5f047fa1903a0ca75511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 25/41] fix: cddm.ini is created complete or not at all

---
 cddm/conf.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index f82dec5..b75e192 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -5,7 +5,7 @@ Configuration and constants
 from __future__ import absolute_import, print_function, division
 
 import numpy as np
-import os, warnings, shutil
+import os, warnings, shutil, errno
 
 #These will be defined later at runtime... here we hold reference to disable warnings in autoapi generation
 I = None
@@ -71,9 +71,20 @@ CONF_TEMPLATE = os.path.join(DATAPATH, "cddm.ini")
 
 config = ConfigParser()
 
-if not os.path.exists(CONF):
+def _is_missing(path):
+    """Whether there is certainly no such file"""
     try:
-        shutil.copy(CONF_TEMPLATE, CONF)
+        os.stat(path)
+    except OSError as e:
+        return e.errno == errno.ENOENT
+    return False
+
+if _is_missing(CONF):
+    #the file must never be seen incomplete, so copy first, then rename.
+    _tmp = "{}.{}.tmp".format(CONF, os.getpid())
+    try:
+        shutil.copy(CONF_TEMPLATE, _tmp)
+        os.rename(_tmp, CONF)
     except:
         warnings.warn("Could not copy config file in user's home directory! Is it writeable?")
         CONF = CONF_TEMPLATE
-- 
2.43.0


From d383d867e82a7c119d5df2c40a63f53ebc388b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 26/41] fix: correlation viewers work with matplotlib >= 3.7

---
 cddm/viewer.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 5a24356..48ef8de 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -207,7 +207,7 @@ class CustomRadioButtons(RadioButtons):
         Further parameters are passed on to `Legend`.
         """
         AxesWidget.__init__(self, ax)
-        self.activecolor = activecolor
+        self._activecolor = activecolor
         axcolor = ax.get_facecolor()
         self.value_selected = None
 
@@ -230,7 +230,11 @@ class CustomRadioButtons(RadioButtons):
         kwargs.setdefault("frameon", False)    
         self.box = ax.legend(circles, labels, loc="center", **kwargs)
         self.labels = self.box.texts
-        self.circles = self.box.legendHandles
+        try:
+            self.circles = self.box.legend_handles
+        except AttributeError:
+            #matplotlib < 3.7
+            self.circles = self.box.legendHandles
         for c in self.circles:        
             c.set_picker(5)
             
@@ -250,6 +254,25 @@ class CustomRadioButtons(RadioButtons):
             return
         if event.artist in self.circles:
             self.set_active(self.circles.index(event.artist))
+            
+    def set_active(self, index):
+        """Selects button with number *index* and triggers callbacks."""
+        if index not in range(len(self.labels)):
+            raise ValueError("Invalid RadioButton index: {}".format(index))
+        self.value_selected = self.labels[index].get_text()
+        
+        for i, p in enumerate(self.circles):
+            p.set_facecolor(self._activecolor if i == index else self.ax.get_facecolor())
+
+        if self.drawon:
+            self.ax.figure.canvas.draw()
+
+        if self.eventson:
+            if _matplotlib_3_4_or_greater:
+                self._observers.process('clicked', self.value_selected)
+            else:
+                for func in list(self.observers.values()):
+                    func(self.value_selected)
 
 #: available complex correlation data representation modes
 AVAILABLE_DATA_REPR_MODES = ("real", "imag", "abs", "phase")
-- 
2.43.0


From 26322832856abe89bce878b1f9663b52fb386c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 27/41] fix: sector slider of the viewers cannot be moved to
 the invalid value 0

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 48ef8de..b12c8f7 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -676,7 +676,7 @@ class DataViewer(object):
         self.angleindex = Slider(self.angleax, "angle",-90,90,valinit = self.angle, valfmt='%.2f')        
 
         self.sectorax = plt.axes([0.1, 0.05, 0.65, 0.03])
-        self.sectorindex = Slider(self.sectorax, "sector",0,180,valinit = self.sector, valfmt='%.2f') 
+        self.sectorindex = Slider(self.sectorax, "sector",0.01,180,valinit = self.sector, valfmt='%.2f') 
         
 
         def update(val):
-- 
2.43.0


From bc49bdc9ea9ebac18ab461d6c854c61dbf1c8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 28/41] fix: array viewers accept any choice of axes

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index b12c8f7..b489293 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -336,7 +336,7 @@ class DataArrayViewer(object):
         self.selectorindex.on_clicked(update_mode)
 
     def set_indices(self,*vals):
-        indices = [slice(None)] * len(self.axes)
+        indices = [slice(None)] * (max(self.axes) + 1 if self.axes else 0)
         for i,ax in enumerate(self.axes):
             indices[ax] = vals[i]
         self.indices = tuple(indices)
-- 
2.43.0


From dd63fab9841f40bec5e90f09747b80cf30b2ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 29/41] fix: get_k() of the viewers works with data of a masked
 video

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index b489293..940fef6 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -739,7 +739,7 @@ class DataViewer(object):
         """Returns average k value of current data."""
         if self.mask is None:
             raise ValueError("Mask not specified, you must first set mask.")
-        return self.kmap[self.mask].mean()
+        return self.kmap[self.graph_mask].mean()
     
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
-- 
2.43.0


From c41262b94c8ea805c6c34f5b696fbf307535bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 30/41] fix: viewers do not fold complex data when fold = False

---
 cddm/viewer.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 940fef6..b1101f9 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -516,15 +516,21 @@ class CorrArrayViewer(DataArrayViewer):
         self.variance = variance
         self.shape = self.data[0].shape
         
+    def _is_folded(self):
+        #whether complex data is to be folded, as requested by user or determined from background and variance
+        if self.fold is not None:
+            return bool(self.fold)
+        if self.background is None and self.variance is None:
+            raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+        return isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+
     def _get_avg_data(self):
         
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._is_folded():
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
             # folding has already been made, so set to False
@@ -584,10 +590,8 @@ class MultitauArrayViewer(CorrArrayViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._is_folded():
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
             t, data = log_merge(*data, fold = False)
@@ -934,14 +938,20 @@ class CorrViewer(DataViewer):
         if self.computed_mask is None:
             self.kisize, self.kjsize = self.kshape
         
+    def _is_folded(self):
+        #whether complex data is to be folded, as requested by user or determined from background and variance
+        if self.fold is not None:
+            return bool(self.fold)
+        if self.background is None and self.variance is None:
+            raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+        return isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+
     def _get_avg_data(self):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._is_folded():
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
             # folding has already been made, so set to False
@@ -1022,10 +1032,8 @@ class MultitauViewer(CorrViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._is_folded():
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
             t, data = log_merge(*data, fold = False)
-- 
2.43.0


From 169c7896f1ba4dd59f13ca4d0013894a1051fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 31/41] fix: crop Fourier data to kimax = 0 or kjmax = 0
 instead of raising

---
 cddm/fft.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..066323f 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1: #there are no negative wavenumbers if kimax == 0
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,13 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        #there are no negative wavenumbers if kimax == 0 (or kjmax == 0)
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From c181bc89adbfbd9fe036916b97686e3e3186effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 32/41] fix: rfft2_video takes the real part of complex frames
 with scipy too

---
 cddm/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 066323f..aaf6ed1 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -74,7 +74,7 @@ def _rfft2(a, overwrite_x = False, extra = {}):
         out = mkl_fft.rfftn_numpy(a.real,axes =(-2, -1), **extra)
         #return mkl_fft.fft2(a, overwrite_x = overwrite_x)[...,0:cutoff]
     elif libname == "scipy":
-        out = spfft.fft2(a, overwrite_x = overwrite_x, **extra)[...,0:cutoff]
+        out = spfft.fft2(a.real, overwrite_x = overwrite_x, **extra)[...,0:cutoff] #force real in case input is complex
     elif libname == "numpy":
         out = np.fft.rfft2(a.real, **extra) #force real in case input is complex
     elif libname == "pyfftw":
-- 
2.43.0


From 3e63c0a26eb196f398d4cffe8758bceb0408a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 33/41] fix: k_select failed for rfft2 data and for a single k,
 and ignored the mask in the mean k

---
 cddm/map.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..9d1fd2e 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,9 +309,12 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
+    if computed_mask is not None:
+        ks = kmap[mask & from_rfft2_data(computed_mask, kmap.shape)]
+    else:
+        ks = kmap[mask]
     conj_mask = as_rfft2_conj(mask)
+    mask = as_rfft2_mask(mask)
     
     if computed_mask is not None:
         mask = mask & computed_mask
@@ -668,7 +671,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 28255452413b9e1476c206842dd95f0d2b6d9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 34/41] fix: VideoViewer iterates over a video that can not be
 indexed only once

A video that starts from its beginning each time it is iterated over showed
its first frames again and again, whatever the position of the slider.
---
 cddm/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index b1101f9..7027b20 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -66,6 +66,10 @@ class VideoViewer(object):
             except TypeError:
                 raise Exception("You must specify count!")
                 
+        if not hasattr(video, "__getitem__"):
+            #frames are taken one after another, so there must be a single iterator
+            video = iter(video)
+                
         self._norm = norm_func
                 
         self.id = id
-- 
2.43.0


From 4371068b704fccf09de0081295c8b2e77675d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 35/41] fix: live display with pyqtgraph works with its recent
 versions

pause used QtGui.QApplication, which pyqtgraph does not provide since 0.13, so
that playback with pyqtgraph failed at the first frame.
---
 cddm/video.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 0870523..01a32f2 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -30,7 +30,6 @@ if CV2_INSTALLED:
     
 if PYQTGRAPH_INSTALLED:
     import pyqtgraph as pg
-    from pyqtgraph.Qt import QtGui
     pg.setConfigOptions(imageAxisOrder = "row-major")
 
 def fromarrays(arrays):
@@ -417,9 +416,7 @@ def pause(i = 1):
     elif CDDMConfig.showlib == "matplotlib":
         plt.pause(i/1000.)
     else: 
-        app = QtGui.QApplication.instance()
-        if app is None:
-            app = QtGui.QApplication([])
+        app = pg.mkQApp()
         app.processEvents()
         
 #placehold for imshow figures        
-- 
2.43.0


From 6f3ab73ba9f7a8bc51ad51ff14a02c09895c69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 36/41] fix: streaming computation accepts double precision
 data when single precision is configured

---
 cddm/multitau.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 1d63450..a5b28bc 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -831,8 +831,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             axis = -2 if OPTIMIZE_LAYOUT else 0
             
              
-        x1 = x1.reshape(shape) 
-        x2 = x2.reshape(shape) if cross else None
+        x1 = np.asarray(x1, CDTYPE).reshape(shape) 
+        x2 = np.asarray(x2, CDTYPE).reshape(shape) if cross else None
         
             
         if i < half_chunk_size and auto_background == True:
-- 
2.43.0


From ca0f04c03810f167dc96934c5c23f6819991f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 37/41] fix: cross_sum_fft and auto_sum_fft work in single
 precision

---
 cddm/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 55ad0d5..26ed072 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -896,7 +896,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE)
         
         if complex == False:  
             return _cross_sum_fft(f,y,t,length,out, out)
@@ -992,7 +992,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE)
 
         out0 = _cross_sum_fft(f,y,t,length,out0, out0)
 
-- 
2.43.0


From 93a814256bb028458eacdf4be7b762fda3c4d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 38/41] fix: normalization with the variance offset works in
 single precision

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index efb61f4..8043fdc 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -440,7 +440,7 @@ def _corr2diff(data, variance, mask):
 
 def _variance2offset(variance, mask):
     #offset for norm == 2 type of normalization
-    return scale_factor(variance, mask)[..., None]
+    return np.asarray(scale_factor(variance, mask), FDTYPE)[..., None]
     
 
 def _inspect_background(background, norm, mask):
-- 
2.43.0


From 6fd3c61a51fab0255d090fd549d9b811ec00906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 39/41] fix: particle coordinates are mirrored in single
 precision too

---
 cddm/sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 48a6ca0..c9522f7 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -129,7 +129,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
     if len(shape) != 2:
         raise ValueError("Wrong `shape`, must be 2D.")
     
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = np.zeros(2, FDTYPE), np.asarray(shape,FDTYPE)
     
     x = mirror(x,x1,x2) #make sure we start in the box
     
@@ -493,8 +493,8 @@ def coordinate_transform(data, shape, offset = None, rotation = None):
 
     data = _coordinate_rotate(data, rotation = rotation) + offset
         
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
-    return mirror(data,x1,x2) #make sure we start in the box
+    x1, x2 = np.zeros(2, FDTYPE), np.asarray(shape,FDTYPE)
+    return mirror(np.asarray(data, FDTYPE),x1,x2) #make sure we start in the box
         
 def _coordinate_rotate(data, rotation = None):
     if rotation is None:
-- 
2.43.0


From db23dbdf3d7af6df407ff7024cb0d2492001bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 40/41] fix: adc works in single precision

---
 cddm/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index c9522f7..c057da2 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -457,6 +457,7 @@ def adc(frame,  saturation = 32768, black_level = 0, bit_depth = "14bit",
         max_value = np.uint8(max_value)
     else:
         max_value = np.uint16(max_value)
+    saturation, black_level = np.array(saturation, FDTYPE), np.array(black_level, FDTYPE)
     return adc_clean(frame,saturation,black_level, max_value, out = out)
 
 def coordinate_transform(data, shape, offset = None, rotation = None):
-- 
2.43.0


From e340227d283652137a7b7501d3729fdc746a83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 41/41] fix: overlapping particles are not drawn by several
 threads at once

---
 cddm/_sim_nb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 276aebd..95a946a 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -8,7 +8,7 @@ import numpy as np
 import numba as nb
 import math
 
-from cddm.conf import U16,U8,F,I, NUMBA_TARGET, NUMBA_PARALLEL , NUMBA_CACHE, NUMBA_FASTMATH
+from cddm.conf import U16,U8,F,I, NUMBA_TARGET, NUMBA_CACHE, NUMBA_FASTMATH
 
 
 #this is so simple that it is faster to compute in cpu mode
@@ -123,7 +123,7 @@ def adc_16bit(frame, scale, black_level):
     out = _adc_scale(frame, scale, black_level)
     return int(out*65536) if out < 1. else 65535
 
-@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, parallel = NUMBA_PARALLEL, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
+@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
 def draw_psf(im, points, intensity, sigma):
     """Draws psf to image from a given points array"""
     assert points.shape[1] == 2
@@ -133,7 +133,8 @@ def draw_psf(im, points, intensity, sigma):
     height, width = im.shape
     
     size = int(round(3*sigma.max()))
-    for k in nb.prange(nparticles):
+    #particles may overlap, so they must be drawn one by one
+    for k in range(nparticles):
         h0,w0  = points[k,0], points[k,1]
         h,w = int(h0), int(w0) 
         for i0 in range(h-size,h+size+1):
-- 
2.43.0

