From 5e5cb3fb2b67791fba388e70756fd18a3a2f4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 001/107] fix: accept the documented explicit-dimension
 arguments in the state_index/num_states/pack_state functions

The unknown-key filter applied to the optimization_inputs kwargs rejected
Ncameras_intrinsics, Nframes, ... and the index given by keyword
---
 mrcal-pywrap.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 86dc537..e78129b 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1488,12 +1488,17 @@ static bool _handle_renamed(PyArrayObject** old, const char* name_old,
 static PyObject* _optimization_inputs_known_keys_frozenset;
 //  Replace the kwargs to keep only those that are known. The unknown ones that
 //  are not null trigger an error. This is intended for forwards compatibility
+//
+//  keywords_extra is a NULL-terminated list of the arguments the calling function
+//  accepts in addition to the optimization_inputs. May be NULL. keywords_extra[0]
+//  may be NULL
 static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
-                                                      bool* need_decref_kwargs)
+                                                      bool* need_decref_kwargs,
+                                                      char* const* keywords_extra)
 {
     *need_decref_kwargs = false;
 
-    if(!PyDict_Check(*kwargs))
+    if(*kwargs == NULL || !PyDict_Check(*kwargs))
         return true;
 
     PyObject* kwargs_new = PyDict_New();
@@ -1516,6 +1521,10 @@ static bool optimization_inputs_kwargs_delete_unknown(PyObject** kwargs,
             Py_DECREF(kwargs_new);
             return false;
         }
+        if(keywords_extra != NULL)
+            for(char* const* k = keywords_extra; !contains && *k != NULL; k++)
+                contains = PyUnicode_Check(key) &&
+                    0 == PyUnicode_CompareWithASCIIString(key, *k);
         if(contains)
         {
             if(0 != PyDict_SetItem(kwargs_new, key, value))
@@ -1586,7 +1595,7 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, NULL))
         goto done;
 
     int calibration_object_height_n = -1;
@@ -2212,7 +2221,15 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     OPTIMIZE_ARGUMENTS_OPTIONAL(ARG_DEFINE);
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    char* keywords_extra[] = { "Ncameras_intrinsics",
+                               "Ncameras_extrinsics",
+                               "Nframes",
+                               "Npoints",
+                               "Nobservations_board",
+                               "Nobservations_point",
+                               (char*)argname, // may be NULL
+                               NULL };
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, keywords_extra))
         goto done;
 
     int i = -1;
@@ -3432,7 +3449,15 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
     PyArrayObject* b = NULL;
 
     bool need_decref_kwargs = false;
-    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs))
+    char* keywords_extra[] = { "b",
+                               "Ncameras_intrinsics",
+                               "Ncameras_extrinsics",
+                               "Nframes",
+                               "Npoints",
+                               "Nobservations_board",
+                               "Nobservations_point",
+                               NULL };
+    if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, keywords_extra))
         goto done;
 
     int Ncameras_intrinsics = -1;
-- 
2.43.0


From c923294ecd9361485242e5cee9fac32349fe3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 002/107] fix: state_index_...() with an explicit
 Nobservations_board and no observations_board dereferenced NULL

Accept the documented calibration_object_width_n, calibration_object_height_n
---
 mrcal-pywrap.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index e78129b..c791588 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -2227,6 +2227,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                "Npoints",
                                "Nobservations_board",
                                "Nobservations_point",
+                               "calibration_object_width_n",
+                               "calibration_object_height_n",
                                (char*)argname, // may be NULL
                                NULL };
     if(!optimization_inputs_kwargs_delete_unknown(&kwargs, &need_decref_kwargs, keywords_extra))
@@ -2241,6 +2243,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     int Nobservations_board = -1;
     int Nobservations_point = -1;
 
+    int calibration_object_width_n  = -1;
+    int calibration_object_height_n = -1;
+
     char* keywords[] = { (char*)argname,
                          "Ncameras_intrinsics",
                          "Ncameras_extrinsics",
@@ -2248,6 +2253,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                          "Npoints",
                          "Nobservations_board",
                          "Nobservations_point",
+                         "calibration_object_width_n",
+                         "calibration_object_height_n",
                          OPTIMIZE_ARGUMENTS_REQUIRED(NAMELIST)
                          OPTIMIZE_ARGUMENTS_OPTIONAL(NAMELIST)
                          NULL};
@@ -2258,7 +2265,7 @@ static PyObject* state_index_generic(callback_state_index_t cb,
         "i"
         "|$" // everything is kwarg-only and optional. I apply logic down the
              // line to get what I need
-        "iiiiii"
+        "iiiiiiii"
         OPTIMIZE_ARGUMENTS_REQUIRED(PARSECODE)
         OPTIMIZE_ARGUMENTS_OPTIONAL(PARSECODE)
         ":mrcal." CALLED_FUNCTION_BUFFER;
@@ -2284,6 +2291,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2302,6 +2311,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
                                          &Npoints,
                                          &Nobservations_board,
                                          &Nobservations_point,
+                                         &calibration_object_width_n,
+                                         &calibration_object_height_n,
                                          OPTIMIZE_ARGUMENTS_REQUIRED(PARSEARG)
                                          OPTIMIZE_ARGUMENTS_OPTIONAL(PARSEARG) NULL))
             goto done;
@@ -2342,14 +2353,8 @@ static PyObject* state_index_generic(callback_state_index_t cb,
     if(Nobservations_board < 0) Nobservations_board = IS_NULL(observations_board)    ? 0 : PyArray_DIMS(observations_board)    [0];
     if(Nobservations_point < 0) Nobservations_point = IS_NULL(observations_point)    ? 0 : PyArray_DIMS(observations_point)    [0];
 
-    int calibration_object_height_n = -1;
-    int calibration_object_width_n  = -1;
-    if( Nobservations_board > 0 )
-    {
-        calibration_object_height_n = PyArray_DIMS(observations_board)[1];
-        calibration_object_width_n  = PyArray_DIMS(observations_board)[2];
-    }
-
+    if(calibration_object_height_n < 0) calibration_object_height_n = IS_NULL(observations_board) ? 0 : PyArray_DIMS(observations_board)[1];
+    if(calibration_object_width_n  < 0) calibration_object_width_n  = IS_NULL(observations_board) ? 0 : PyArray_DIMS(observations_board)[2];
 
     mrcal_problem_selections_t problem_selections = CONSTRUCT_PROBLEM_SELECTIONS();
 
-- 
2.43.0


From e4464efabbd0acbfd36f715342e7bc8f8ee45305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 003/107] fix: pack_state(), unpack_state() with an empty state
 divided by 0

---
 mrcal-pywrap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index c791588..744abe9 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3582,9 +3582,12 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
     }
 
+    // If Nstate == 0, there's nothing to do
+    const int Nvectors = Nstate > 0 ? PyArray_SIZE(b)/Nstate : 0;
+
     double* x = (double*)PyArray_DATA(b);
     if(pack)
-        for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
+        for(int i=0; i<Nvectors; i++)
         {
             mrcal_pack_solver_state_vector( x,
                                             Ncameras_intrinsics, Ncameras_extrinsics,
@@ -3593,7 +3596,7 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
             x = &x[Nstate];
         }
     else
-        for(int i=0; i<PyArray_SIZE(b)/Nstate; i++)
+        for(int i=0; i<Nvectors; i++)
         {
             mrcal_unpack_solver_state_vector( x,
                                               Ncameras_intrinsics, Ncameras_extrinsics,
-- 
2.43.0


From 68e29e131c584d66c0cd43ab2915dfd5d614312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 004/107] fix: the legacy extrinsics_rt_fromref,
 frames_rt_toref arguments of optimize(), optimizer_callback() were ignored

They were examined after the new names had been replaced with empty arrays. And
failing there skipped the cleanup
---
 mrcal-pywrap.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 744abe9..6445008 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1663,6 +1663,12 @@ PyObject* _optimize(optimizemode_t optimizemode,
         goto done;
     }
 
+    // This must happen BEFORE the new names are replaced with empty arrays below
+    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
+        goto done;
+    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
+        goto done;
+
     // Some of my input arguments can be empty (None). The code all assumes that
     // everything is a properly-dimensioned numpy array, with "empty" meaning
     // some dimension is 0. Here I make this conversion. The user can pass None,
@@ -1697,11 +1703,6 @@ PyObject* _optimize(optimizemode_t optimizemode,
     SET_SIZE0_IF_NONE(imagersizes,                                            NPY_INT32,  0, 2);
 #undef SET_NULL_IF_NONE
 
-    if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
-    if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
-
     mrcal_lensmodel_t mrcal_lensmodel;
     // Check the arguments for optimize(). If optimizer_callback, then the other
     // stuff is defined, but it all has valid, default values
@@ -2320,9 +2321,9 @@ static PyObject* state_index_generic(callback_state_index_t cb,
 #undef CALLED_FUNCTION_BUFFER
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
     mrcal_lensmodel_t mrcal_lensmodel = {};
 
@@ -3525,9 +3526,9 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
 
     if(!handle_renamed(extrinsics_rt_fromref, rt_cam_ref))
-        return false;
+        goto done;
     if(!handle_renamed(frames_rt_toref, rt_ref_frame))
-        return false;
+        goto done;
 
 
     // checks dimensionality of array !IS_NULL. So if any array isn't passed-in,
-- 
2.43.0


From 43cacb77e09851268fe3156cf2471fe40c83eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 005/107] fix: optimize(intrinsics=None) crashed

---
 mrcal-pywrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 6445008..f16c90d 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -991,6 +991,12 @@ static bool optimize_validate_args( // out
     OPTIMIZER_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
     CROSS_REPROJECTION_CALLBACK_ARGUMENTS_OPTIONAL_EXTRA(CHECK_LAYOUT);
 
+    if(IS_NULL(intrinsics))
+    {
+        BARF("'intrinsics' MUST be given as an array");
+        return false;
+    }
+
     int Ncameras_intrinsics = PyArray_DIMS(intrinsics)[0];
     int Ncameras_extrinsics = PyArray_DIMS(rt_cam_ref)[0];
     if( PyArray_DIMS(imagersizes)[0] != Ncameras_intrinsics )
-- 
2.43.0


From 427fe36e8bf0ede1b8ae2bf2274605c500fa06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 006/107] fix: optimize() with Npoints_fixed<0 accessed memory
 out of bounds

---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index f16c90d..4efa30f 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1144,6 +1144,11 @@ static bool optimize_validate_args( // out
     }
 
     int Npoints = PyArray_DIMS(points)[0];
+    if( Npoints_fixed < 0 )
+    {
+        BARF("Npoints_fixed MUST be >= 0. Got %d", Npoints_fixed);
+        return false;
+    }
     if( Npoints > 0 )
     {
         if(Npoints_fixed > Npoints)
-- 
2.43.0


From 8540e182f48b6484e0b11773ed515a23dfef62bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 007/107] fix: a triangulated point observed twice from the
 same camera pose crashed the solver

With both observations at the reference there is no translation to look at, and
the NULL pose was dereferenced
---
 mrcal-pywrap.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 4efa30f..1106f2e 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1423,6 +1423,20 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
         }
         else if(ipoint == ipoint_current)
         {
+            // A point cannot be triangulated from two observations at the same
+            // pose
+            for(int j = i - Npoints_in_this_set; j < i; j++)
+            {
+                const int32_t icam_extrinsics_j =
+                    c_observations_point_triangulated[j].icam.extrinsics;
+                if( icam_extrinsics_j == icam_extrinsics ||
+                    (icam_extrinsics_j < 0 && icam_extrinsics < 0) )
+                {
+                    BARF("Error in indices_point_triangulated_camintrinsics_camextrinsics[%d]. This point was already observed from the same camera pose: icam_extrinsics=%d",
+                         i, icam_extrinsics);
+                    return -1;
+                }
+            }
             Npoints_in_this_set++;
         }
         else if(ipoint == ipoint_current+1)
-- 
2.43.0


From 3949e1dc00fed57b79f487fcdefd0ae1a83e5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 008/107] fix: num_measurements(), ... crashed if given
 indices_point_triangulated_camintrinsics_camextrinsics = None

---
 mrcal-pywrap.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 1106f2e..b31c18c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1330,7 +1330,7 @@ int fill_c_observations_point_triangulated(// output. I fill in the given arrays
 
                                            const PyArrayObject* indices_point_triangulated_camintrinsics_camextrinsics)
 {
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         return 0;
 
     int result = -1;
@@ -3245,7 +3245,7 @@ static PyObject* callback_num_measurements(int i,
 
     int N = 0;
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics != NULL)
+    if(!IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
         N = PyArray_DIM(indices_point_triangulated_camintrinsics_camextrinsics, 0);
     else
     {
@@ -3325,7 +3325,7 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     int icam_extrinsics;
 
-    if(Nobservations_board > 0 && indices_frame_camintrinsics_camextrinsics == NULL)
+    if(Nobservations_board > 0 && IS_NULL(indices_frame_camintrinsics_camextrinsics))
     {
         BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
         return NULL;
@@ -3339,12 +3339,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
 
     if(Nobservations_point > 0)
     {
-        if(indices_point_camintrinsics_camextrinsics == NULL)
+        if(IS_NULL(indices_point_camintrinsics_camextrinsics))
         {
             BARF("Have Nobservations_point > 0, but indices_point_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
             return NULL;
         }
-        if(observations_point == NULL)
+        if(IS_NULL(observations_point))
         {
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
@@ -3400,7 +3400,7 @@ static PyObject* callback_decode_observation_indices_points_triangulated(int ime
 {
 
 
-    if(indices_point_triangulated_camintrinsics_camextrinsics == NULL)
+    if(IS_NULL(indices_point_triangulated_camintrinsics_camextrinsics))
     {
         BARF("No triangulated points in this solve. Nothing to decode");
         return NULL;
-- 
2.43.0


From 3a2cf0779c871623dc1b8b14191ea8dc764c4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 009/107] fix: optimizer_callback() reported a wrong jacobian
 shape, or raised, when the trailing columns of J are empty

---
 mrcal-pywrap.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index b31c18c..017d0d4 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -37,11 +37,14 @@
 // adds a reference to P,I,X, unless an error is reported
 static PyObject* csr_from_cholmod_sparse( PyObject* P,
                                           PyObject* I,
-                                          PyObject* X )
+                                          PyObject* X,
+                                          int Nrows, int Ncols )
 {
     // I do the Python equivalent of this;
-    // scipy.sparse.csr_matrix((data, indices, indptr))
-
+    // scipy.sparse.csr_matrix((data, indices, indptr), shape)
+    //
+    // The shape is needed: without it scipy infers it from the largest index,
+    // which is too small if the trailing columns are empty
 
     PyObject* result = NULL;
 
@@ -61,9 +64,9 @@ static PyObject* csr_from_cholmod_sparse( PyObject* P,
 
     // Here I'm assuming specific types in my cholmod arrays. I tried to
     // static_assert it, but internally cholmod uses void*, so I can't do that
-    PyObject* MatrixDef = PyTuple_Pack(3, X, I, P);
-    args                = PyTuple_Pack(1, MatrixDef);
-    Py_DECREF(MatrixDef);
+    args = Py_BuildValue("((OOO)(ii))", X, I, P, Nrows, Ncols);
+    if(args == NULL)
+        goto done;
 
     if(NULL == (result = PyObject_CallObject(method, args)))
         goto done; // reuse already-set error
@@ -2032,7 +2035,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
                 {
                     jacobian = csr_from_cholmod_sparse((PyObject*)P,
                                                        (PyObject*)I,
-                                                       (PyObject*)X);
+                                                       (PyObject*)X,
+                                                       Nmeasurements, Nstate);
                     if(jacobian == NULL)
                     {
                         // reuse the existing error
-- 
2.43.0


From 808cb96394282050aa11a58d0fa51eae07132f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 010/107] fix: ingest_packed_state() dropped the intrinsics if
 only the core or only the distortions were optimized; failed without fixed
 points or with the legacy array names

---
 mrcal/utils.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 7b19378..d91186d 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -1149,7 +1149,11 @@ None
 
     intrinsics     = optimization_inputs.get("intrinsics")
     extrinsics     = optimization_inputs.get("rt_cam_ref")
+    if extrinsics is None:
+        extrinsics = optimization_inputs.get("extrinsics_rt_fromref") # legacy name
     frames         = optimization_inputs.get("rt_ref_frame")
+    if frames is None:
+        frames = optimization_inputs.get("frames_rt_toref") # legacy name
     points         = optimization_inputs.get("points")
     calobject_warp = optimization_inputs.get("calobject_warp")
 
@@ -1174,40 +1178,43 @@ None
     b = b_packed.copy()
     mrcal.unpack_state(b, **optimization_inputs)
 
+    # Each array is updated with an indexed assignment: writing into array.ravel()
+    # has no effect if ravel() had to make a copy
     ivar0 = mrcal.state_index_intrinsics(0, **optimization_inputs)
     if ivar0 is not None:
-        iunpacked0,iunpacked1 = None,None # everything by default
-
         lensmodel    = optimization_inputs['lensmodel']
         has_core     = mrcal.lensmodel_metadata_and_config(lensmodel)['has_core']
         Ncore        = 4 if has_core else 0
-        Ndistortions = mrcal.lensmodel_num_params(lensmodel) - Ncore
+
+        # everything by default
+        iunpacked0,iunpacked1 = 0,mrcal.lensmodel_num_params(lensmodel)
 
         do_optimize_intrinsics_core        = optimization_inputs.get('do_optimize_intrinsics_core',        True)
         do_optimize_intrinsics_distortions = optimization_inputs.get('do_optimize_intrinsics_distortions', True)
         if not do_optimize_intrinsics_core:
             iunpacked0 = Ncore
         if not do_optimize_intrinsics_distortions:
-            iunpacked1 = -Ndistortions
+            iunpacked1 = Ncore
 
-        intrinsics[:, iunpacked0:iunpacked1].ravel()[:] = \
-            b[ ivar0:Nvars_intrinsics ]
+        intrinsics[:, iunpacked0:iunpacked1] = \
+            b[ ivar0:ivar0+Nvars_intrinsics ].reshape(len(intrinsics),-1)
 
     ivar0 = mrcal.state_index_extrinsics(0, **optimization_inputs)
     if ivar0 is not None:
-        extrinsics.ravel()[:] = b[ivar0:ivar0+Nvars_extrinsics]
+        extrinsics[:] = b[ivar0:ivar0+Nvars_extrinsics].reshape(extrinsics.shape)
 
     ivar0 = mrcal.state_index_frames(0, **optimization_inputs)
     if ivar0 is not None:
-        frames.ravel()[:] = b[ivar0:ivar0+Nvars_frames]
+        frames[:] = b[ivar0:ivar0+Nvars_frames].reshape(frames.shape)
 
     ivar0 = mrcal.state_index_points(0, **optimization_inputs)
     if ivar0 is not None:
-        points.ravel()[:-Npoints_fixed*3] = b[ivar0:ivar0+Nvars_points]
+        points[:len(points)-Npoints_fixed] = \
+            b[ivar0:ivar0+Nvars_points].reshape(-1,3)
 
     ivar0 = mrcal.state_index_calobject_warp(**optimization_inputs)
     if ivar0 is not None:
-        calobject_warp.ravel()[:] = b[ivar0:ivar0+Nvars_calobject_warp]
+        calobject_warp[:] = b[ivar0:ivar0+Nvars_calobject_warp].reshape(calobject_warp.shape)
 
 
 def sorted_eig(M):
-- 
2.43.0


From a620d3f7dfd6b30ff14707c642135391df96ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 011/107] fix: verbose mrcal_optimize() aborted with
 do_apply_regularization_unity_cam01 and no do_apply_regularization

---
 mrcal.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 4450142..23c761f 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6519,12 +6519,14 @@ mrcal_optimize( // out
             int Ncore = modelHasCore_fxfycxcy(lensmodel) ? 4 : 0;
 
             int Nmeasurements_regularization_distortion  = 0;
-            if(problem_selections.do_optimize_intrinsics_distortions)
+            if(problem_selections.do_apply_regularization &&
+               problem_selections.do_optimize_intrinsics_distortions)
                 Nmeasurements_regularization_distortion =
                     Ncameras_intrinsics*(ctx.Nintrinsics-Ncore);
 
             int Nmeasurements_regularization_centerpixel = 0;
-            if(problem_selections.do_optimize_intrinsics_core)
+            if(problem_selections.do_apply_regularization &&
+               problem_selections.do_optimize_intrinsics_core)
                 Nmeasurements_regularization_centerpixel =
                     Ncameras_intrinsics*2;
 
-- 
2.43.0


From 27a58e6658e2fee83863b041e145554d6a1a7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 012/107] fix: mrcal_project() of several points with dq_dp and
 without dq_dintrinsics wrote all the gradients into the first one

---
 mrcal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal.c b/mrcal.c
index 23c761f..811163e 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -2903,6 +2903,10 @@ bool _mrcal_project_internal( // out
                      intrinsics, NULL, &frame, NULL, true,
                      lensmodel, precomputed,
                      0.0, 0,0);
+
+            // advance
+            if(dq_dp != NULL)
+                dq_dp = &dq_dp[2];
         }
         return true;
     }
-- 
2.43.0


From 8892d4a8fe417ffb6a62723558c5aacc3209c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 013/107] fix: mrcal_project_pinhole() of several points wrote
 every result into the first one

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 811163e..8cb5d84 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -1455,8 +1455,8 @@ void mrcal_project_pinhole( // output
     for(int i=0; i<N; i++)
     {
         double pz_recip = 1. / v[i].z;
-        q->x = v[i].x*pz_recip * fx + cx;
-        q->y = v[i].y*pz_recip * fy + cy;
+        q[i].x = v[i].x*pz_recip * fx + cx;
+        q[i].y = v[i].y*pz_recip * fy + cy;
 
         if(dq_dv)
         {
-- 
2.43.0


From ebd6f47e36b9582771423153351955d7618f2e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 014/107] fix: unproject(get_gradients=True, out=(...)) raised
 a TypeError for lens models that need an iterative solve

---
 mrcal/projections.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mrcal/projections.py b/mrcal/projections.py
index f777533..6729d03 100644
--- a/mrcal/projections.py
+++ b/mrcal/projections.py
@@ -378,8 +378,7 @@ if get_gradients: we return a tuple:
         dv_dq = nps.transpose(np.linalg.solve( nps.transpose(dq_du),
                                                nps.transpose(dv_du) ))
         if out is not None:
-            out[1] *= 0.
-            out[1] += dv_dq
+            out[1][...] = dv_dq
             dv_dq = out[1]
 
 
-- 
2.43.0


From 3ed69c909ac593a91d34efddbff87e7bd7f16101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 015/107] fix: lens model names with an invalid configuration
 were accepted, and then using them crashed

---
 mrcal.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 8cb5d84..0be4af9 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -12,6 +12,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <inttypes.h>
+#include <limits.h>
 
 #include <dogleg.h>
 #include <assert.h>
@@ -124,7 +125,21 @@ static bool LENSMODEL_CAHVORE__scan_model_config( mrcal_LENSMODEL_CAHVORE__confi
                 MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_FMT, )"%n"
                 MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_VAR, ),
                 &pos) &&
-        config_str[pos] == '\0';
+        config_str[pos] == '\0' &&
+        isfinite(config->linearity);
+}
+// sscanf() silently wraps around negative and too-large integers. Here I make
+// sure that all the values in the _a=A_b=B... string fit into uint16_t
+static bool config_values_fit_uint16( const char* config_str )
+{
+    for(const char* s = strchr(config_str, '='); s != NULL; s = strchr(s, '='))
+    {
+        s++;
+        const long x = strtol(s, NULL, 10);
+        if(x < 0 || x > UINT16_MAX)
+            return false;
+    }
+    return true;
 }
 static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_SPLINED_STEREOGRAPHIC__config_t* config, const char* config_str)
 {
@@ -136,7 +151,16 @@ static bool LENSMODEL_SPLINED_STEREOGRAPHIC__scan_model_config( mrcal_LENSMODEL_
                 MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_FMT, )"%n"
                 MRCAL_LENSMODEL_SPLINED_STEREOGRAPHIC_CONFIG_LIST(LENSMODEL_SCAN_CFG_ELEMENT_VAR, ),
                 &pos) &&
-        config_str[pos] == '\0';
+        config_str[pos] == '\0' &&
+        config_values_fit_uint16(config_str) &&
+
+        // Using a model without these would crash
+        (config->order == 2 || config->order == 3) &&
+        config->Nx >= config->order+1 &&
+        config->Ny >= config->order+1 &&
+        config->fov_x_deg > 0 && config->fov_x_deg < 360 &&
+        // the parameter count must be representable
+        (int64_t)config->Nx * (int64_t)config->Ny * 2 + 4 <= INT_MAX;
 }
 
 const char* const* mrcal_supported_lensmodel_names( void )
-- 
2.43.0


From a1422e2810ff7c5bf90eafa7867e71431d57e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 016/107] fix: mrcal_lensmodel_name() rounded the
 LENSMODEL_CAHVORE linearity to 2 digits

---
 mrcal.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 0be4af9..10a2306 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -76,10 +76,15 @@ static int LENSMODEL_CAHVORE__snprintf_model
   (char* out, int size,
    const mrcal_LENSMODEL_CAHVORE__config_t* config)
 {
+    char linearity[64];
+    snprintf( linearity, sizeof(linearity), "%.2f", config->linearity);
+    if( strtod(linearity, NULL) != config->linearity )
+        // The usual representation would lose digits. I need to be able to read
+        // back the same model
+        snprintf( linearity, sizeof(linearity), "%.17g", config->linearity);
+
     return
-        snprintf( out, size, "LENSMODEL_CAHVORE"
-                  MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(LENSMODEL_PRINT_CFG_ELEMENT_FMT, )
-                  MRCAL_LENSMODEL_CAHVORE_CONFIG_LIST(LENSMODEL_PRINT_CFG_ELEMENT_VAR, ));
+        snprintf( out, size, "LENSMODEL_CAHVORE_linearity=%s", linearity);
 }
 static int LENSMODEL_SPLINED_STEREOGRAPHIC__snprintf_model
   (char* out, int size,
-- 
2.43.0


From 968158f0bd98b9ecf6f1c3dce540bd3aa114a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 017/107] fix: pose functions given reversed or broadcasted
 views computed garbage or corrupted memory

---
 poseutils-genpywrap.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/poseutils-genpywrap.py b/poseutils-genpywrap.py
index 71c6abf..1771164 100755
--- a/poseutils-genpywrap.py
+++ b/poseutils-genpywrap.py
@@ -42,6 +42,37 @@ m = npsp.module( name      = "_poseutils_npsp",
 #include <string.h>
 ''')
 
+# The poseutils C functions treat any stride <= 0 as "contiguous". numpy arrays
+# CAN have such strides: a reversed view (x[::-1]) or a broadcasted one
+# (np.broadcast_to(x, ...)). Calling the C functions with those would access the
+# wrong memory, so I reject such arrays. This applies to the slices only: strides
+# in the broadcasted dimensions can be anything at all
+_m_function = m.function
+def _function_positive_strides(*args, **kwargs):
+    if 'Ccode_validate' not in kwargs:
+        prototype_output = kwargs['prototype_output']
+        if len(prototype_output) and isinstance(prototype_output[0], (tuple,list)):
+            outputs = [f'output{i}' for i in range(len(prototype_output))]
+        else:
+            outputs = ['output']
+        kwargs['Ccode_validate'] = ''.join(
+            f'''
+            npy_intp N__{name} = 1; // strides of empty arrays are never used
+            for(int i=0; i<Ndims_full__{name}; i++)
+                N__{name} *= dims_full__{name}[i];
+            for(int i=0; i<Ndims_slice__{name}; i++)
+                if(strides_slice__{name}[i] <= 0 && N__{name} > 0)
+                {{
+                    PyErr_Format(PyExc_RuntimeError,
+                                 "Argument '{name}' has a stride <= 0 in one of its last %d dimensions. This isn't supported; pass in a copy instead",
+                                 Ndims_slice__{name});
+                    return false;
+                }}'''
+            for name in tuple(kwargs['args_input']) + tuple(outputs) ) + '''
+            return true;'''
+    _m_function(*args, **kwargs)
+m.function = _function_positive_strides
+
 m.function( "identity_R",
             """Return an identity rotation matrix
 
-- 
2.43.0


From 99997e95e90b9ba2f5b8c81d431ec9258219b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 018/107] fix: compose_r(), compose_rt() of a tiny rotation and
 a near-full-turn rotation produced a wrong rotation

---
 poseutils-uses-autodiff.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/poseutils-uses-autodiff.cc b/poseutils-uses-autodiff.cc
index 0669d8b..9e06b88 100644
--- a/poseutils-uses-autodiff.cc
+++ b/poseutils-uses-autodiff.cc
@@ -452,7 +452,14 @@ compose_r_core(// output
     // Here I special-case A and B near 0. I do this so avoid dividing by 0 in
     // the /A and /B expressions. There are no /sin(A) and /sin(B) expressions,
     // so I don't need to think about A ~ k pi
-    if(A.x < eps/2.)
+    //
+    // These special-case paths linearize around one rotation being 0. This
+    // linearization has A/tanA and B/tanB, and isn't valid if the OTHER rotation
+    // is near a full turn: B ~ k pi with k>0. The nominal path below works there,
+    // as long as A isn't exactly 0 (A isn't differentiable there)
+    const bool near_full_turn_A = A.x > 1. && fabs(sin(A.x)) < 0.1;
+    const bool near_full_turn_B = B.x > 1. && fabs(sin(B.x)) < 0.1;
+    if(A.x < eps/2. && !(near_full_turn_B && A.x > 0.))
     {
         // A ~ 0. I simplify
         //
@@ -574,7 +581,7 @@ compose_r_core(// output
                 + cross[i] / 2.;
         return;
     }
-    else if(B.x < eps)
+    else if(B.x < eps && !(near_full_turn_A && B.x > 0.))
     {
         // B ~ 0. I simplify
         //
-- 
2.43.0


From facc256ca0b986dfc9c1e38e302d407cbdccdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 019/107] fix: mrcal_compose_rt_full() dereferenced NULL if
 dt_dt0 was wanted, but dt_dt1 was not

---
 poseutils.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/poseutils.c b/poseutils.c
index 6c8f5b8..f7782a9 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -861,9 +861,11 @@ void mrcal_compose_rt_full( // output
         double t10[3] = { rt1[0+3] - rt0[0+3],
                           rt1[1+3] - rt0[1+3],
                           rt1[2+3] - rt0[2+3] };
+        // the caller may want dt_t0, but not dt_t1
+        double dt_t10[9];
         mrcal_rotate_point_r_full( &P1(rt_out,3), rt_out_stride0,
                                    dt_r0, dt_r0_stride0, dt_r0_stride1,
-                                   dt_t1, dt_t1_stride0, dt_t1_stride1,
+                                   dt_t10, -1, -1,
 
                                    rt0, -1,
                                    t10, -1,
@@ -876,11 +878,16 @@ void mrcal_compose_rt_full( // output
                 for(int j=0; j<3; j++)
                     P2(dt_r1,i,j) = 0.;
 
+        if(dt_t1 != NULL)
+            for(int i=0; i<3; i++)
+                for(int j=0; j<3; j++)
+                    P2(dt_t1,i,j) = dt_t10[3*i+j];
+
         // dt01/dt0 = -dt01/dt1
         if(dt_t0 != NULL)
             for(int i=0; i<3; i++)
                 for(int j=0; j<3; j++)
-                    P2(dt_t0,i,j) = -P2(dt_t1,i,j);
+                    P2(dt_t0,i,j) = -dt_t10[3*i+j];
     }
     else if(!inverted0 && inverted1)
     {
-- 
2.43.0


From e689cba01cbf001a707077efe54185914cc29832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 020/107] fix: cameramodel(model) made a copy with unusable
 optimization_inputs

---
 mrcal/cameramodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index ae8a8cb..7289e73 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -875,7 +875,7 @@ ARGUMENTS
                     self._valid_intrinsics_region = None
 
                 if file_or_model._optimization_inputs_string is not None:
-                    self._optimization_inputs_string = str(file_or_model._optimization_inputs_string)
+                    self._optimization_inputs_string = bytes(file_or_model._optimization_inputs_string)
                 else:
                     self._optimization_inputs_string = None
 
-- 
2.43.0


From 1a876d6465eb645c75c211e5dd5b803590d012bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 021/107] fix: cameramodel.optimization_inputs_reset() followed
 by write() produced an unreadable file

---
 mrcal/cameramodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 7289e73..02f1449 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1956,6 +1956,10 @@ RETURNED VALUE
 None
         '''
         self._optimization_inputs_string = None
+        # these make sense only together with the optimization inputs: a model
+        # written with them alone can't be read
+        self._icam_intrinsics            = None
+        self._icam_extrinsics            = None
 
 
     def _optimization_inputs_match(self, other_model):
-- 
2.43.0


From e326fb69d8c7dd5836148644dccc52dbd20c8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 022/107] fix: a failing cameramodel.intrinsics() setter left
 the model partially updated

---
 mrcal/cameramodel.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 02f1449..17fcd21 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1586,14 +1586,15 @@ tuple where
                             icam_intrinsics,
                             icam_extrinsics)
 
-        self._imagersize = np.array(imagersize, dtype=np.int32)
-        self._intrinsics = (str(intrinsics[0]),
-                            np.array(intrinsics[1], dtype=float))
+        # I compute everything first, and store it only if nothing failed
+        imagersize = np.array(imagersize, dtype=np.int32)
+        intrinsics = (str(intrinsics[0]),
+                      np.array(intrinsics[1], dtype=float))
 
+        optimization_inputs_string = None
         if optimization_inputs is not None:
-            self._optimization_inputs_string = \
+            optimization_inputs_string = \
                 _serialize_optimization_inputs(optimization_inputs)
-            self._icam_intrinsics = icam_intrinsics
 
             if icam_extrinsics is None:
                 try:
@@ -1602,11 +1603,12 @@ tuple where
                                                             **optimization_inputs)
                 except Exception as e:
                     raise Exception(f"optimization_inputs given, but icam_extrinsics not given. Inferring icam_extrinsics failed; are the cameras moving? Error: {e}")
-            self._icam_extrinsics = icam_extrinsics
-        else:
-            self._optimization_inputs_string = None
-            self._icam_intrinsics            = None
-            self._icam_extrinsics            = None
+
+        self._imagersize                 = imagersize
+        self._intrinsics                 = intrinsics
+        self._optimization_inputs_string = optimization_inputs_string
+        self._icam_intrinsics            = icam_intrinsics
+        self._icam_extrinsics            = icam_extrinsics
 
         # New intrinsics. Previous valid-intrinsics region is no longer
         # meaningful
-- 
2.43.0


From 097d64d82b5714de808fdc8e8f59107001c0daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 023/107] fix: cameramodel extrinsics setters accepted arrays
 of a wrong shape

---
 mrcal/cameramodel.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 17fcd21..5328f08 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1652,7 +1652,11 @@ The rt transformation TO the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = mrcal.invert_rt(rt.astype(float))
+        rt_cam_ref = mrcal.invert_rt(rt.astype(float))
+
+        # raises exception on error
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1693,7 +1697,11 @@ The rt transformation FROM the reference coordinate system.
 
 
         # setter
-        self._rt_cam_ref = np.array(rt, dtype=float)
+        rt_cam_ref = np.array(rt, dtype=float)
+
+        # raises exception on error
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1733,7 +1741,11 @@ If this is a getter (no arguments given), returns a a numpy array of shape
             return mrcal.invert_Rt(mrcal.Rt_from_rt(self._rt_cam_ref))
 
         # setter
-        self._rt_cam_ref = mrcal.rt_from_Rt(mrcal.invert_Rt(Rt.astype(float)))
+        rt_cam_ref = mrcal.rt_from_Rt(mrcal.invert_Rt(Rt.astype(float)))
+
+        # raises exception on error
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
@@ -1773,7 +1785,11 @@ If this is a getter (no arguments given), returns a a numpy array of shape
             return mrcal.Rt_from_rt(self._rt_cam_ref)
 
         # setter
-        self._rt_cam_ref = mrcal.rt_from_Rt(Rt.astype(float))
+        rt_cam_ref = mrcal.rt_from_Rt(Rt.astype(float))
+
+        # raises exception on error
+        _validateExtrinsics(rt_cam_ref)
+        self._rt_cam_ref = rt_cam_ref
         return True
 
 
-- 
2.43.0


From 1a4d6c8a011a48784a366b78d2167b1e54f8a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:42 +0000
Subject: [PATCH 024/107] fix: a note containing a NUL made the written
 .cameramodel unreadable

---
 mrcal/cameramodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 5328f08..71bc96b 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -505,7 +505,8 @@ A sample valid .cameramodel file:
 
         if note is not None:
             for l in note.splitlines():
-                f.write('# ' + l + '\n')
+                # A NUL would make the file unparseable
+                f.write('# ' + l.replace('\0','') + '\n')
 
         # I write this out manually instead of using repr for the whole thing
         # because I want to preserve key ordering
-- 
2.43.0


From 23838331c56a1e102a216e1da984ac27cf046155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 025/107] fix: byte-swapped arrays were accepted by the Python
 wrapper and misread, crashing sometimes

---
 python-wrapping-utilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python-wrapping-utilities.h b/python-wrapping-utilities.h
index d3c3b92..de4c0e7 100644
--- a/python-wrapping-utilities.h
+++ b/python-wrapping-utilities.h
@@ -101,6 +101,12 @@ static bool _check_layout(const char*    name,
                      name, npy_type_string);
                 return false;
             }
+            if( !PyArray_ISNOTSWAPPED(pyarrayobj) )
+            {
+                BARF("'%s' must have the native byte order",
+                     name);
+                return false;
+            }
             if( do_check_for_contiguity &&
                 !PyArray_IS_C_CONTIGUOUS(pyarrayobj) )
             {
-- 
2.43.0


From 0897b27013c235a1022bcd8f2b216a369b41cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 026/107] fix: corresponding_icam_extrinsics() read and wrote
 out of bounds if given out-of-range indices or inconsistent counts

---
 mrcal-pywrap.c | 12 ++++++++++++
 mrcal.c        | 15 +++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 017d0d4..fa62b07 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3334,6 +3334,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
         BARF("Have Nobservations_board > 0, but indices_frame_camintrinsics_camextrinsics == NULL. Some required arguments missing?");
         return NULL;
     }
+    if(Nobservations_board > 0 && Nobservations_board != PyArray_DIMS(indices_frame_camintrinsics_camextrinsics)[0])
+    {
+        BARF("Inconsistent Nobservations_board: %d vs indices_frame_camintrinsics_camextrinsics says %ld",
+             Nobservations_board, PyArray_DIMS(indices_frame_camintrinsics_camextrinsics)[0]);
+        return NULL;
+    }
     mrcal_observation_board_t c_observations_board[Nobservations_board];
     fill_c_observations_board(// output
                               c_observations_board,
@@ -3353,6 +3359,12 @@ static PyObject* callback_corresponding_icam_extrinsics(int icam_intrinsics,
             BARF("Have Nobservations_point > 0, but observations_point == NULL. Some required arguments missing?");
             return NULL;
         }
+        if(Nobservations_point != PyArray_DIMS(indices_point_camintrinsics_camextrinsics)[0])
+        {
+            BARF("Inconsistent Nobservations_point: %d vs indices_point_camintrinsics_camextrinsics says %ld",
+                 Nobservations_point, PyArray_DIMS(indices_point_camintrinsics_camextrinsics)[0]);
+            return NULL;
+        }
     }
     mrcal_observation_point_t c_observations_point[Nobservations_point];
     fill_c_observations_point(// output
diff --git a/mrcal.c b/mrcal.c
index 10a2306..b8e3c1a 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -3927,6 +3927,8 @@ int mrcal_num_states_calobject_warp(mrcal_problem_selections_t problem_selection
 // returning false
 static
 bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, int i,
+                                            int Ncameras_intrinsics,
+                                            int Ncameras_extrinsics,
                                             int* icam_map_to_extrinsics,
                                             int* icam_map_to_intrinsics,
                                             const char* what)
@@ -3936,6 +3938,15 @@ bool _corresponding_icam_extrinsics__check( const mrcal_camera_index_t* icam, in
 
     if(icam_extrinsics < 0) icam_extrinsics = -1;
 
+    if(icam_intrinsics < 0 || icam_intrinsics >= Ncameras_intrinsics ||
+       icam_extrinsics >= Ncameras_extrinsics)
+    {
+        MSG("Cannot compute icam_extrinsics. %s observation %d has out-of-range icam_intrinsics,icam_extrinsics %d,%d",
+            what, i,
+            icam_intrinsics, icam_extrinsics);
+        return false;
+    }
+
     if(icam_map_to_intrinsics[icam_extrinsics+1] == -100)
         icam_map_to_intrinsics[icam_extrinsics+1] = icam_intrinsics;
     else if(icam_map_to_intrinsics[icam_extrinsics+1] != icam_intrinsics)
@@ -3985,12 +3996,16 @@ bool mrcal_corresponding_icam_extrinsics(// out
 
     for(int i=0; i<Nobservations_board; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_board[i].icam, i,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
                                                    "board"))
             return false;
     for(int i=0; i<Nobservations_point; i++)
         if(!_corresponding_icam_extrinsics__check( &observations_point[i].icam, i,
+                                                   Ncameras_intrinsics,
+                                                   Ncameras_extrinsics,
                                                    icam_map_to_extrinsics,
                                                    icam_map_to_intrinsics,
                                                    "point"))
-- 
2.43.0


From 0d26c12aafb3d9c7f99179896305ee49980640b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 027/107] fix: cameramodel files with non-numeric intrinsics
 (None, strings) were accepted

---
 mrcal/cameramodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 71bc96b..3aec86b 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -640,10 +640,12 @@ A sample valid .cameramodel file:
             else:
                 valid_intrinsics_region = np.zeros((0,2))
 
+        # Validating the data as it was given: np.array(dtype=float) would convert
+        # non-numeric values such as None
+        _validateIntrinsics(model['imagersize'],
+                            (model['lensmodel'], model['intrinsics']))
         intrinsics = (model['lensmodel'], np.array(model['intrinsics'], dtype=float))
 
-        _validateIntrinsics(model['imagersize'],
-                            intrinsics)
         try:
             _validateValidIntrinsicsRegion(valid_intrinsics_region)
         except Exception as e:
-- 
2.43.0


From 192de421f047fd37061bce6a226dbf658b677870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 028/107] fix: camera-model parser: don't put arbitrarily-long
 number tokens on the stack

---
 cameramodel-parser.re | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index cd170da..77029e6 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -165,17 +165,17 @@ static bool ingest_double_consume_ignorable(void* out0, int i,
 
     if(out0 != NULL)
     {
-        int N = e-s;
-        char tok[N+1];
-        memcpy(tok, s, N);
-        tok[N] = '\0';
+        // The buffer is 0-terminated, so I can parse the token in-place. I make
+        // sure that strtod() consumed exactly the token
+        const int N = e-s;
         char* endptr = NULL;
-        ((double*)out0)[i] = strtod(tok, &endptr);
-        if( N == 0 || endptr == NULL || endptr != &tok[N] ||
+        if(N > 0)
+            ((double*)out0)[i] = strtod(s, &endptr);
+        if( N == 0 || endptr != e ||
             !isfinite(((double*)out0)[i]))
         {
-            MSG("Error parsing double-precision value for %s at %ld. String: '%s'",
-                what, (long int)(*pYYCURSOR-start_file), tok);
+            MSG("Error parsing double-precision value for %s at %ld. String: '%.*s'",
+                what, (long int)(*pYYCURSOR-start_file), N, s);
             return false;
         }
     }
-- 
2.43.0


From 36cf2fae444a4aae985ce630e8986c880b4dc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 029/107] fix: camera-model parser: out-of-range integers are
 an error, not a wrapped-around imagersize

---
 cameramodel-parser.re | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 77029e6..b775cdd 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -23,6 +23,8 @@
 #include <string.h>
 #include <float.h>
 #include <math.h>
+#include <limits.h>
+#include <errno.h>
 
 #include "mrcal.h"
 #include "_util.h"
@@ -213,18 +215,19 @@ static bool ingest_uint_consume_ignorable(void* out0, int i,
 
     if(out0 != NULL)
     {
-        int N = e-s;
-        char tok[N+1];
-        memcpy(tok, s, N);
-        tok[N] = '\0';
-        int si = atoi(tok);
-        if( N == 0 || si < 0 )
+        // The buffer is 0-terminated, so I can parse the token in-place. Values
+        // that do not fit are an error
+        const int N = e-s;
+        char* endptr = NULL;
+        errno = 0;
+        unsigned long int u = (N > 0) ? strtoul(s, &endptr, 10) : 0;
+        if( N == 0 || endptr != e || errno != 0 || u > INT_MAX )
         {
-            MSG("Error parsing unsigned int for %s at %ld. String: '%s'",
-                what, (long int)(*pYYCURSOR-start_file), tok);
+            MSG("Error parsing unsigned int for %s at %ld. String: '%.*s'",
+                what, (long int)(*pYYCURSOR-start_file), N, s);
             return false;
         }
-        ((unsigned int*)out0)[i] = (unsigned int)si;
+        ((unsigned int*)out0)[i] = (unsigned int)u;
     }
 
     *pYYCURSOR = YYCURSOR;
-- 
2.43.0


From 926cb4f7f4c0400b3bb41c706e19638b6dff7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 030/107] fix: camera-model parser: don't put an
 arbitrarily-long lensmodel string on the stack

---
 cameramodel-parser.re | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index b775cdd..a2e8e3d 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -472,7 +472,12 @@ bool read_cameramodel_from_string(// output buffer. If it should be allocated,
                             &YYCURSOR, start_file, "lensmodel"))
                 goto done;
 
-            char lensmodel_string[lensmodel.len+1];
+            char lensmodel_string[1024];
+            if(lensmodel.len >= (int)sizeof(lensmodel_string))
+            {
+                MSG("lensmodel string is too long");
+                goto done;
+            }
             memcpy(lensmodel_string, lensmodel.s, lensmodel.len);
             lensmodel_string[lensmodel.len] = '\0';
 
-- 
2.43.0


From f59b697ed803da4efd5d7bc427192dc0830a135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 031/107] fix: camera-model file reader: release the anonymous
 mapping if the file can't be mapped

---
 cameramodel-parser.re | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index a2e8e3d..58764af 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -719,11 +719,11 @@ bool read_cameramodel_from_file(// output buffer. If it should be allocated,
         goto done;
     }
 
-    string = mmap(string, st.st_size,
-                  PROT_READ,
-                  MAP_FIXED | MAP_PRIVATE,
-                  fd, 0);
-    if(string == MAP_FAILED)
+    // On failure I leave "string" alone, so that the anonymous mapping is released
+    if(MAP_FAILED == mmap(string, st.st_size,
+                          PROT_READ,
+                          MAP_FIXED | MAP_PRIVATE,
+                          fd, 0))
     {
         MSG("Couldn't mmap(\"%s\")", filename);
         goto done;
-- 
2.43.0


From d009d765138ec7fc319e50b0e9f5c944ffb2ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 032/107] fix: mrcal_write_cameramodel_file(): write values
 with full precision

---
 mrcal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index b8e3c1a..9b61464 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6705,12 +6705,12 @@ bool mrcal_write_cameramodel_file(const char* filename,
     fprintf(fp, "  'lensmodel':  '%s',\n", lensmodel_string);
     fprintf(fp, "  'intrinsics': [ ");
     for(int i=0; i<Nparams; i++)
-        fprintf(fp, "%f, ", cameramodel->intrinsics[i]);
+        fprintf(fp, "%.17g, ", cameramodel->intrinsics[i]);
     fprintf(fp, "],\n");
     fprintf(fp, "  'imagersize': [ %u, %u ],\n",
             cameramodel->imagersize[0],
             cameramodel->imagersize[1]);
-    fprintf(fp, "  'extrinsics': [ %f, %f, %f, %f, %f, %f ]\n",
+    fprintf(fp, "  'extrinsics': [ %.17g, %.17g, %.17g, %.17g, %.17g, %.17g ]\n",
             cameramodel->rt_cam_ref[0],
             cameramodel->rt_cam_ref[1],
             cameramodel->rt_cam_ref[2],
-- 
2.43.0


From 825866dae2295bbd44fc31a5f5fb832f0514abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 033/107] fix: mrcal_write_cameramodel_file(): report write
 errors

---
 mrcal.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mrcal.c b/mrcal.c
index 9b61464..90c36b9 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6723,7 +6723,16 @@ bool mrcal_write_cameramodel_file(const char* filename,
 
  done:
     if(fp != NULL)
-        fclose(fp);
+    {
+        // If any of the data couldn't be written, this is a failure
+        const bool any_error = (0 != ferror(fp));
+        if(0 != fclose(fp) || any_error)
+        {
+            if(result)
+                MSG("Error writing '%s'", filename);
+            result = false;
+        }
+    }
     return result;
 }
 
-- 
2.43.0


From 101a062939901047c027433310800986ba73bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 034/107] fix: image saving: report errors at fclose()

---
 image.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/image.c b/image.c
index ea1b289..0a05d41 100644
--- a/image.c
+++ b/image.c
@@ -131,7 +131,12 @@ bool generic_save_pnm(const char* filename,
     result = true;
 
 done:
-    if(fp != NULL) fclose(fp);
+    // Some of the data is written only when the file is closed
+    if(fp != NULL && 0 != fclose(fp))
+    {
+        MSG("Couldn't write all the data into '%s'", filename);
+        result = false;
+    }
     return result;
 }
 
@@ -236,10 +241,12 @@ bool generic_save_jpg(const char* filename,
     }
 
     jpeg_finish_compress(&cinfo);
-    fclose(fp);
+    result = (0 == fclose(fp));
+    if(!result)
+        MSG("Couldn't write all the data into '%s'", filename);
     jpeg_destroy_compress(&cinfo);
 
-    return true;
+    return result;
 }
 
 
-- 
2.43.0


From f4d30b9fb8ae39d4e08041ea5024e08f1db4e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 035/107] fix: image loading: report read errors

---
 image.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.c b/image.c
index 0a05d41..11ac47e 100644
--- a/image.c
+++ b/image.c
@@ -577,6 +577,14 @@ bool generic_load(// output
         goto done;
     }
 
+    // The decoder treats a read error as the end of the data, and may still
+    // produce an image
+    if(ferror(fp))
+    {
+        MSG("Couldn't load image: error reading \"%s\"", filename);
+        goto done;
+    }
+
     image->width  = width;
     image->height = height;
     image->stride = width * (*bits_per_pixel)/8;
-- 
2.43.0


From d18e6bdaef60b7500e32efb51f45936ed6336983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 036/107] fix: pnm saving: report errors writing the header

---
 image.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/image.c b/image.c
index 11ac47e..8b2b800 100644
--- a/image.c
+++ b/image.c
@@ -108,12 +108,16 @@ bool generic_save_pnm(const char* filename,
         return false;
     }
 
-    fprintf(fp,
-            "P%d\n%d %d\n%d\n",
-            channels == 1 ? 5 : 6,
-            image->width,
-            image->height,
-            bits_per_pixel == 16 ? 65535 : 255);
+    if(0 > fprintf(fp,
+                   "P%d\n%d %d\n%d\n",
+                   channels == 1 ? 5 : 6,
+                   image->width,
+                   image->height,
+                   bits_per_pixel == 16 ? 65535 : 255))
+    {
+        MSG("Couldn't write the header into '%s'; giving up", filename);
+        goto done;
+    }
 
     // I write each row separately, in case the rows aren't stored densely
     for(int i=0; i<image->height; i++)
-- 
2.43.0


From 1701769586a992bcdfa8c2849a11ad8adbd4b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 037/107] fix: _optimize(): check for failed numpy array
 allocations

---
 mrcal-pywrap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index fa62b07..c93a8fd 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1714,6 +1714,7 @@ PyObject* _optimize(optimizemode_t optimizemode,
             npy_intp dims[] = {__VA_ARGS__};                            \
             x = (PyArrayObject*)PyArray_SimpleNew(sizeof(dims)/sizeof(dims[0]), \
                                                   dims, type);          \
+            if( x == NULL ) goto done; /* reuse already-set error */    \
         }                                                               \
     } while(0)
 
@@ -1831,9 +1832,13 @@ PyObject* _optimize(optimizemode_t optimizemode,
 
         // both optimize() and optimizer_callback() use this
         b_packed_final = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){Nstate}), NPY_DOUBLE);
+        if(b_packed_final == NULL)
+            goto done; // reuse already-set error
         double* c_b_packed_final = PyArray_DATA(b_packed_final);
 
         x_final = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){Nmeasurements}), NPY_DOUBLE);
+        if(x_final == NULL)
+            goto done; // reuse already-set error
         double* c_x_final = PyArray_DATA(x_final);
 
         if(optimizemode == OPTIMIZEMODE_OPTIMIZE)
@@ -1959,6 +1964,8 @@ PyObject* _optimize(optimizemode_t optimizemode,
                 P = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){Nmeasurements + 1}), NPY_INT32);
                 I = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){N_j_nonzero      }), NPY_INT32);
                 X = (PyArrayObject*)PyArray_SimpleNew(1, ((npy_intp[]){N_j_nonzero      }), NPY_DOUBLE);
+                if(P == NULL || I == NULL || X == NULL)
+                    goto done; // reuse already-set error
                 Jt.p = PyArray_DATA(P);
                 Jt.i = PyArray_DATA(I);
                 Jt.x = PyArray_DATA(X);
-- 
2.43.0


From c4a2af544f4cda417102963796bec8a508238d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 038/107] fix: 16->8 bit stretch equalization: find the correct
 maximum

The maximum was missed if it appeared while the minimum was still being updated
---
 image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index 8b2b800..c73ab40 100644
--- a/image.c
+++ b/image.c
@@ -394,8 +394,8 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
         for (int j=0; j<in->width; j++)
         {
             const uint16_t x = row_in[j];
-            if      (x < min) min = x;
-            else if (x > max) max = x;
+            if(x < min) min = x;
+            if(x > max) max = x;
         }
     }
 
-- 
2.43.0


From c4e5e872342f2847a499b8c2b797783623a4e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 039/107] fix: 16->8 bit stretch equalization: don't divide by
 0 with constant images

---
 image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/image.c b/image.c
index c73ab40..a4e35d6 100644
--- a/image.c
+++ b/image.c
@@ -400,6 +400,8 @@ void stretch_equalization_uint8_from_uint16(mrcal_image_uint8_t* out,
     }
 
     uint16_t max_min = max-min;
+    // constant image: nothing to stretch. Avoid 0/0
+    if(max_min == 0) max_min = 1;
 
     for(int i=0; i<in->height; i++)
     {
-- 
2.43.0


From 98dec7166089328d764996b795f4982620d4e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 040/107] fix: png saving: support all row strides

Negative strides crashed; 0 strides and odd strides (16-bit images) wrote the
wrong pixels
---
 image.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/image.c b/image.c
index a4e35d6..0b9741a 100644
--- a/image.c
+++ b/image.c
@@ -66,14 +66,37 @@ bool generic_save_png(const char* filename,
 {
     bool result = false;
 
+    void* data_dense = NULL;
+
+    const int   bytes_per_pixel = bits_per_pixel/8;
+    const void* data            = image->data;
+    int         stride          = image->stride;
+    if(stride < image->width*bytes_per_pixel ||
+       (bits_per_pixel == 16 && stride%2 != 0))
+    {
+        // libpng can't use this stride: it wants integer numbers of components,
+        // and interprets strides <= 0 in its own way. I make a dense copy
+        stride = image->width*bytes_per_pixel;
+        if(NULL == (data_dense = malloc((size_t)stride*image->height)))
+        {
+            MSG("Could not malloc buffer for the dense image");
+            return false;
+        }
+        for(int i=0; i<image->height; i++)
+            memcpy(&((uint8_t*)data_dense)[i*stride],
+                   &((const uint8_t*)image->data)[i*image->stride],
+                   stride);
+        data = data_dense;
+    }
+
     png_image pimage = { .version = PNG_IMAGE_VERSION,
                          .width   = image->width,
                          .height  = image->height,
                          .format  =
                              bits_per_pixel == 24 ? PNG_FORMAT_RGB :
                                  (bits_per_pixel == 16 ? PNG_FORMAT_LINEAR_Y : PNG_FORMAT_GRAY) };
-    if(!png_image_write_to_file(&pimage, filename, 0, image->data,
-                                bits_per_pixel == 16 ? image->stride/2 : image->stride,
+    if(!png_image_write_to_file(&pimage, filename, 0, data,
+                                bits_per_pixel == 16 ? stride/2 : stride,
                                 NULL))
     {
         MSG("png_image_write_to_file('%s') failed", filename);
@@ -83,6 +106,7 @@ bool generic_save_png(const char* filename,
 
 done:
     png_image_free(&pimage);
+    free(data_dense);
     return result;
 }
 
-- 
2.43.0


From 12f18ccc305072e9d2e991b92c9e3e2ad4a5b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 041/107] fix: save_image(): don't accept byte-swapped arrays

They were saved as if they were in the native byte order
---
 mrcal-pywrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index c93a8fd..c51651c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3829,6 +3829,11 @@ PyObject* save_image(PyObject* NPY_UNUSED(self),
         BARF("I only know how to save numpy arrays");
         goto done;
     }
+    if(!PyArray_ISNOTSWAPPED(image_array))
+    {
+        BARF("I only know how to save arrays in the native byte order");
+        goto done;
+    }
 
     int             ndim    = PyArray_NDIM(image_array);
     const npy_intp* dims    = PyArray_DIMS(image_array);
-- 
2.43.0


From b50bd03226f18bcc27312936cb4005c514b627f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 042/107] fix: jpg saving: support negative row strides

They crashed: the offset was computed with unsigned integers
---
 image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image.c b/image.c
index 0b9741a..c282a23 100644
--- a/image.c
+++ b/image.c
@@ -264,7 +264,7 @@ bool generic_save_jpg(const char* filename,
 
     JSAMPROW row_pointer[1];
     while (cinfo.next_scanline < cinfo.image_height) {
-        row_pointer[0] = &((uint8_t*)image->data)[cinfo.next_scanline * image->stride];
+        row_pointer[0] = &((uint8_t*)image->data)[(int)cinfo.next_scanline * image->stride];
         jpeg_write_scanlines(&cinfo, row_pointer, 1);
     }
 
-- 
2.43.0


From 8415f714bf8cea995821b619cc0d4758bbd8ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 043/107] fix: apply_color_map(): floating-point data can be
 negative

FLT_MIN, DBL_MIN are the smallest positive numbers
---
 mrcal-genpywrap.py | 4 ++--
 stereo.c           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d69e4f5..d8d4104 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -998,12 +998,12 @@ unsigned integers. The last row is the BGR color-mapped values.
                 (np.float32, np.uint8): body__apply_color_map \
                   .replace('{T}',     'float') \
                   .replace('{Tname}', 'float') \
-                  .replace('{T_min}', 'FLT_MIN') \
+                  .replace('{T_min}', '-FLT_MAX') \
                   .replace('{T_max}', 'FLT_MAX'),
                 (np.float64, np.uint8): body__apply_color_map \
                   .replace('{T}',     'double') \
                   .replace('{Tname}', 'double') \
-                  .replace('{T_min}',  'DBL_MIN') \
+                  .replace('{T_min}',  '-DBL_MAX') \
                   .replace('{T_max}',  'DBL_MAX'),
             },
 )
diff --git a/stereo.c b/stereo.c
index ec97040..fc01d9b 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1234,8 +1234,8 @@ DEFINE_mrcal_apply_color_map(int16_t,  int16,  INT16_MIN, INT16_MAX)
 DEFINE_mrcal_apply_color_map(int32_t,  int32,  INT32_MIN, INT32_MAX)
 DEFINE_mrcal_apply_color_map(int64_t,  int64,  INT64_MIN, INT64_MAX)
 
-DEFINE_mrcal_apply_color_map(float,    float,  FLT_MIN,   FLT_MAX)
-DEFINE_mrcal_apply_color_map(double,   double, DBL_MIN,   DBL_MAX)
+DEFINE_mrcal_apply_color_map(float,    float, -FLT_MAX,   FLT_MAX)
+DEFINE_mrcal_apply_color_map(double,   double,-DBL_MAX,   DBL_MAX)
 
 
 
-- 
2.43.0


From 7ef32bc8dce6ee22125c75c9bc0f4fe36ffa0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 044/107] fix: apply_color_map(): don't overflow with wide
 ranges of values

---
 stereo.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stereo.c b/stereo.c
index fc01d9b..bba30cc 100644
--- a/stereo.c
+++ b/stereo.c
@@ -1212,7 +1212,9 @@ gnuplot_color_formula(uint8_t* out,
             else if(*in_T >= in_max)                                    \
                 x = 1.0f;                                               \
             else                                                        \
-                x = (float)(*in_T - in_min) / (float)(in_max - in_min); \
+                /* computed in extended precision to not overflow T */  \
+                x = (float)( ((long double)*in_T  - (long double)in_min) / \
+                             ((long double)in_max - (long double)in_min) ); \
                                                                         \
             if(!gnuplot_color_formula(&out_bgr->bgr[2], function_red,   x) || \
                !gnuplot_color_formula(&out_bgr->bgr[1], function_green, x) || \
-- 
2.43.0


From 105dc49567f8a03fc355ab5aa97c4092be680791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 045/107] fix: apply_color_map(): handle limits at the top of
 the 64-bit integer ranges

(double)INT64_MAX isn't representable as an int64_t
---
 mrcal-genpywrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-genpywrap.py b/mrcal-genpywrap.py
index d8d4104..c394110 100644
--- a/mrcal-genpywrap.py
+++ b/mrcal-genpywrap.py
@@ -787,12 +787,12 @@ body__apply_color_map = r'''
 
                  {T} T_a_min;
                  if(      *a_min < (double)({T_min}) ) T_a_min = {T_min};
-                 else if( *a_min > (double)({T_max}) ) T_a_min = {T_max};
+                 else if( *a_min >=(double)({T_max}) ) T_a_min = {T_max};
                  else                                  T_a_min = ({T})(*a_min);
 
                  {T} T_a_max;
                  if(      *a_max < (double)({T_min}) ) T_a_max = {T_min};
-                 else if( *a_max > (double)({T_max}) ) T_a_max = {T_max};
+                 else if( *a_max >=(double)({T_max}) ) T_a_max = {T_max};
                  else                                  T_a_max = ({T})(*a_max);
 
                  mrcal_image_bgr_t out   = {.height = H,
-- 
2.43.0


From 105a11a79ccd1c6d7c659db5cab80b4ddc664534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 046/107] fix: image accessors: support strides not divisible
 by the pixel size

mrcal_image_bgr_at() returned the wrong address if the stride (in bytes) wasn't
a multiple of 3
---
 image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image.h b/image.h
index cc629b2..6313f1d 100644
--- a/image.h
+++ b/image.h
@@ -83,13 +83,13 @@ typedef struct                                                          \
 static inline                                                           \
 T* mrcal_image_ ## Tname ## _at(mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    return (T*)((char*)image->data + y*image->stride) + x;              \
 }                                                                       \
                                                                         \
 static inline                                                           \
 const T* mrcal_image_ ## Tname ## _at_const(const mrcal_image_ ## Tname ## _t* image, int x, int y) \
 {                                                                       \
-    return &image->data[x + y*image->stride / sizeof(T)];               \
+    return (const T*)((const char*)image->data + y*image->stride) + x;  \
 }                                                                       \
                                                                         \
 static inline                                                           \
-- 
2.43.0


From 0e61fee0f8b7f7767cec5269e8d9bc1ce3f4ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 047/107] fix: traverse_sensor_links(): stop if the callback
 returns False

That's what the docstring says
---
 mrcal-pywrap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index c51651c..8b2adba 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4319,8 +4319,11 @@ callback_sensor_link_C(const uint16_t idx_to, const uint16_t idx_from, void* coo
     if(result == NULL)
         return false;
 
+    // Only an explicit False tells us to stop; the callback may return nothing
+    const bool ok = (result != Py_False);
+
     Py_DECREF(result);
-    return true;
+    return ok;
 }
 static
 PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
-- 
2.43.0


From 7710ce1f5f42b01b130910720bc7003406b06299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 048/107] fix: traverse_sensor_links(): return a true value on
 success, as documented

---
 mrcal-pywrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 8b2adba..76d087f 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -4395,8 +4395,8 @@ PyObject* traverse_sensor_links(PyObject* NPY_UNUSED(self),
         }
     }
 
-    Py_INCREF(Py_None);
-    result = Py_None;
+    Py_INCREF(Py_True);
+    result = Py_True;
 
  done:
 
-- 
2.43.0


From 96a387de3c6e8cb2c9021f77bd18f38332b8a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 049/107] fix: rectified_system(): refuse degenerate forward
 directions instead of returning garbage

---
 stereo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stereo.c b/stereo.c
index bba30cc..09b3234 100644
--- a/stereo.c
+++ b/stereo.c
@@ -540,6 +540,11 @@ bool mrcal_rectified_system2(// output
     for(int i=0; i<3; i++) forward[i] = forward01[i] - forward01_proj_right*right[i];
     double norm2_forward = 0.;
     for(int i=0; i<3; i++) norm2_forward += forward[i]*forward[i];
+    if(!(norm2_forward > 1e-12))
+    {
+        MSG("The mean forward direction of the two cameras is undefined or lies along the baseline. Cannot construct a rectified system");
+        return false;
+    }
     for(int i=0; i<3; i++) forward[i] /= sqrt(norm2_forward);
 
     // "down" of the rectified coord system, in camera0 coords. Completes the
-- 
2.43.0


From 66eae5c997be6c2d970e5afbe3b5d144423d3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 050/107] fix: rectified_system(): refuse pinhole systems that
 look 90deg or more off-center

---
 stereo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stereo.c b/stereo.c
index 09b3234..27e5026 100644
--- a/stereo.c
+++ b/stereo.c
@@ -675,6 +675,15 @@ bool mrcal_rectified_system2(// output
     else
     {
         // MRCAL_LENSMODEL_PINHOLE
+        if( !(fabs(azel0_deg->x) + azel_fov_deg->x/2. < 90. &&
+              fabs(azel0_deg->y) + azel_fov_deg->y/2. < 90.) )
+        {
+            MSG("ERROR: a pinhole rectified system cannot look 90deg or more off-center. Have az0=%.1fdeg az_fov=%.1fdeg el0=%.1fdeg el_fov=%.1fdeg",
+                azel0_deg->x, azel_fov_deg->x,
+                azel0_deg->y, azel_fov_deg->y);
+            return false;
+        }
+
         const double cos_az0 = cos(azel0.x);
         const double cos_el0 = cos(azel0.y);
         fxycxy_rectified[0] *= cos_az0*cos_az0;
-- 
2.43.0


From 5462e5cdd34ff4288f2f4ee189372fc1a54e455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 051/107] fix: stereo_range(): support floating-point and
 negative disparity images, and broadcasting

---
 mrcal/stereo.py | 118 ++++++++++++++++++++++++------------------------
 1 file changed, 60 insertions(+), 58 deletions(-)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 1efe69b..957ce08 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1236,41 +1236,19 @@ RETURNED VALUES
        (isinstance(disparity, np.ndarray) and disparity.dtype == np.int16):
         disparity_scaled_max = 0x7FFF
 
-    if qrect0 is None:
+    # I want to support scalar disparities
+    disparity = np.asarray(disparity)
+
+    if disparity_min is None:
         if disparity_scaled_min is None:
-            if disparity_min is None:
-                disparity_scaled_min = 0
-            else:
-                disparity_scaled_min = disparity_min * disparity_scale
+            disparity_min = 0
+        else:
+            disparity_min = disparity_scaled_min / disparity_scale
+    if disparity_max is None:
         if disparity_scaled_max is None:
-            if disparity_max is None:
-                disparity_scaled_max = np.uint16(np.iinfo(np.uint16).max)
-            else:
-                disparity_scaled_max = disparity_max * disparity_scale
-    else:
-        if disparity_min is None:
-            if disparity_scaled_min is None:
-                disparity_min = 0
-            else:
-                disparity_min = disparity_scaled_min / disparity_scale
-        if disparity_max is None:
-            if disparity_scaled_max is None:
-                disparity_max = np.finfo(float).max
-            else:
-                disparity_max = disparity_scaled_max / disparity_scale
-
-    # I want to support scalar disparities. If one is given, I convert it into
-    # an array of shape (1,), and then pull it out at the end
-    is_scalar = False
-    try:
-        s = disparity.shape
-    except:
-        is_scalar = True
-    if not is_scalar:
-        if len(s) == 0:
-            is_scalar = True
-    if is_scalar:
-        disparity = np.array((disparity,),)
+            disparity_max = np.finfo(float).max
+        else:
+            disparity_max = disparity_scaled_max / disparity_scale
 
     Rt01 = mrcal.compose_Rt( models_rectified[0].Rt_cam_ref(),
                              models_rectified[1].Rt_ref_cam())
@@ -1278,34 +1256,58 @@ RETURNED VALUES
 
     if qrect0 is None:
         W,H = models_rectified[0].imagersize()
-        if np.any(disparity.shape - np.array((H,W),dtype=int)):
+        if disparity.shape != (H,W):
             raise Exception(f"qrect0 is None, so the given disparity and full rectified images MUST have the same dimensions. I have {disparity.shape=} and {models_rectified[0].imagersize()=}")
 
-        r =                                    \
-            mrcal._mrcal_npsp._stereo_range_dense \
-                ( disparity_scaled     = disparity.astype(np.uint16),
-                  disparity_scale      = np.uint16(disparity_scale),
-                  disparity_scaled_min = np.uint16(disparity_scaled_min),
-                  disparity_scaled_max = np.uint16(disparity_scaled_max),
-                  rectification_model_type = models_rectified[0].intrinsics()[0],
-                  fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
-                  baseline             = baseline )
-
-    else:
-
-        r =                                     \
-            mrcal._mrcal_npsp._stereo_range_sparse \
-                ( disparity            = disparity.astype(float) / disparity_scale,
-                  qrect0               = qrect0.astype(float),
-                  disparity_min        = float(disparity_min),
-                  disparity_max        = float(disparity_max),
-                  rectification_model_type = models_rectified[0].intrinsics()[0],
-                  fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
-                  baseline             = baseline )
+        # The dense path supports 16-bit scaled integers only
+        if np.issubdtype(disparity.dtype, np.integer) and \
+           disparity.dtype.itemsize <= 2              and \
+           disparity_scale == int(disparity_scale)    and \
+           1 <= disparity_scale <= 0xFFFF:
 
-    if is_scalar:
-        r = r[0]
-    return r
+            if disparity_scaled_min is None:
+                disparity_scaled_min = disparity_min * disparity_scale
+            if disparity_scaled_max is None:
+                disparity_scaled_max = min(disparity_max, 0xFFFF) * disparity_scale
+
+            disparity_scaled_min = np.ceil (np.clip(disparity_scaled_min, 0, 0xFFFF))
+            disparity_scaled_max = np.floor(np.clip(disparity_scaled_max, 0, 0xFFFF))
+
+            if disparity_scaled_min < disparity_scaled_max:
+                # Negative disparities are invalid. These are reported as 0
+                return                                 \
+                    mrcal._mrcal_npsp._stereo_range_dense \
+                        ( disparity_scaled     = np.ascontiguousarray(np.maximum(disparity,0), dtype=np.uint16),
+                          disparity_scale      = np.uint16(disparity_scale),
+                          disparity_scaled_min = np.uint16(disparity_scaled_min),
+                          disparity_scaled_max = np.uint16(disparity_scaled_max),
+                          rectification_model_type = models_rectified[0].intrinsics()[0],
+                          fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
+                          baseline             = baseline )
+
+        # Not 16-bit scaled integers. I process the dense image as a list of
+        # pixels. shape (H,W,2)
+        qrect0 = nps.mv( nps.cat( *np.meshgrid(np.arange(W,dtype=float),
+                                               np.arange(H,dtype=float))),
+                         0, -1)
+
+    qrect0 = np.asarray(qrect0)
+    shape  = np.broadcast_shapes(disparity.shape, qrect0.shape[:-1])
+
+    # The _stereo_range_sparse() function takes a list: no broadcasting inside
+    disparity = np.ascontiguousarray(np.broadcast_to(disparity.astype(float) / disparity_scale, shape)).ravel()
+    qrect0    = np.ascontiguousarray(np.broadcast_to(qrect0.astype(float), shape + qrect0.shape[-1:])).reshape((disparity.size,) + qrect0.shape[-1:])
+    r = mrcal._mrcal_npsp._stereo_range_sparse \
+            ( disparity            = disparity,
+              qrect0               = qrect0,
+              disparity_min        = float(disparity_min),
+              disparity_max        = float(disparity_max),
+              rectification_model_type = models_rectified[0].intrinsics()[0],
+              fxycxy_rectified     = models_rectified[0].intrinsics()[1].astype(float),
+              baseline             = baseline )
+
+    # [()] to return a scalar if shape == ()
+    return r.reshape(shape)[()]
 
 
 def _stereo_range_python(disparity,
-- 
2.43.0


From 21c289b3e9b9116be4107538643bd1fa15692232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 052/107] fix: stereo_unproject(): accept the same qrect0 as
 stereo_range()

---
 mrcal/stereo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/stereo.py b/mrcal/stereo.py
index 957ce08..7d79e7b 100644
--- a/mrcal/stereo.py
+++ b/mrcal/stereo.py
@@ -1600,6 +1600,9 @@ RETURNED VALUES
                                              np.arange(H,dtype=float))),
                        0, -1))
 
+    else:
+        qrect0 = np.ascontiguousarray(qrect0, dtype=float)
+
     # shape (..., 3)
     vrect0 = mrcal.unproject(qrect0, *models_rectified[0].intrinsics(),
                              normalize = True)
-- 
2.43.0


From d1bf6900b92c2df11d6c90fb713c37c4558417e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 053/107] fix: triangulation: report zero gradients if the
 triangulation failed

---
 triangulation.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/triangulation.cc b/triangulation.cc
index 679c0f9..7030e30 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -101,6 +101,18 @@ triangulate_assume_intersect( // output
 }
 
 
+// Gradients of a failed triangulation are 0. The _dm_... are arrays of 3 rows
+static
+void zero_gradients(mrcal_point3_t* _dm_dv0,
+                    mrcal_point3_t* _dm_dv1,
+                    mrcal_point3_t* _dm_dt,
+                    int Npoints_per_row_t)
+{
+    if(_dm_dv0 != NULL) for(int i=0; i<3; i++)                   _dm_dv0[i] = (mrcal_point3_t){};
+    if(_dm_dv1 != NULL) for(int i=0; i<3; i++)                   _dm_dv1[i] = (mrcal_point3_t){};
+    if(_dm_dt  != NULL) for(int i=0; i<3*Npoints_per_row_t; i++) _dm_dt [i] = (mrcal_point3_t){};
+}
+
 #warning "These all have NGRAD=9, which is inefficient: some/all of the requested gradients could be NULL"
 
 // Basic closest-approach-in-3D routine
@@ -120,6 +132,8 @@ mrcal_triangulate_geometric(// outputs
                             const mrcal_point3_t* _v1,
                             const mrcal_point3_t* _t01)
 {
+    zero_gradients(_dm_dv0, _dm_dv1, _dm_dt01, 1);
+
     // This is the basic 3D-geometry routine. I find the point in 3D that
     // minimizes the distance to each of the observation rays. This is simple,
     // but not as accurate as we'd like. All the other methods have lower
@@ -228,6 +242,8 @@ mrcal_triangulate_lindstrom(// outputs
                       const mrcal_point3_t* _v1_local,
                       const mrcal_point3_t* _Rt01)
 {
+    zero_gradients(_dm_dv0, _dm_dv1, _dm_dRt01, 4);
+
     // This is an implementation of the algorithm described in "Triangulation
     // Made Easy", Peter Lindstrom, IEEE Conference on Computer Vision and
     // Pattern Recognition, 2010. A copy of this paper is available in this repo
@@ -449,6 +465,8 @@ mrcal_triangulate_leecivera_l1(// outputs
                                const mrcal_point3_t* _v1,
                                const mrcal_point3_t* _t01)
 {
+    zero_gradients(_dm_dv0, _dm_dv1, _dm_dt01, 1);
+
     // The paper has m0, m1 as the cam1-frame observation vectors. I do
     // everything in cam0-frame
     vec_withgrad_t<9,3> v0 (_v0 ->xyz, 0);
@@ -528,6 +546,8 @@ mrcal_triangulate_leecivera_linf(// outputs
                                  const mrcal_point3_t* _v1,
                                  const mrcal_point3_t* _t01)
 {
+    zero_gradients(_dm_dv0, _dm_dv1, _dm_dt01, 1);
+
     // The paper has m0, m1 as the cam1-frame observation vectors. I do
     // everything in cam0-frame
     vec_withgrad_t<9,3> v0 (_v0 ->xyz, 0);
@@ -653,6 +673,8 @@ mrcal_triangulate_leecivera_mid2(// outputs
                                  const mrcal_point3_t* _v1,
                                  const mrcal_point3_t* _t01)
 {
+    zero_gradients(_dm_dv0, _dm_dv1, _dm_dt01, 1);
+
     // The paper has m0, m1 as the cam1-frame observation vectors. I do
     // everything in cam0-frame
     vec_withgrad_t<9,3> v0 (_v0 ->xyz, 0);
@@ -723,6 +745,8 @@ mrcal_triangulate_leecivera_wmid2(// outputs
                                   const mrcal_point3_t* _v1,
                                   const mrcal_point3_t* _t01)
 {
+    zero_gradients(_dm_dv0, _dm_dv1, _dm_dt01, 1);
+
     // The paper has m0, m1 as the cam1-frame observation vectors. I do
     // everything in cam0-frame
     vec_withgrad_t<9,3> v0 (_v0 ->xyz, 0);
-- 
2.43.0


From e452ac201316f77ef53c691bd63f5c7520c06e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 054/107] fix: triangulation: the parallel-ray thresholds
 should not depend on the lengths of the ray vectors

---
 triangulation.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index 7030e30..06c64d6 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -41,6 +41,9 @@ triangulate_assume_intersect( // output
     // use whichever is best numerically: biggest abs(det), so that I divide by
     // something as far away from 0 as possible. I have
     //
+    // The vectors are not necessarily normalized, so the threshold is relative
+    const double det_threshold = 1e-10 * sqrt(v0.norm2().x * v1.norm2().x);
+
     double fabs_det_xz = fabs(-v0.v[0].x*v1.v[2].x + v0.v[2].x*v1.v[0].x);
     double fabs_det_yz = fabs(-v0.v[1].x*v1.v[2].x + v0.v[2].x*v1.v[1].x);
 
@@ -53,7 +56,7 @@ triangulate_assume_intersect( // output
     if(fabs_det_xz > fabs_det_yz)
     {
         // xz
-        if(fabs_det_xz <= 1e-10)
+        if(fabs_det_xz <= det_threshold)
             return false;
 
         val_withgrad_t<NGRAD> det = v1.v[0]*v0.v[2] - v0.v[0]*v1.v[2];
@@ -75,7 +78,7 @@ triangulate_assume_intersect( // output
     else
     {
         // yz
-        if(fabs_det_yz <= 1e-10)
+        if(fabs_det_yz <= det_threshold)
             return false;
 
         val_withgrad_t<NGRAD> det = v1.v[1]*v0.v[2] - v0.v[1]*v1.v[2];
@@ -182,7 +185,8 @@ mrcal_triangulate_geometric(// outputs
     val_withgrad_t<9> dot_v1t  = v1.dot(t01);
 
     val_withgrad_t<9> denom = dot_v0v0*dot_v1v1 - dot_v0v1*dot_v0v1;
-    if(-1e-10 <= denom.x && denom.x <= 1e-10)
+    // The vectors are not necessarily normalized, so the threshold is relative
+    if(fabs(denom.x) <= 1e-10 * dot_v0v0.x*dot_v1v1.x)
         return (mrcal_point3_t){0};
 
     val_withgrad_t<9> denom_recip = val_withgrad_t<9>(1.)/denom;
-- 
2.43.0


From 2dcffe7b2f4083f102a294d30adff7515e5a95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 055/107] fix: triangulate_lindstrom(v_are_local=False):
 support broadcasting

---
 mrcal/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/triangulation.py b/mrcal/triangulation.py
index c4cbd3f..cd117ff 100644
--- a/mrcal/triangulation.py
+++ b/mrcal/triangulation.py
@@ -941,7 +941,7 @@ if get_gradients: we return a tuple:
     if not v_are_local:
         if get_gradients:
             raise Exception("get_gradients is True, so v_are_local MUST be True")
-        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[:3,:]), v1)
+        v1 = mrcal.rotate_point_R(nps.transpose(Rt01[...,:3,:]), v1)
 
     if not get_gradients:
         return mrcal._triangulation_npsp._triangulate_lindstrom(v0, v1, Rt01, out=out)
-- 
2.43.0


From b8da2845c6e4e7a54c6158be7653914b3a1f5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 056/107] fix: triangulation: support intersecting rays
 perpendicular to the z axis

---
 triangulation.cc | 77 +++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 54 deletions(-)

diff --git a/triangulation.cc b/triangulation.cc
index 06c64d6..f392649 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -35,68 +35,37 @@ triangulate_assume_intersect( // output
     //   t01 = [v0 -v1] k
     //
     // This is over-determined: k has 2DOF, but I have 3 equations. I know that
+    // This is over-determined: k has 2DOF, but I have 3 equations. I know that
     // the vectors intersect, so I can use 2 axes only, which makes the problem
-    // uniquely determined. Let's pick the 2 axes to use. The "forward"
-    // direction (z) is dominant, so let's use that. For the second axis, let's
-    // use whichever is best numerically: biggest abs(det), so that I divide by
-    // something as far away from 0 as possible. I have
+    // uniquely determined. Let's pick the 2 axes to use: whichever are best
+    // numerically: biggest abs(det), so that I divide by something as far away
+    // from 0 as possible. I have
     //
-    // The vectors are not necessarily normalized, so the threshold is relative
-    const double det_threshold = 1e-10 * sqrt(v0.norm2().x * v1.norm2().x);
-
-    double fabs_det_xz = fabs(-v0.v[0].x*v1.v[2].x + v0.v[2].x*v1.v[0].x);
-    double fabs_det_yz = fabs(-v0.v[1].x*v1.v[2].x + v0.v[2].x*v1.v[1].x);
-
     // If using xz, I have:
     //
     //   k = 1/(-v0[0]*v1[2] + v0[2]*v1[0]) * [-v1[2]     v1[0] ] t01
     //                                        [-v0[2]     v0[0] ]
-    // [0] -> [1] if using yz
-    val_withgrad_t<NGRAD> k0;
-    if(fabs_det_xz > fabs_det_yz)
-    {
-        // xz
-        if(fabs_det_xz <= det_threshold)
-            return false;
-
-        val_withgrad_t<NGRAD> det = v1.v[0]*v0.v[2] - v0.v[0]*v1.v[2];
-        k0 = (t01.v[2]*v1.v[0] - t01.v[0]*v1.v[2]) / det;
-        if(k0.x <= 0.0)
-            return false;
-        bool k1_negative = (t01.v[2].x*v0.v[0].x > t01.v[0].x*v0.v[2].x) ^ (det.x > 0);
-        if(k1_negative)
-            return false;
+    // [0] -> [1] if using yz. [2] -> [1] if using xy
+    double fabs_det_xz = fabs(-v0.v[0].x*v1.v[2].x + v0.v[2].x*v1.v[0].x);
+    double fabs_det_yz = fabs(-v0.v[1].x*v1.v[2].x + v0.v[2].x*v1.v[1].x);
+    double fabs_det_xy = fabs(-v0.v[0].x*v1.v[1].x + v0.v[1].x*v1.v[0].x);
 
-#if 0
-        val_withgrad_t<NGRAD> k1 = (t01.v[2]*v0.v[0] - t01.v[0]*v0.v[2]) / det;
-        vec_withgrad_t<NGRAD,3> m2 = v1*k1 + t01;
-        m2 -= m;
-        double d2 = m2.v[0].x*m2.v[0].x + m2.v[1].x*m2.v[1].x + m2.v[2].x*m2.v[2].x;
-        fprintf(stderr, "diff: %f\n", d2);
-#endif
-    }
-    else
-    {
-        // yz
-        if(fabs_det_yz <= det_threshold)
-            return false;
-
-        val_withgrad_t<NGRAD> det = v1.v[1]*v0.v[2] - v0.v[1]*v1.v[2];
-        k0 = (t01.v[2]*v1.v[1] - t01.v[1]*v1.v[2]) / det;
-        if(k0.x <= 0.0)
-            return false;
-        bool k1_negative = (t01.v[2].x*v0.v[1].x > t01.v[1].x*v0.v[2].x) ^ (det.x > 0);
-        if(k1_negative)
-            return false;
+    int    a = 0, b = 2;
+    double fabs_det = fabs_det_xz;
+    if(fabs_det_yz >= fabs_det) { a = 1; b = 2; fabs_det = fabs_det_yz; }
+    if(fabs_det_xy >  fabs_det) { a = 0; b = 1; fabs_det = fabs_det_xy; }
 
-#if 0
-    val_withgrad_t<NGRAD> k1 = (t01.v[2]*v0.v[1] - t01.v[1]*v0.v[2]) / det;
-    vec_withgrad_t<NGRAD,3> m2 = v1*k1 + t01;
-    m2 -= m;
-    double d2 = m2.v[1].x*m2.v[1].x + m2.v[1].x*m2.v[1].x + m2.v[2].x*m2.v[2].x;
-    fprintf(stderr, "diff: %f\n", d2);
-#endif
-    }
+    // The vectors are not necessarily normalized, so the threshold is relative
+    if(fabs_det <= 1e-10 * sqrt(v0.norm2().x * v1.norm2().x))
+        return false;
+
+    val_withgrad_t<NGRAD> det = v1.v[a]*v0.v[b] - v0.v[a]*v1.v[b];
+    val_withgrad_t<NGRAD> k0  = (t01.v[b]*v1.v[a] - t01.v[a]*v1.v[b]) / det;
+    if(k0.x <= 0.0)
+        return false;
+    bool k1_negative = (t01.v[b].x*v0.v[a].x > t01.v[a].x*v0.v[b].x) ^ (det.x > 0);
+    if(k1_negative)
+        return false;
 
     m = v0 * k0;
 
-- 
2.43.0


From 84cee406f09ce704aa572246c1dc24d414de4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 057/107] fix: triangulate_lindstrom(): rays pointing backwards
 do not converge in front of the cameras

---
 triangulation.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triangulation.cc b/triangulation.cc
index f392649..99db863 100644
--- a/triangulation.cc
+++ b/triangulation.cc
@@ -264,6 +264,11 @@ mrcal_triangulate_lindstrom(// outputs
     //                        ( t01[2],  0,      -t01[0]),
     //                        (-t01[1],  t01[0],  0)));
 
+    // This is a pinhole method: it looks at v/v.z. Rays that point backwards
+    // would be flipped by this
+    if(_v0_local->z <= 0.0 || _v1_local->z <= 0.0)
+        return (mrcal_point3_t){0};
+
     vec_withgrad_t<18,3> v0 (_v0_local->xyz, 0);
     vec_withgrad_t<18,3> v1 (_v1_local->xyz, 3);
     vec_withgrad_t<18,9> R01(_Rt01    ->xyz, 6);
-- 
2.43.0


From fca5c60e45493cdbb12c53c0c092b0c4687984c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 058/107] fix: cameramodel parser: the re2c tags must not be
 shared between threads

---
 cameramodel-parser.re | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameramodel-parser.re b/cameramodel-parser.re
index 58764af..76d657c 100644
--- a/cameramodel-parser.re
+++ b/cameramodel-parser.re
@@ -58,7 +58,9 @@ typedef struct
   UNSIGNED_INT = "0"|[1-9][0-9]*;
 */
 
-/*!stags:re2c format = 'static const char *@@;'; */
+// The tags are thread-local: multiple threads may be parsing models at the same
+// time
+/*!stags:re2c format = 'static __thread const char *@@;'; */
 
 static bool string_is(const char* ref, string_t key)
 {
-- 
2.43.0


From e9ce6d6c020a2f8a84332985568afe1d305ada9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 059/107] fix: cross-reprojection uncertainty: the shift must
 be reported in the camera coordinates if the extrinsics are fixed

---
 mrcal-pywrap.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 76d087f..eca3b2c 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -2154,6 +2154,67 @@ PyObject* _optimize(optimizemode_t optimizemode,
                     goto done;
                 }
 
+                if(icam_intrinsics >= 0 &&
+                   !problem_selections.do_optimize_extrinsics)
+                {
+                    // The extrinsics are fixed, so the result is based on the
+                    // gradients of the frames and points:
+                    // _mrcal_drt_cross_reprojection__dbpacked() computed the
+                    // shift of the reference coordinate system. If our camera
+                    // doesn't sit at the reference, I need to move this shift
+                    // to the camera coordinate system:
+                    //   Tcc* = Tcr Trr* inv(Tcr)
+                    // For tiny rt this is
+                    //   r_cc* = Rcr r_rr*
+                    //   t_cc* = Rcr t_rr* + cross(tcr, Rcr r_rr*)
+                    int  icam_extrinsics = -1;
+                    bool have_icam       = false;
+                    bool have_multiple   = false;
+                    for(int i=0; i<Nobservations_board+Nobservations_point; i++)
+                    {
+                        const mrcal_camera_index_t* icam =
+                            i < Nobservations_board                ?
+                            &c_observations_board[i].icam          :
+                            &c_observations_point[i - Nobservations_board].icam;
+                        if(icam->intrinsics != icam_intrinsics)
+                            continue;
+                        if(have_icam && icam->extrinsics != icam_extrinsics)
+                            have_multiple = true;
+                        icam_extrinsics = icam->extrinsics;
+                        have_icam       = true;
+                    }
+                    if(have_multiple)
+                    {
+                        BARF("Camera %d was observed at multiple fixed poses. Cross-reprojection doesn't support this",
+                             icam_intrinsics);
+                        Py_DECREF(K);
+                        goto done;
+                    }
+                    if(icam_extrinsics >= 0)
+                    {
+                        const mrcal_pose_t* rt_cr = &c_extrinsics[icam_extrinsics];
+                        double*             k     = (double*)PyArray_DATA((PyArrayObject*)K);
+                        for(int j=0; j<Nstate; j++)
+                        {
+                            const double r[] = {k[0*Nstate+j],k[1*Nstate+j],k[2*Nstate+j]};
+                            const double t[] = {k[3*Nstate+j],k[4*Nstate+j],k[5*Nstate+j]};
+                            double Rr[3];
+                            double Rt[3];
+                            mrcal_rotate_point_r(Rr, NULL,NULL, rt_cr->r.xyz, r);
+                            mrcal_rotate_point_r(Rt, NULL,NULL, rt_cr->r.xyz, t);
+                            for(int i=0; i<3; i++)
+                            {
+                                const int i1 = (i+1)%3;
+                                const int i2 = (i+2)%3;
+                                k[ i   *Nstate+j] = Rr[i];
+                                k[(i+3)*Nstate+j] = Rt[i] +
+                                    rt_cr->t.xyz[i1]*Rr[i2] -
+                                    rt_cr->t.xyz[i2]*Rr[i1];
+                            }
+                        }
+                    }
+                }
+
                 result = K;
             }
         }
-- 
2.43.0


From f1a8d3ffc49222c9c86f4e36ada634bd3f167d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 060/107] fix: cross-reprojection uncertainty: a measurement
 that nothing affects has an empty Jacobian row

---
 uncertainty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uncertainty.c b/uncertainty.c
index ebc5256..dbada9e 100644
--- a/uncertainty.c
+++ b/uncertainty.c
@@ -1102,6 +1102,9 @@ bool _mrcal_drt_cross_reprojection__dbpacked(// output
             do
             {
                 ival = Jrowptr[imeas];
+                if(!(ival < Jrowptr[imeas+1]))
+                    // Nothing we're optimizing affects this measurement
+                    break;
 
                 int state_index = Jcolidx[ival];
 
-- 
2.43.0


From 286cb7aa90bae6adcffbe1b5ec9f0765bf89e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 061/107] fix: projection_uncertainty(): work if the extrinsics
 or the intrinsics are fixed, or if there are no boards or no points

---
 mrcal/model_analysis.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 6d48718..6c050a5 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1340,6 +1340,7 @@ else:                    we return an array of shape (...)
 
     else:
         slice_intrinsics_state = None
+        slice_intrinsics_arg   = None
 
     Nstate = mrcal.num_states(**optimization_inputs)
 
@@ -1457,9 +1458,9 @@ else:                    we return an array of shape (...)
     # produce exactly one set of extrinsics. If the camera is moving, we may get
     # more than one. At this time I limit to myself to a consecutive block of
     # extrinsics vectors. Once this all works I can relax that requirement
-    ifcice = optimization_inputs['indices_frame_camintrinsics_camextrinsics']
+    ifcice = optimization_inputs.get('indices_frame_camintrinsics_camextrinsics')
     if ifcice is None: ifcice = np.zeros((0,3),dtype=np.int32)
-    ipcice = optimization_inputs['indices_point_camintrinsics_camextrinsics']
+    ipcice = optimization_inputs.get('indices_point_camintrinsics_camextrinsics')
     if ipcice is None: ipcice = np.zeros((0,3),dtype=np.int32)
     icice = nps.glue(ifcice[:,1:], ipcice[:,1:], axis=-2)
 
@@ -1491,8 +1492,12 @@ else:                    we return an array of shape (...)
         istate_extrinsics0 = mrcal.state_index_extrinsics(icam_extrinsics[0],
                                                           **optimization_inputs)
         Ncameras_extrinsics = rt_cam_ref.shape[0]
-        slice_extrinsics_state = slice(istate_extrinsics0,
-                                       istate_extrinsics0 + Ncameras_extrinsics*6)
+        if istate_extrinsics0 is not None:
+            slice_extrinsics_state = slice(istate_extrinsics0,
+                                           istate_extrinsics0 + Ncameras_extrinsics*6)
+        else:
+            # The extrinsics are fixed
+            slice_extrinsics_state = None
 
 
     # shape (..., 2, Nstate)
-- 
2.43.0


From 702c4ae18d5fdd948ffe11dae6b190395149f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 062/107] fix: _propagate_calibration_uncertainty(): accept the
 gradient of a scalar

---
 mrcal/model_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 6c050a5..d4d9936 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -846,6 +846,9 @@ In the regularized case:
 
 
     scalar = (dF_dbpacked.ndim == 1)
+    if scalar:
+        # shape (1,Nstate)
+        dF_dbpacked = nps.atleast_dims(dF_dbpacked, -2)
 
     Var_dF = process_slice(dF_dbpacked)
     if what == '_covariance-raw':
-- 
2.43.0


From 1f01d19e88c57d031db75839a1f4a95c7f8a474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 063/107] fix: ref_calibration_object(): optimization_inputs
 may have no calobject_warp

---
 mrcal/synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index f473af2..9f6d6cc 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -186,7 +186,7 @@ dimensions set by the broadcasting rules. Usually Ny = H and Nx = W
         H,W = optimization_inputs['observations_board'].shape[-3:-1]
 
         object_spacing = optimization_inputs['calibration_object_spacing']
-        calobject_warp = optimization_inputs['calobject_warp']
+        calobject_warp = optimization_inputs.get('calobject_warp')
 
 
     if Nx        is None: Nx        = W
-- 
2.43.0


From d5189b07b05b3101054cf3553e9b9bbb7551f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 064/107] fix: make_perfect_observations(): the outliers must
 stay marked when adding noise

---
 mrcal/synthetic_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index 9f6d6cc..6a06dac 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -742,7 +742,8 @@ None
                 observed_pixel_uncertainty * \
                 np.random.randn(*optimization_inputs[what][...,:2].shape)
 
-            weight = nps.dummy( optimization_inputs[what][...,2],
+            # A copy: the outliers in optimization_inputs must stay outliers
+            weight = nps.dummy( optimization_inputs[what][...,2].copy(),
                                 axis = -1 )
             weight[ weight<=0 ] = 1. # to avoid dividing by 0
 
-- 
2.43.0


From 4d4cbd125f92215db52cc7400b9561841c56f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 065/107] fix: hypothesis_board_corner_positions(): do not
 modify the given idx_inliers

---
 mrcal/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index d91186d..e7e1ce6 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -574,6 +574,8 @@ RETURNED VALUE
     # shape (Nobservations,)
     idx_observations = indices_frame_camintrinsics_camextrinsics[:,1]==icam_intrinsics
 
+    # A copy: I shouldn't modify the caller's array
+    idx_inliers = idx_inliers.copy()
     idx_inliers [~idx_observations] = False
     idx_outliers[~idx_observations] = False
 
-- 
2.43.0


From 1485b9e9a499289a6e3e3e045d21a9e5470d5b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 066/107] fix: make_perfect_observations(),
 hypothesis_board_corner_positions(): rt_cam_ref may be omitted

---
 mrcal/synthetic_data.py | 7 ++++++-
 mrcal/utils.py          | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mrcal/synthetic_data.py b/mrcal/synthetic_data.py
index 6a06dac..59cf4d5 100644
--- a/mrcal/synthetic_data.py
+++ b/mrcal/synthetic_data.py
@@ -688,10 +688,15 @@ None
         # shape (Nobservations,3)
         pref = optimization_inputs['points'][ indices_point_camintrinsics_camextrinsics[:,0] ]
 
+        rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+        if rt_cam_ref is None:
+            # All the cameras sit at the reference
+            rt_cam_ref = np.zeros((0,6), dtype=float)
+
         # shape (Nobservations,4,3)
         Rt_cam_ref = \
             nps.glue( mrcal.identity_Rt(),
-                      mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                      mrcal.Rt_from_rt(rt_cam_ref),
                       axis = -3 ) \
             [ indices_point_camintrinsics_camextrinsics[:,2]+1 ]
 
diff --git a/mrcal/utils.py b/mrcal/utils.py
index e7e1ce6..12d7c9e 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -544,9 +544,13 @@ RETURNED VALUE
     Rt_ref_frame = \
         mrcal.Rt_from_rt( optimization_inputs['rt_ref_frame'] )\
         [ indices_frame_camintrinsics_camextrinsics[:,0] ]
+    rt_cam_ref = optimization_inputs.get('rt_cam_ref')
+    if rt_cam_ref is None:
+        # All the cameras sit at the reference
+        rt_cam_ref = np.zeros((0,6), dtype=float)
     Rt_cam_ref = \
         nps.glue( mrcal.identity_Rt(),
-                  mrcal.Rt_from_rt(optimization_inputs['rt_cam_ref']),
+                  mrcal.Rt_from_rt(rt_cam_ref),
                   axis = -3 ) \
         [ indices_frame_camintrinsics_camextrinsics[:,2]+1 ]
 
-- 
2.43.0


From ed5eb5e1f377cc304e764d8781ed243dbfee65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 067/107] fix: estimate_monocular_calobject_poses_Rt_tocam():
 ignore points with x<0 or y<0, as documented

---
 mrcal/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index e9c2cf8..ee87fe2 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -556,6 +556,8 @@ pinhole pixel observations. Like opengv
 
         # I pick off those rows where the point observation is valid
         i = \
+            (observation_qxqyw[..., 0] >= 0.0)       * \
+            (observation_qxqyw[..., 1] >= 0.0)       * \
             (observation_qxqyw[..., 2] > 0.0)        * \
             (np.isfinite(v                       [..., 0])) * \
             (np.isfinite(v                       [..., 1])) * \
-- 
2.43.0


From 56989060926e84eb68815101c751090c38db8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 068/107] fix: seed_stereographic(): a focal_estimate array of
 length 1 applies to all the cameras

---
 mrcal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index ee87fe2..829a365 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1536,7 +1536,8 @@ We return a tuple:
         focal_estimate = (focal_estimate,)
 
     if Nfocal == 1:
-        focal_estimate = focal_estimate * Ncameras
+        # list() because an array would be scaled instead of being repeated
+        focal_estimate = list(focal_estimate) * Ncameras
     elif Nfocal == Ncameras:
         # already good
         pass
-- 
2.43.0


From 3dba7ef9e878a2cf333dbb95f20237720004af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 069/107] fix: seed_stereographic(): cameras with no
 observations must produce an error

---
 mrcal/calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 829a365..57bbfbb 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -1547,6 +1547,12 @@ We return a tuple:
 
     # Done. focal_estimate is now an iterable length Ncameras
 
+    # _estimate_camera_poses() gets the camera count from the observations, so it
+    # cannot know about cameras past the last one that was observed
+    for icam in range(Ncameras):
+        if not np.any(indices_frame_camera[:,1] == icam):
+            raise Exception(f"Camera {icam} has no observations, so I cannot compute its pose")
+
     # I compute an estimate of the poses of the calibration object in the local
     # coord system of each camera for each frame. This is done for each frame
     # and for each camera separately. This isn't meant to be precise, and is
-- 
2.43.0


From 9c7fcd5e49c785e36019787708e911ed8f2c08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 070/107] fix: compute_chessboard_corners(): a corners.vnl in
 the current directory does not refer to images in /

---
 mrcal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index 57bbfbb..cc18edc 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -333,7 +333,7 @@ which mrcal.optimize() expects
                     elif corners_dir is not None      and \
                          context['f'][0] != '/'       and \
                          not os.path.exists(context['f']):
-                        filename_canonical = f"{corners_dir}/{context['f']}"
+                        filename_canonical = os.path.join(corners_dir, context['f'])
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
-- 
2.43.0


From ef3860009b9f7eea98b2021ffc3d749180d4c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 071/107] fix: compute_chessboard_corners(): report an error if
 several images end up with the same path

---
 mrcal/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrcal/calibration.py b/mrcal/calibration.py
index cc18edc..dffcba3 100644
--- a/mrcal/calibration.py
+++ b/mrcal/calibration.py
@@ -337,6 +337,9 @@ which mrcal.optimize() expects
                     else:
                         filename_canonical = os.path.normpath(context['f'])
 
+                    if filename_canonical in mapping:
+                        raise Exception(f"Image '{filename_canonical}' appears in the corners data more than once")
+
                     if accum_files(filename_canonical):
                         mapping[filename_canonical] = context['grid'].reshape(H,W,3)
 
-- 
2.43.0


From fce3471885d83c9435bc4b8686accb5f5a71ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 072/107] fix: mapping_file_framenocameraindex(): frame numbers
 such as (1,10) share leading or trailing digits

---
 mrcal/utils.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 12d7c9e..5cd1f3b 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -889,6 +889,13 @@ from the filename.
             return [0]
 
         leading,trailing = get_longest_leading_trailing_substrings(files)
+
+        # The frame number may share leading and trailing digits in all the
+        # files: ("frame1.png", "frame10.png") has leading = "frame1". Those
+        # digits are a part of the frame number
+        leading  = re.sub("[0-9]+$", "", leading)
+        trailing = re.sub("^[0-9]+", "", trailing)
+
         Nleading  = len(leading)
         Ntrailing = len(trailing)
 
@@ -907,21 +914,8 @@ from the filename.
                                 format(f, f[Nleading:Itrailing],
                                        leading, trailing))
 
-        # Alrighty. The centers are all numeric. I gather all the digits around the
-        # centers, and I'm done
-        m = re.match("^(.*?)([0-9]*)$", leading)
-        if m:
-            pre_numeric = m.group(2)
-        else:
-            pre_numeric = ''
-
-        m = re.match("^([0-9]*)(.*?)$", trailing)
-        if m:
-            post_numeric = m.group(1)
-        else:
-            post_numeric = ''
-
-        return [int(pre_numeric + f[Nleading:Itrailing] + post_numeric) for f in files]
+        # Alrighty. The centers are all numeric, and I'm done
+        return [int(f[Nleading:Itrailing]) for f in files]
 
 
 
-- 
2.43.0


From 1fcb5100459d984c47e18a3fc0bbe10ca229e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 073/107] fix: mapping_file_framenocameraindex(): report an
 error if several images from one camera have the same frame number

---
 mrcal/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 5cd1f3b..4d57098 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -915,7 +915,10 @@ from the filename.
                                        leading, trailing))
 
         # Alrighty. The centers are all numeric, and I'm done
-        return [int(f[Nleading:Itrailing]) for f in files]
+        framenumbers = [int(f[Nleading:Itrailing]) for f in files]
+        if len(set(framenumbers)) != len(framenumbers):
+            raise Exception(f"Multiple images from the same camera have the same frame number: {files}")
+        return framenumbers
 
 
 
-- 
2.43.0


From 1bc4faba7b30f087ec301eb303fb9f9b7cdfabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 074/107] fix: polygon_difference(): work with shapely >= 2 if
 the difference has holes

---
 mrcal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 4d57098..a121dc3 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -732,12 +732,12 @@ element (difference consists of N separate polygons)
         hole = p.interiors[0]
         for i in range(0,len(hole.coords)):
 
-            l0 = np.array((hole.centroid))
+            l0 = np.array((hole.centroid.coords[0]))
             l1 = np.array((hole.coords[i]))
             l0,l1 = (l1 + 100*(l0-l1)),(l0 + 100*(l1-l0))
             line = LineString( (l0,l1) )
 
-            s = shapely.ops.split(p, line)
+            s = shapely.ops.split(p, line).geoms
             if len(s) > 1:
                 # success. split into multiple pieces. I process each one
                 # recursively, and I'm done. I return a flattened list
-- 
2.43.0


From 8d8c8464c7bf9d35dea13677b5795658e935833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 075/107] fix: image_transformation_map(): planes given with a
 negative plane_d must not flip the viewing direction

---
 mrcal/image_transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index d39c316..4f3e9ac 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -487,6 +487,10 @@ This array can be passed to mrcal.transform_image()
         A_from_to = np.linalg.inv(A_to_from)
         v = nps.matmult( v, nps.transpose(A_from_to) )
 
+        # A_from_to maps directions only up to a scale, and this scale has the
+        # sign of plane_d. Most lens models aren't invariant to a flip of v
+        if plane_d < 0: v = -v
+
     else:
         if Rt_to_from is not None:
             if distance is not None:
-- 
2.43.0


From 7ae6080821336f60dc150fe6ef3801ad4064548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 076/107] fix: pinhole_model_for_reprojection(): scale_image
 with cx or cy = 0 produced a NaN center

---
 mrcal/image_transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 4f3e9ac..faff402 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -260,12 +260,12 @@ the input model.
         imagersize[0] = round(imagersize[0]*scale_image)
         imagersize[1] = round(imagersize[1]*scale_image)
         kfxy = scale_image
-        kcx  = (kfxy + 2.*cx*kfxy - 1.) / (2. * cx)
-        kcy  = (kfxy + 2.*cy*kfxy - 1.) / (2. * cy)
 
         intrinsics_data[:2] *= kfxy
-        intrinsics_data[2]  *= kcx
-        intrinsics_data[3]  *= kcy
+
+        # kc*cxy. I don't compute kc itself: cxy may be 0
+        intrinsics_data[2] = (kfxy + 2.*cx*kfxy - 1.) / 2.
+        intrinsics_data[3] = (kfxy + 2.*cy*kfxy - 1.) / 2.
 
     return \
         mrcal.cameramodel( intrinsics            = ('LENSMODEL_PINHOLE',intrinsics_data[:4]),
-- 
2.43.0


From 62496ba876ba272a49ed979936d688230a68f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 077/107] fix: scale_focal__best_pinhole_fit(): points exactly
 on the optical axis produced a scale of -inf

---
 mrcal/image_transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index faff402..5cc19cb 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -142,8 +142,8 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     scale = 1e6
     for p in normxy_edges:
         for ixy in range(2):
-            if p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
-            else:          scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+            if   p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
+            elif p[ixy] < 0: scale = np.min((scale,normxy_min[ixy]/p[ixy]))
     return scale
 
 
-- 
2.43.0


From d427cc0d84fe4946d4d7c7c79cbb17c04238cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 078/107] fix: scale_focal__best_pinhole_fit(): report an error
 if the points can't be seen by any pinhole camera

---
 mrcal/image_transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrcal/image_transforms.py b/mrcal/image_transforms.py
index 5cc19cb..bdab1f9 100644
--- a/mrcal/image_transforms.py
+++ b/mrcal/image_transforms.py
@@ -129,6 +129,8 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
     # imager as possible. I can look at just the normalized x and y. Just one of
     # the query points should land on the edge; the rest should be in-bounds
 
+    if not np.all(v_edges[:,2] > 0):
+        raise Exception("Some of the points we're trying to fit are 90 degrees or more off the optical axis. A pinhole camera cannot see these")
     normxy_edges = v_edges[:,:2] / v_edges[:,(2,)]
     normxy_min   = (      - cxy) / fxy
     normxy_max   = (WH-1. - cxy) / fxy
@@ -144,6 +146,8 @@ A scalar scale_focal that can be passed to pinhole_model_for_reprojection()
         for ixy in range(2):
             if   p[ixy] > 0: scale = np.min((scale,normxy_max[ixy]/p[ixy]))
             elif p[ixy] < 0: scale = np.min((scale,normxy_min[ixy]/p[ixy]))
+    if not scale > 0:
+        raise Exception("No focal-length scale puts all the points we're trying to fit into the pinhole image")
     return scale
 
 
-- 
2.43.0


From 3280b56fcde5624b18c2b46f73e1649bc41affd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 079/107] fix: align_procrustes_...(): accept non-contiguous
 weights

---
 mrcal/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index a121dc3..5f25373 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -182,7 +182,8 @@ This is not a valid Rt transform, and is used to signal an error.
     """
     # Use the python implementation when the data isn't contiguous
     if not (p0.flags['C_CONTIGUOUS'] and \
-            p1.flags['C_CONTIGUOUS']):
+            p1.flags['C_CONTIGUOUS'] and \
+            (weights is None or weights.flags['C_CONTIGUOUS'])):
         return _align_procrustes_points_Rt01_python(p0, p1, weights=weights)
 
     if weights is None:
@@ -256,7 +257,8 @@ This is not a valid rotation, and is used to signal an error.
 
     # Use the python implementation when the data isn't contiguous
     if not (v0.flags['C_CONTIGUOUS'] and \
-            v1.flags['C_CONTIGUOUS']):
+            v1.flags['C_CONTIGUOUS'] and \
+            (weights is None or weights.flags['C_CONTIGUOUS'])):
         return _align_procrustes_vectors_R01_python(v0, v1, weights=weights)
 
     if weights is None:
-- 
2.43.0


From d9231043a43605d59de1a419cacaafaa57385127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 080/107] fix: align_procrustes_points_Rt01(): the weights must
 apply to the centroids also

---
 mrcal/utils.py | 16 ++++++++++++----
 poseutils.c    | 23 +++++++++++++++++++----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index 5f25373..fe1134e 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -45,10 +45,18 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     p0 = nps.transpose(p0)
     p1 = nps.transpose(p1)
 
+    # The optimal t is given by the WEIGHTED mean of the points
+    sum_weights = np.sum(weights)
+    if not sum_weights > 0:
+        # Poorly-defined problem. Return error
+        return np.zeros((4,3), dtype=float)
+    p0_mean = nps.dummy(np.sum(p0*weights, axis=-1) / sum_weights, -1)
+    p1_mean = nps.dummy(np.sum(p1*weights, axis=-1) / sum_weights, -1)
+
     # I process Mt instead of M to not need to transpose anything later, and to
     # end up with contiguous-memory results
-    Mt = nps.matmult(              (p0 - np.mean(p0, axis=-1)[..., np.newaxis])*weights,
-                      nps.transpose(p1 - np.mean(p1, axis=-1)[..., np.newaxis]))
+    Mt = nps.matmult(              (p0 - p0_mean)*weights,
+                      nps.transpose(p1 - p1_mean))
     V,S,Ut = np.linalg.svd(Mt)
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
@@ -69,7 +77,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
     # Now that I have my optimal R, I compute the optimal t. From before:
     #
     #   t = mean(a) - R mean(b)
-    t = np.mean(p0, axis=-1)[..., np.newaxis] - nps.matmult( R, np.mean(p1, axis=-1)[..., np.newaxis] )
+    t = p0_mean - nps.matmult( R, p1_mean )
 
     return nps.glue( R, t.ravel(), axis=-2)
 
@@ -148,7 +156,7 @@ well-known direct method. See:
 
 We return a transformation that minimizes the sum 2-norm of the misalignment:
 
-    cost = sum( norm2( w[i] (a[i] - transform(b[i])) ))
+    cost = sum( w[i] norm2( a[i] - transform(b[i]) ))
 
 We return an Rt transformation to map points in set 1 to points in set 0.
 
diff --git a/poseutils.c b/poseutils.c
index f7782a9..0ac6c52 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1627,17 +1627,32 @@ bool mrcal_align_procrustes_points_Rt01(// out
 {
     double pmean0[3] = {};
     double pmean1[3] = {};
+    double sum_weights = 0.;
 
+    // The optimal t is given by the WEIGHTED mean of the points
     for(int i=0; i<N; i++)
+    {
+        const double w = weights == NULL ? 1. : weights[i];
+        sum_weights += w;
         for(int j=0; j<3; j++)
         {
-            pmean0[j] += p0[i*3+j];
-            pmean1[j] += p1[i*3+j];
+            pmean0[j] += w*p0[i*3+j];
+            pmean1[j] += w*p1[i*3+j];
         }
+    }
+    if(!(sum_weights > 0.))
+    {
+        // Poorly-defined problem
+        //
+        // secret value to indicate that this is a potentially non-fatal error.
+        // Needed for the Python layer
+        Rt01[0] = 0.;
+        return false;
+    }
     for(int j=0; j<3; j++)
     {
-        pmean0[j] /= (double)N;
-        pmean1[j] /= (double)N;
+        pmean0[j] /= sum_weights;
+        pmean1[j] /= sum_weights;
     }
     if(!_align_procrustes_vectors_R01(Rt01,N,p0,p1,pmean0,pmean1,weights))
         return false;
-- 
2.43.0


From cab757633c1a3a1e06c9c5af8045110f8b729e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 081/107] fix: align_procrustes_...(): the detection of
 singular inputs must not depend on the scale of the points or the weights

---
 mrcal/utils.py | 16 ++++++++++++++--
 poseutils.c    | 12 ++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mrcal/utils.py b/mrcal/utils.py
index fe1134e..1d4b90c 100644
--- a/mrcal/utils.py
+++ b/mrcal/utils.py
@@ -23,6 +23,18 @@ import re
 import mrcal
 
 
+def _align_procrustes_is_singular(S, p0, p1, weights):
+    r'''Are the given singular values consistent with a unique rotation?
+
+One 0 singular value is OK; two isn't. "0" must be relative to the scale of the
+points and the weights: the largest singular value, and the round-off in the
+points
+
+    '''
+    scale = np.sum( nps.mag(nps.transpose(p0))*nps.mag(nps.transpose(p1))*weights )
+    return not (S[-2] > 1e-12*S[0] and S[-2] > 1e-28*scale)
+
+
 def _align_procrustes_points_Rt01_python(p0, p1, weights=None):
     r'''Reference implementation of align_procrustes_points_Rt01() in python
 
@@ -61,7 +73,7 @@ def _align_procrustes_points_Rt01(p0, p1, weights):
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
     # two isn't
-    if S[-2] < 1e-12:
+    if _align_procrustes_is_singular(S,p0,p1,weights):
         # Poorly-defined problem. Return error
         return np.zeros((4,3), dtype=float)
 
@@ -110,7 +122,7 @@ def _align_procrustes_vectors_R01(v0, v1, weights):
 
     # I look at the second-lowest singular value. One 0 singular value is OK;
     # two isn't
-    if S[-2] < 1e-12:
+    if _align_procrustes_is_singular(S,v0,v1,weights):
         # Poorly-defined problem. Return error
         return np.zeros((3,3), dtype=float)
 
diff --git a/poseutils.c b/poseutils.c
index 0ac6c52..fba77f2 100644
--- a/poseutils.c
+++ b/poseutils.c
@@ -1556,8 +1556,16 @@ bool _align_procrustes_vectors_R01(// out
 
     // I look at the second-lowest singular value. One 0 singular value is OK
     // (the other two can uniquely define my 3D basis). But two isn't OK: the
-    // basis is no longer unique
-    if(S[1] < 1e-12)
+    // basis is no longer unique. "0" must be relative to the scale of the points
+    // and the weights: the largest singular value, and the round-off in the
+    // points
+    double scale = 0.;
+    for(int i=0; i<N; i++)
+        scale +=
+            sqrt( (p0[i*3+0]*p0[i*3+0] + p0[i*3+1]*p0[i*3+1] + p0[i*3+2]*p0[i*3+2]) *
+                  (p1[i*3+0]*p1[i*3+0] + p1[i*3+1]*p1[i*3+1] + p1[i*3+2]*p1[i*3+2]) ) *
+            (weights == NULL ? 1. : weights[i]);
+    if(!(S[1] > 1e-12*S[0] && S[1] > 1e-28*scale))
     {
         // Poorly-defined problem
         //
-- 
2.43.0


From 43ce888c836e9d853d0475a1a43baeadb777fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 082/107] fix: stereo_pair_diff(): CAHVORE models raised an
 error, and would have been modified in place

---
 mrcal/model_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index d4d9936..9d6cb31 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -2057,6 +2057,11 @@ A tuple
     else:
         atinfinity = False
 
+    # I might centralize the models below. The caller's models should not be
+    # touched
+    model_pairs = [ [mrcal.cameramodel(model) for model in model_pair] \
+                    for model_pair in model_pairs ]
+
     for model_pair in model_pairs:
         for model in model_pair:
             if not mrcal.lensmodel_metadata_and_config(model.intrinsics()[0])['noncentral']:
@@ -2066,7 +2071,7 @@ A tuple
 
             # CAHVORE. I know how to centralize this. If we're looking at
             # infinity, then this is ok
-            if np.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
+            if nps.norm2(model.intrinsics()[1][-3:]) < 1e-12 or atinfinity:
                 intrinsics_data = model.intrinsics()[1]
                 intrinsics_data[-3:] = 0
                 model.intrinsics( intrinsics = (model.intrinsics()[0],
-- 
2.43.0


From edd42ff70eade8e47fa351ad9f46e909e1f278b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 083/107] fix: implied_Rt10__from_unprojections(): support more
 than one leading dimension

---
 mrcal/model_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 9d6cb31..951b5df 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -178,6 +178,7 @@ report a full Rt transformation with the t component set to 0
     p0 = nps.transpose(nps.clump(nps.mv( nps.atleast_dims(p0, -3),
                                          -1,-3),
                                  n=-2))
+    if p0.ndim > 3: p0 = nps.clump(p0, n=p0.ndim-2)
     # shape (N,3)
     v1 = nps.clump(v1, n=v1.ndim-1)
 
-- 
2.43.0


From 744296164e856b8395718a5e564af08c88e11af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 084/107] fix: projection_diff(): when looking at infinity the
 translation must not be applied

---
 mrcal/model_analysis.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mrcal/model_analysis.py b/mrcal/model_analysis.py
index 951b5df..8fa90ce 100644
--- a/mrcal/model_analysis.py
+++ b/mrcal/model_analysis.py
@@ -1804,6 +1804,12 @@ A tuple
             print(f"WARNING: projection_diff() was asked to use uncertainties, but they aren't available/couldn't be computed. Falling back on the region-based-only logic. Caught exception: {e}",
                   file = sys.stderr)
 
+    def transform_points(Rt10, p0):
+        # At infinity the translation has no effect. This matters if we're given
+        # the transformation (implied_Rt10 or focus_radius == 0)
+        if atinfinity: return mrcal.rotate_point_R(Rt10[:3,:], p0)
+        return mrcal.transform_point_Rt(Rt10, p0)
+
     if focus_center is None:
         focus_center = ((W-1.)/2., (H-1.)/2.)
 
@@ -1853,9 +1859,9 @@ A tuple
                                                          focus_radius = focus_radius)
 
 
-        q1 = mrcal.project( mrcal.transform_point_Rt(Rt10,
-                                                     # shape (len(distance),Nheight,Nwidth,3)
-                                                     v[0,...] * distance),
+        q1 = mrcal.project( transform_points(Rt10,
+                                             # shape (len(distance),Nheight,Nwidth,3)
+                                             v[0,...] * distance),
                             lensmodels[1], intrinsics_data[1])
         # shape (len(distance),Nheight,Nwidth,2)
         q1 = nps.atleast_dims(q1, -4)
@@ -1902,9 +1908,9 @@ A tuple
                                                  focus_radius = focus_radius)
         def get_reprojections(q0, Rt10,
                               lensmodel, intrinsics_data):
-            q1 = mrcal.project(mrcal.transform_point_Rt(Rt10,
-                                                        # shape (len(distance),Nheight,Nwidth,3)
-                                                        v[0,...]*distance),
+            q1 = mrcal.project(transform_points(Rt10,
+                                                # shape (len(distance),Nheight,Nwidth,3)
+                                                v[0,...]*distance),
                                lensmodel, intrinsics_data)
             # returning shape (len(distance),Nheight,Nwidth,2)
             return nps.atleast_dims(q1, -4)
-- 
2.43.0


From da6a2acf52bf43bbf7aa58a15d72d32f3836fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 085/107] fix: optimize(), ...: extrinsics_rt_fromref,
 frames_rt_toref given as a non-UTF-8 string crashed

---
 mrcal-pywrap.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index eca3b2c..280d347 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -869,13 +869,19 @@ int PyArray_Converter_checkrenamed_leaveNone(PyObject* obj, PyObject** address)
     // If we see the ERROR poison string from renamed() in
     // _deserialize_optimization_inputs() in cameramodel.py, we produce None.
     // This string isn't supposed to actually be used
-    if(PyUnicode_Check(obj) &&
-       0 == strncmp("ERROR:", PyUnicode_AsUTF8(obj), 6))
+    if(PyUnicode_Check(obj))
     {
-        *address = Py_None;
-        Py_INCREF(Py_None);
-        return 1;
-    }        
+        const char* str = PyUnicode_AsUTF8(obj);
+        if(str == NULL)
+            // Not representable in UTF-8. The error is already set
+            return 0;
+        if(0 == strncmp("ERROR:", str, 6))
+        {
+            *address = Py_None;
+            Py_INCREF(Py_None);
+            return 1;
+        }
+    }
     
     return PyArray_Converter_leaveNone(obj,address);
 }
-- 
2.43.0


From ee7b25bf20cbfa2bd30e3f44d3960b7d426ca40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 086/107] fix: optimize(), ...: calibration_object_spacing =
 NaN is not a valid spacing

---
 mrcal-pywrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 280d347..ddef1f7 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1027,7 +1027,8 @@ static bool optimize_validate_args( // out
 
     if( Nobservations_board > 0)
     {
-        if( calibration_object_spacing <= 0.0 )
+        // written this way to reject NaN also
+        if( !(calibration_object_spacing > 0.0) )
         {
             BARF("We have board observations, so calibration_object_spacing MUST be a valid float > 0");
             return false;
-- 
2.43.0


From f0c27a3ce69582d97cca243845f6d9e208684010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 087/107] fix: optimize() modified the read-only arrays it was
 given

---
 mrcal-pywrap.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index ddef1f7..3da391d 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -1259,6 +1259,31 @@ static bool optimize_validate_args( // out
     // There are more checks for triangulated points, but I run them later, in
     // fill_c_observations_point_triangulated()
 
+    // optimize() returns its results in the given arrays, so I must be able to
+    // write to those
+    if(optimizemode == OPTIMIZEMODE_OPTIMIZE)
+    {
+#define CHECK_WRITEABLE(x, is_modified)                                 \
+        do {                                                            \
+            if((is_modified) && !IS_NULL(x) &&                          \
+               PyArray_SIZE(x) > 0 && !PyArray_ISWRITEABLE(x))          \
+            {                                                           \
+                BARF("'" #x "' is an output of optimize(), so it must be writeable"); \
+                return false;                                           \
+            }                                                           \
+        } while(0)
+
+        CHECK_WRITEABLE(intrinsics,
+                        do_optimize_intrinsics_core ||
+                        do_optimize_intrinsics_distortions);
+        CHECK_WRITEABLE(rt_cam_ref,         do_optimize_extrinsics);
+        CHECK_WRITEABLE(rt_ref_frame,       do_optimize_frames);
+        CHECK_WRITEABLE(points,             do_optimize_frames);
+        CHECK_WRITEABLE(calobject_warp,     do_optimize_calobject_warp);
+        CHECK_WRITEABLE(observations_board, do_apply_outlier_rejection);
+#undef CHECK_WRITEABLE
+    }
+
     return true;
  done:
     return false;
-- 
2.43.0


From ebc1bf367bd08ed6956b92a0a45a4208941b62ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 088/107] fix: pack_state(), unpack_state() modified the
 read-only array they were given

---
 mrcal-pywrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 3da391d..ace833d 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3703,6 +3703,12 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
     }
 
+    if( !PyArray_ISWRITEABLE(b) )
+    {
+        BARF("The given array is modified in-place, so it MUST be writeable");
+        goto done;
+    }
+
     int       ndim = PyArray_NDIM(b);
     npy_intp* dims = PyArray_DIMS(b);
     if( ndim < 1 )
-- 
2.43.0


From 1b0d8552d8151e1be4595d843999f4dab19ce829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 089/107] fix: CHOLMOD_factorization.solve_xt_JtJ_bt(): bt with
 a last dimension of 0 crashed with a division by 0

---
 mrcal-pywrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index ace833d..8937770 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -499,7 +499,6 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
 #undef SYS_NAME
 
     int Nstate = (int)PyArray_DIMS((PyArrayObject*)Py_bt)[ndim-1];
-    int Nrhs   = (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
 
     if( self->factorization->n != (unsigned)Nstate )
     {
@@ -520,6 +519,7 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
     }
 
     // Alright. b looks good-enough to use
+    int Nrhs = Nstate == 0 ? 0 : (int)PyArray_SIZE((PyArrayObject*)Py_bt) / Nstate;
     if( 0 == Nrhs )
     {
         // Degenerate input (0 columns). Just return it, and I'm done
-- 
2.43.0


From 24bd7afc11448350a8640555842365f9a505eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 090/107] fix: pack_state(), unpack_state() misread arrays with
 a non-native byte order

---
 mrcal-pywrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index 8937770..e457ef8 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -3697,6 +3697,12 @@ static PyObject* _pack_unpack_state(PyObject* self, PyObject* args, PyObject* kw
         goto done;
     }
 
+    if( !PyArray_ISNOTSWAPPED(b) )
+    {
+        BARF("The given array MUST have the native byte order");
+        goto done;
+    }
+
     if( !PyArray_IS_C_CONTIGUOUS(b) )
     {
         BARF("The given array MUST be a C-style contiguous array");
-- 
2.43.0


From d4fbb6aef449e0b84b0203ec6251f86b4771197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 091/107] fix: qt_from_Rt(), Rt_from_qt(): arrays with the
 wrong dimensions must be rejected

---
 mrcal/poseutils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mrcal/poseutils.py b/mrcal/poseutils.py
index 5fcf50b..9fab0c0 100644
--- a/mrcal/poseutils.py
+++ b/mrcal/poseutils.py
@@ -1535,6 +1535,11 @@ We return the qt transformation. Each broadcasted slice has shape (7,). qt[:4]
 is a rotation defined as a unit quaternion; qt[4:] is a translation.
 
     """
+    if Rt.shape[-2:] != (4,3):
+        raise Exception(f"Rt should have shape (...,4,3), but got {Rt.shape}")
+    if out is not None and out.shape[-1:] != (7,):
+        raise Exception(f"The given 'out' array should have shape (...,7), but got {out.shape}")
+
     if out is not None:
         qt = out
     else:
@@ -1598,6 +1603,11 @@ Rt[:3,:] is a rotation matrix; Rt[3,:] is a translation. The matrix R is a valid
 rotation: matmult(R,transpose(R)) = I and det(R) = 1
 
     """
+    if qt.shape[-1:] != (7,):
+        raise Exception(f"qt should have shape (...,7), but got {qt.shape}")
+    if out is not None and out.shape[-2:] != (4,3):
+        raise Exception(f"The given 'out' array should have shape (...,4,3), but got {out.shape}")
+
     if out is not None:
         Rt = out
     else:
-- 
2.43.0


From b0d59d229cd4a19b5be57c4b42f27c57b5bd001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 092/107] fix: CHOLMOD_factorization misread arrays with a
 non-native byte order

---
 mrcal-pywrap.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mrcal-pywrap.c b/mrcal-pywrap.c
index e457ef8..80dd726 100644
--- a/mrcal-pywrap.c
+++ b/mrcal-pywrap.c
@@ -354,6 +354,11 @@ CHOLMOD_factorization_init(CHOLMOD_factorization* self, PyObject* args, PyObject
         BARF("J."#x " must have dtype: " #dtype);                       \
         goto done;                                                      \
     }                                                                   \
+    if( !PyArray_ISNOTSWAPPED((PyArrayObject*)Py_ ## x) )               \
+    {                                                                   \
+        BARF("J."#x " must have the native byte order");                \
+        goto done;                                                      \
+    }                                                                   \
     if( !PyArray_IS_C_CONTIGUOUS((PyArrayObject*)Py_ ## x) )            \
     {                                                                   \
         BARF("J."#x " must live in contiguous memory");                 \
@@ -512,6 +517,11 @@ CHOLMOD_factorization_solve_xt_JtJ_bt(CHOLMOD_factorization* self, PyObject* arg
         BARF("bt must have dtype=float");
         goto done;
     }
+    if( !PyArray_ISNOTSWAPPED((PyArrayObject*)Py_bt) )
+    {
+        BARF("bt must have the native byte order");
+        goto done;
+    }
     if( !PyArray_IS_C_CONTIGUOUS((PyArrayObject*)Py_bt) )
     {
         BARF("bt must live in contiguous memory");
-- 
2.43.0


From 4903f153c4307135e5f9832a726e0d099b10c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 093/107] fix: mrcal-to-kalibr wrote garbage for the distortion
 coefficients

---
 mrcal-to-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-to-kalibr b/mrcal-to-kalibr
index 4e307de..e1f8977 100755
--- a/mrcal-to-kalibr
+++ b/mrcal-to-kalibr
@@ -143,15 +143,15 @@ def convert_one(i, model_filename):
 
     if   lensmodel_type == 'LENSMODEL_OPENCV4':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'radtan'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     elif lensmodel_type == 'LENSMODEL_PINHOLE':
         camera_model      = 'pinhole'
-        intrinsics        = repr(list(intrinsics[:4]))
         distortion_model  = 'none'
         distortion_coeffs = repr(list(intrinsics[4:]))
+        intrinsics        = repr(list(intrinsics[:4]))
         cahvore_linearity = None
     else:
         # cahvor(e)
-- 
2.43.0


From 50901f58b334099a58ae35d81899433ec92119fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 094/107] fix: mrcal-from-kalibr: an invalid T_cn_cnm1 is an
 error: exit with status 1

---
 mrcal-from-kalibr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index a7acb8f..2fca28c 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -263,11 +263,11 @@ def convert_one(d,name):
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
         if np.any(T_cn_cnm1[3,:] - np.array((0,0,0,1))):
             print(f"ERROR: T_cn_cnm1 must have a last row of (0,0,0,1); got {T_cn_cnm1[3,:]}",
                   file=sys.stderr)
-            sys.exit()
+            sys.exit(1)
 
         # The documentation is here:
         #
-- 
2.43.0


From a077cd7904b0d25e2e0943ba16b48d1db50dfbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 095/107] fix: mrcal-from-kalibr: support numbers like 1e-05,
 which mrcal-to-kalibr writes

---
 mrcal-from-kalibr | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal-from-kalibr b/mrcal-from-kalibr
index 2fca28c..7a0ae27 100755
--- a/mrcal-from-kalibr
+++ b/mrcal-from-kalibr
@@ -217,7 +217,8 @@ def convert_one(d,name):
                   file=sys.stderr)
             sys.exit(1)
 
-        intrinsics = np.array(d['intrinsics'])
+        # The dtype is needed: yaml reads numbers like 1e-05 as strings
+        intrinsics = np.array(d['intrinsics'], dtype=float)
 
         if d['camera_model'] == 'cahvor':
             if intrinsics.size != 6*3:
@@ -259,7 +260,8 @@ def convert_one(d,name):
         Rt_cam_camprev = mrcal.identity_Rt()
 
     else:
-        T_cn_cnm1 = np.array(d['T_cn_cnm1'])
+        # The dtype is needed: yaml reads numbers like 1e-05 as strings
+        T_cn_cnm1 = np.array(d['T_cn_cnm1'], dtype=float)
         if T_cn_cnm1.shape != (4,4):
             print(f"ERROR: T_cn_cnm1 must be a 4x4 array; got T_cn_cnm1.shape={T_cn_cnm1.shape}",
                   file=sys.stderr)
-- 
2.43.0


From 0dce481680e9b04ae09de540e61ceaa9250841a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 096/107] fix: model converters: keep processing the other
 models if one is already in the requested format

---
 mrcal-from-cahvor | 2 +-
 mrcal-from-ros    | 2 +-
 mrcal-to-cahvor   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrcal-from-cahvor b/mrcal-from-cahvor
index ddf3675..c967014 100755
--- a/mrcal-from-cahvor
+++ b/mrcal-from-cahvor
@@ -88,7 +88,7 @@ for model in args.model:
         if extension.lower() == '.cameramodel':
             print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-from-ros b/mrcal-from-ros
index f36b75b..abd4bd7 100755
--- a/mrcal-from-ros
+++ b/mrcal-from-ros
@@ -140,7 +140,7 @@ for model in args.model:
         if extension.lower() == '.cameramodel':
             print("Input file is already in the cameramodel format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
diff --git a/mrcal-to-cahvor b/mrcal-to-cahvor
index 46fe5d8..42fec6b 100755
--- a/mrcal-to-cahvor
+++ b/mrcal-to-cahvor
@@ -85,7 +85,7 @@ for model in args.model:
         if extension.lower() == '.cahvor':
             print("Input file is already in the cahvor format (judging from the filename). Doing nothing",
                   file=sys.stderr)
-            sys.exit(0)
+            continue
 
         if args.outdir is not None:
             base = args.outdir + '/' + os.path.split(base)[1]
-- 
2.43.0


From 616c592bc79b15713550ebdc4e6b43b7c3322fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 097/107] fix: mrcal-convert-lensmodel overwrote existing files
 without --force

---
 mrcal-convert-lensmodel | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mrcal-convert-lensmodel b/mrcal-convert-lensmodel
index 2b1c6d8..eb98b41 100755
--- a/mrcal-convert-lensmodel
+++ b/mrcal-convert-lensmodel
@@ -361,10 +361,17 @@ else:
         directory,filename_base = os.path.split(f)
         file_output = f"{args.outdir}/{filename_base}-{lensmodel_to}{{CAMID}}{extension}"
 
-    if os.path.exists(file_output) and not args.force:
-        print(f"ERROR: '{file_output}' already exists. Not overwriting this file. Pass -f to overwrite",
-              file=sys.stderr)
-        sys.exit(1)
+    if not args.force:
+        if args.all and m.optimization_inputs() is not None:
+            camids = ['-{:02d}'.format(i) for i in range(len(m.optimization_inputs()['intrinsics']))]
+        else:
+            camids = ['']
+        for camid in camids:
+            f = file_output.replace('{CAMID}', camid)
+            if os.path.exists(f):
+                print(f"ERROR: '{f}' already exists. Not overwriting this file. Pass -f to overwrite",
+                      file=sys.stderr)
+                sys.exit(1)
 
 
 lensmodel_from = m.intrinsics()[0]
-- 
2.43.0


From e270d85e3d1bc8c4c2ad823f46bbad2d2829d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 098/107] fix: mrcal-cull-corners: validate the arguments given
 a criterion of 0 also

---
 mrcal-cull-corners | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 02c501b..21388e0 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -143,12 +143,12 @@ if Nculloptions != 1:
 
 if args.object_width_n is not None and args.object_height_n is None:
     args.object_height_n = args.object_width_n
-if args.cull_random_observations_ratio or args.cull_rad_off_center_board:
+if args.cull_random_observations_ratio is not None or args.cull_rad_off_center_board is not None:
     if (args.object_width_n is None or args.object_height_n is None):
         print("--cull-random-observation-ratio and --cull-rad-off-center-board requires --object-width-n",
               file=sys.stderr)
         sys.exit(1)
-if args.cull_random_observations_ratio:
+if args.cull_random_observations_ratio is not None:
     if args.filename is not None:
         print("--cull-random-observation-ratio is exclusive with --filename",
               file=sys.stderr)
-- 
2.43.0


From d1fd8897c085a186411fd51e8b17cc5e8b5853f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 099/107] fix: mrcal-cull-corners --cull-left-of culls x < the
 given value, as documented

---
 mrcal-cull-corners | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 21388e0..797ef2d 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -231,7 +231,7 @@ if args.cull_left_of              is not None or \
             sys.stdout.write(l)
             continue
 
-        if args.cull_left_of        is not None and float(f[1]) > args.cull_left_of:
+        if args.cull_left_of        is not None and float(f[1]) >= args.cull_left_of:
             sys.stdout.write(l)
             continue
         if args.cull_rad_off_center is not None and \
-- 
2.43.0


From 0d6182e6298fe51c15167239d935d6fb79fa5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 100/107] fix: mrcal-cull-corners --cull-rad-off-center-board:
 missing points must not shift the other points of the board

---
 mrcal-cull-corners | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 797ef2d..27c94aa 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -222,6 +222,18 @@ if args.cull_left_of              is not None or \
             continue
 
         f = l.split()
+
+        # Each row is the next point on the board, whether or not it will be
+        # culled
+        if filename_current != f[0]:
+            filename_current = f[0]
+            xy_pt *= 0
+        elif args.cull_rad_off_center_board is not None:
+            xy_pt[0] += 1
+            if xy_pt[0] == args.object_width_n:
+                xy_pt[0] = 0
+                xy_pt[1] += 1
+
         if f[1] == '-':
             sys.stdout.write(l)
             continue
@@ -238,20 +250,10 @@ if args.cull_left_of              is not None or \
            nps.norm2(np.array((float(f[1]), float(f[2]))) - c) < r*r:
             sys.stdout.write(l)
             continue
-        if args.cull_rad_off_center_board is not None:
-            if filename_current != f[0]:
-                filename_current = f[0]
-                xy_pt *= 0
-
-            accept_pt = nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board
-
-            xy_pt[0] += 1
-            if xy_pt[0] == args.object_width_n:
-                xy_pt[0] = 0
-                xy_pt[1] += 1
-            if accept_pt:
-                sys.stdout.write(l)
-                continue
+        if args.cull_rad_off_center_board is not None and \
+           nps.norm2(xy_pt - cboard) < args.cull_rad_off_center_board*args.cull_rad_off_center_board:
+            sys.stdout.write(l)
+            continue
 
         # Cull the point!
         f[3] = '-'
-- 
2.43.0


From 7aa7db0b8824069357a468596501a44bd89aa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 101/107] fix: mrcal-cull-corners
 --cull-random-observations-ratio threw out all the level-0 corners and
 reported other levels

---
 mrcal-cull-corners | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mrcal-cull-corners b/mrcal-cull-corners
index 27c94aa..0c79dab 100755
--- a/mrcal-cull-corners
+++ b/mrcal-cull-corners
@@ -269,7 +269,7 @@ observations, _, paths = \
     mrcal.compute_chessboard_corners(W                  = args.object_width_n,
                                      H                  = args.object_height_n,
                                      corners_cache_vnl  = sys.stdin,
-                                     weight_column_kind = 'weight')
+                                     weight_column_kind = 'level')
 
 N_keep       = int(round((1.0 - args.cull_random_observations_ratio) * len(observations)))
 indices_keep = np.sort(np.random.choice(len(observations), N_keep, replace=False))
@@ -288,7 +288,8 @@ print('# filename x y level')
 for i in range(len(paths)):
     path   = paths[i]
     for j in range(observations.shape[-2]):
+        # weight = 2^(-level)
         l = observations[i][j][2]
-        if l < 0: l = '-'
-        else:     l = int(l)
+        if l <= 0: l = '-'
+        else:      l = int(round(-np.log2(l)))
         print(f"{path} {observations[i][j][0]} {observations[i][j][1]} {l}")
-- 
2.43.0


From a5005e6fa6024131581ee5ce6ddac7d82c88774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 102/107] fix: cahvor: support writing CAHVORE models with a
 negative linearity

---
 mrcal/cahvor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index b28248f..bd8d84e 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -293,9 +293,8 @@ def _deconstruct_model(model):
     x = dict()
 
     lensmodel,intrinsics = model.intrinsics()
-    m = re.match(r'^LENSMODEL_CAHVORE_linearity=([0-9\.]+)$', lensmodel)
-    if m is not None:
-        x['cahvore_linearity'] = float(m.group(1))
+    if re.match('LENSMODEL_CAHVORE_', lensmodel):
+        x['cahvore_linearity'] = mrcal.lensmodel_metadata_and_config(lensmodel)['linearity']
     else:
         x['cahvore_linearity'] = None
 
-- 
2.43.0


From 2bad2f0d7847d6fb50e9b4a30253e2aa0f46db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 103/107] fix: cahvor: an empty valid-intrinsics region was
 read as None

---
 mrcal/cahvor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index bd8d84e..9035785 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -156,7 +156,9 @@ def _read(s, name):
         if re.match(r'^\s*#|^\s*$', l):
             continue
 
-        m = re.match(r'\s*(\w+)\s*=\s*(.+?)\s*\n?$',
+        # The value may be empty only for VALID_INTRINSICS_REGION: this is the
+        # empty region
+        m = re.match(r'\s*(\w+(?=\s*=\s*\S)|VALID_INTRINSICS_REGION)\s*=\s*(.*?)\s*\n?$',
                      l, flags=re.I)
         if m:
             key   = m.group(1)
@@ -186,7 +188,7 @@ def _read(s, name):
             # use integers
             if re.match(r'[0-9\s]+$', x[i]): totype = int
             else:                            totype = float
-            x[i] = np.array( [ totype(v) for v in re.split(r'\s+', x[i])], dtype=totype)
+            x[i] = np.array( [ totype(v) for v in x[i].split()], dtype=totype)
 
     # Now I sanity-check the results and call it done
     for k in ('Dimensions','C','A','H','V'):
-- 
2.43.0


From 4f763b7097db5bade11c580a7c5bcba5872679f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 104/107] fix: writing a model that cannot be stored in the
 requested format destroyed the existing file; cahvor.write() ignored the note

---
 mrcal/cahvor.py      | 10 ++++++++--
 mrcal/cameramodel.py | 20 ++++++++++++--------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/mrcal/cahvor.py b/mrcal/cahvor.py
index 9035785..7e155ef 100644
--- a/mrcal/cahvor.py
+++ b/mrcal/cahvor.py
@@ -33,6 +33,7 @@ reason to use this module.
 
 import sys
 import re
+import io
 
 import numpy     as np
 import numpysane as nps
@@ -412,10 +413,15 @@ def write(f, m, note=None):
     r'''Writes a cameramodel as a .cahvor to a filename or a writeable file object'''
 
     if type(f) is str:
+        # I produce all the data before touching the file. If the given model
+        # isn't supported, an existing file must survive
+        s = io.StringIO()
+        _write(s, m, note)
         with open(f, 'w') as openedfile:
-            return _write(openedfile, m, note)
+            openedfile.write(s.getvalue())
+        return True
 
-    return _write(f, m)
+    return _write(f, m, note)
 
 def read_transforms(f):
     r'''Reads a file (a filename string, or a file-like object: an iterable
diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 3aec86b..b8830df 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1462,15 +1462,19 @@ projection_matrix:
         elif _opencv: write_function = write_opencv
 
         if isinstance(f, str):
+            # I produce all the data before touching the file. If this model
+            # cannot be written, an existing file must survive
+            s = io.StringIO()
+            if write_function is not None:
+                write_function(s)
+            elif re.match(r".*\.cahv(or(e)?)?$", f):
+                write_cahvor(s)
+            elif re.match(r".*\.ya?ml$", f):
+                write_opencv(s)
+            else:
+                self._write( s, note )
             with open(f, 'w') as openedfile:
-                if write_function is not None:
-                    write_function(openedfile)
-                elif re.match(r".*\.cahv(or(e)?)?$", f):
-                    write_cahvor(openedfile)
-                elif re.match(r".*\.ya?ml$", f):
-                    write_opencv(openedfile)
-                else:
-                    self._write( openedfile, note )
+                openedfile.write(s.getvalue())
         else:
             if write_function is not None:
                 write_function(f)
-- 
2.43.0


From 387eeef59c00bbf2076fbe2531f7ae365ce0253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 105/107] fix: cameramodel: json models could not be read

---
 mrcal/cameramodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index b8830df..2cbe9bb 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -629,8 +629,8 @@ A sample valid .cameramodel file:
                              'rt_cam_ref',
                              'imagersize'))
         keys_received = set(model.keys())
-        if keys_received < keys_required:
-            raise Exception("Model must have at least these keys: '{}'. Instead I got '{}'". \
+        if not keys_required <= keys_received:
+            raise CameramodelParseException("Model must have at least these keys: '{}'. Instead I got '{}'". \
                             format(keys_required, keys_received))
 
         valid_intrinsics_region = None
-- 
2.43.0


From 8f395d9dd64cbef26e03123acc694f4581f56e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 106/107] fix: reading opencv/ros models: rectification_matrix,
 or an invalid R were silently ignored

---
 mrcal/cameramodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrcal/cameramodel.py b/mrcal/cameramodel.py
index 2cbe9bb..db25cae 100644
--- a/mrcal/cameramodel.py
+++ b/mrcal/cameramodel.py
@@ -1082,15 +1082,17 @@ general function is used to find the data. The args are:
                    P[2,3] != 0:
                     raise CameramodelParseException(f"model {P_at} expected to have last column of [x*fx,0,0], but instead have: {P[:,3]}")
 
-                try:
+                if any(k in model_in for k in ('rotation','rectification_matrix','R')):
                     R,R_at = \
                         find_array( ( ('rotation','data'),
                                       ('rotation',),
+                                      ('rectification_matrix','data'),
+                                      ('rectification_matrix',),
                                       ('R',) ),
                                     dtype = float,
                                     shape = (3,3),
                                     model = model_in )
-                except:
+                else:
                     R = mrcal.identity_R()
                     R_at = 'default'
 
-- 
2.43.0


From dd54d47b5e59aa1be7ccad4cec2445f6cbf083be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 107/107] fix: optimize(): triangulated points were judged by
 the seed extrinsics, not the solved ones

---
 mrcal.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mrcal.c b/mrcal.c
index 90c36b9..7a5ea97 100644
--- a/mrcal.c
+++ b/mrcal.c
@@ -6490,6 +6490,21 @@ mrcal_optimize( // out
                 // libdogleg barfed. I quit out
                 goto done;
 
+            // Done. I have the solved state. I spit it back out. This happens
+            // before the outlier rejection: that needs the SOLVED extrinsics
+            unpack_solver_state( intrinsics,         // Ncameras_intrinsics of these
+                                 rt_cam_ref,         // Ncameras_extrinsics of these
+                                 rt_ref_frame,       // Nframes of these
+                                 points,             // Npoints of these
+                                 calobject_warp,
+                                 packed_state,
+                                 lensmodel,
+                                 problem_selections,
+                                 Ncameras_intrinsics, Ncameras_extrinsics,
+                                 Nframes, Npoints-Npoints_fixed,
+                                 Nobservations_board,
+                                 Nstate);
+
 #if 0
             // Not using dogleg_markOutliers() (yet...)
 
@@ -6532,20 +6547,6 @@ mrcal_optimize( // out
 #endif
 
 
-        // Done. I have the final state. I spit it back out
-        unpack_solver_state( intrinsics,         // Ncameras_intrinsics of these
-                             rt_cam_ref,         // Ncameras_extrinsics of these
-                             rt_ref_frame,       // Nframes of these
-                             points,             // Npoints of these
-                             calobject_warp,
-                             packed_state,
-                             lensmodel,
-                             problem_selections,
-                             Ncameras_intrinsics, Ncameras_extrinsics,
-                             Nframes, Npoints-Npoints_fixed,
-                             Nobservations_board,
-                             Nstate);
-
         double regularization_ratio_distortion  = 0.0;
         double regularization_ratio_centerpixel = 0.0;
         const int imeas_reg0 =
-- 
2.43.0

