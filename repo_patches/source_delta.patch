From b7d4b676a93a7788d984198b46c8ac4619767fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 01/62] fix: round decimal times instead of truncating them

TTime::makeWithSecondsDecimal(0.29) returned 28/100: 0.29*100 is
28.999999999999996 and was truncated. Decimals that do not fit (e.g. 10/3)
overflowed int32.
---
 libvvhd/headers/TTime.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 4ac5d3a..a109ee2 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <cmath>
 #include <string>
 
 class TTime
@@ -21,13 +22,15 @@ class TTime
 
         static TTime makeWithSecondsDecimal(double seconds)
         {
+            // seconds*newTS is inexact, so it has to be rounded, not truncated
             uint32_t newTS = 1;
-            while ((int32_t(seconds*newTS)/double(newTS) != seconds) && (newTS<0x19999999)/*0xffffffff/10*/)
+            while ((rint(seconds*newTS)/newTS != seconds) && (newTS<0x19999999)/*0xffffffff/10*/
+                && (fabs(seconds)*newTS*10 <= INT32_MAX))
             { newTS*= 10; }
-            while (!(int32_t(seconds*newTS)%10) && (newTS > 1))
+            while (!(int32_t(rint(seconds*newTS))%10) && (newTS > 1))
             { newTS/= 10; }
             //fprintf(stderr, "%lf sec -> %d / %u\n", seconds, int32_t(seconds*newTS), newTS);
-            return TTime(int32_t(seconds*newTS), newTS);
+            return TTime(int32_t(rint(seconds*newTS)), newTS);
         }
 
         static TTime add(TTime time1, TTime time2)
-- 
2.43.0


From b413482b351e8bfb4a1b2b0a8b9165289bbf17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 02/62] fix: recompute particle sizes before solving so resumed
 runs do not diverge

Vortex core sizes (_1_eps) are not saved: after loading a snapshot they
were zero in the first solve, which produced a force spike (30 instead
of 0.9 in a plain cylinder flow) and a wrong continuation. Derive them
from positions in every step, merging nothing.
---
 utils/vvflow/vvflow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..856893c 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -216,6 +216,9 @@ int simulate (lua_State *L) {
         if (S.BodyList.size())
         {
             dbg(tr.build());
+            // particle sizes are not saved, compute them from positions so
+            // that a resumed simulation does not differ from the original one
+            dbg(epsilon.CalcEpsilonFast(/*merge=*/false));
 
             // решаем слау
             if (collision != nullptr) {
-- 
2.43.0


From 3bb03b72e2d9746cb9044587c05f68af5ab819b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 03/62] fix: write stepdata to disk before a snapshot, not
 after it

The rows between two snapshots were only flushed one step after the
later snapshot had been written. A process that died in between left a
snapshot newer than stepdata, and resuming it lost those rows for good.
---
 libvvhd/src/MStepdata.cpp | 11 ++++++-----
 utils/vvflow/vvflow.cpp   |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..fb768f2 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -147,7 +147,11 @@ Stepdata::~Stepdata()
 
 void Stepdata::flush()
 {
-    last_flush_time = 0;
+    H5Fflush(h5f, H5F_SCOPE_GLOBAL);
+
+    struct timespec clk;
+    clock_gettime(CLOCK_MONOTONIC, &clk);
+    last_flush_time = clk.tv_sec;
 }
 
 void Stepdata::write()
@@ -185,10 +189,7 @@ void Stepdata::write()
     struct timespec clk;
     clock_gettime(CLOCK_MONOTONIC, &clk);
     if (clk.tv_sec - last_flush_time > 20)
-    {
-        H5Fflush(h5f, H5F_SCOPE_GLOBAL);
-        last_flush_time = clk.tv_sec;
-    }
+        flush();
 }
 
 /*****************************************************************************/
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 856893c..7865362 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -235,8 +235,10 @@ int simulate (lua_State *L) {
         {
             char tmp_filename[256];
             snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
-            S.save(tmp_filename);
+            // a snapshot must never be newer than stepdata on the disk,
+            // otherwise the rows between them are lost if the process dies
             stepdata.flush();
+            S.save(tmp_filename);
         }
 
         dbg(flowmove.vortex_shed());
-- 
2.43.0


From 4030b263b6f17067554759699537d937e8985ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 04/62] fix: save snapshots under their full name whatever the
 caption

Space::save cut file names at 63 characters, so that with a caption
longer than 45 characters snapshots overwrote each other or lost their
extension. A percent sign in the caption was taken for a format.
---
 libvvhd/src/TSpace.cpp  |  9 ++++++---
 utils/vvflow/vvflow.cpp | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..8abf9b0 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -68,10 +68,13 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
+    int index = int(time/dt+0.5);
+    std::string fname(snprintf(NULL, 0, format, index)+1, '\0');
+    snprintf(&fname[0], fname.size(), format, index);
+    fname.pop_back();
+
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 7865362..da669e8 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -233,12 +233,16 @@ int simulate (lua_State *L) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
-            char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
+            std::string tmp_filename;
+            for (const char* c = f_results; *c; c++) {
+                if (*c == '%') tmp_filename += '%';
+                tmp_filename += *c;
+            }
+            tmp_filename += "/%06d.h5";
             // a snapshot must never be newer than stepdata on the disk,
             // otherwise the rows between them are lost if the process dies
             stepdata.flush();
-            S.save(tmp_filename);
+            S.save(tmp_filename.c_str());
         }
 
         dbg(flowmove.vortex_shed());
-- 
2.43.0


From 7c65dedcde25156d05584c9ee9cfd459177d2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 05/62] fix: replace snapshots atomically

A process dying while saving left a truncated snapshot, and a resumed
simulation destroyed the very snapshot it had been started from. A
refused save (e.g. a joint to a body of no list) truncated the file too.
---
 libvvhd/src/TSpace.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 8abf9b0..2a163ce 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -73,16 +73,27 @@ void Space::save(const char* format)
     snprintf(&fname[0], fname.size(), format, index);
     fname.pop_back();
 
+    // write to a temporary file first so that neither an error
+    // nor a crash leaves a broken file or destroys the existing one
+    std::string tmpname = fname + ".tmp";
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fid = H5Fcreate(tmpname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
-    save_hdf(fid);
+    try {
+        save_hdf(fid);
+    } catch (...) {
+        H5Fclose(fid);
+        remove(tmpname.c_str());
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
         h5_throw("H5Fclose", fname);
+    if (rename(tmpname.c_str(), fname.c_str()) != 0)
+        h5_throw("rename", fname);
 }
 
 FILE* Space::open_file(const char* format)
-- 
2.43.0


From dc15be86c1319f91e57e86b303c72f3b63ba82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 06/62] fix: keep friction of the last step in saved files

---
 libvvhd/src/TSpace_load_hdf.cpp | 29 +++++++++++++++++++++++++++++
 libvvhd/src/TSpace_save_hdf.cpp | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..8012ce3 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -169,6 +169,34 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         h5_throw("H5Dclose", name);
 }
 
+static void dataset_read_friction(hid_t hid, std::string name, TBody& body)
+{
+    // files of previous versions don't have it
+    if (H5Lexists(hid, name.c_str(), H5P_DEFAULT) <= 0)
+        return;
+
+    hid_t h5d = H5Dopen(hid, name.c_str(), H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dopen", name);
+
+    hsize_t N = body.size();
+    hid_t h5s = H5Screate_simple(1, &N, &N);
+    if (h5s < 0)
+        h5_throw("H5Screate_simple", name);
+
+    std::vector<double> fric_array(N);
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, h5s, H5S_ALL, H5P_DEFAULT, fric_array.data());
+    if (err < 0)
+        h5_throw("H5Dread", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+    H5Sclose(h5s);
+
+    for (hsize_t i=0; i<N; i++)
+        body.alist[i].fric = fric_array[i];
+}
+
 static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void *op_data)
 {
     body_map_t& body_map = *(body_map_t*)op_data;
@@ -217,6 +245,7 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
         const std::shared_ptr<TBody>& lbody = pair.second;
 
         dataset_read_body(fid, name, body_map);
+        dataset_read_friction(fid, "friction_" + name, *lbody);
         BodyList.push_back(lbody);
     }
 
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index f96cfdb..4e7ce29 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -162,6 +162,37 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         h5_throw("H5Dclose", name);
 }
 
+// viscous friction of the last step, it acts on the next ones
+static void dataset_write_friction(hid_t fid, std::string name, const TBody& body)
+{
+    bool is_zero = true;
+    std::vector<double> fric_array;
+    for (const TAtt& att: body.alist) {
+        fric_array.push_back(att.fric);
+        is_zero &= (att.fric == 0);
+    }
+
+    if (is_zero)
+        return;
+
+    hsize_t N = body.size();
+    hid_t h5s = H5Screate_simple(1, &N, &N);
+    if (h5s < 0)
+        h5_throw("H5Screate_simple", name);
+
+    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dcreate", name);
+
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, fric_array.data());
+    if (err < 0)
+        h5_throw("H5Dwrite", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+    H5Sclose(h5s);
+}
+
 void Space::save_hdf(int64_t fid)
 {
     h5a_write<std::string const&> (fid, "caption", caption);
@@ -214,6 +245,7 @@ void Space::save_hdf(int64_t fid)
         }
 
         dataset_write_body(fid, body_name.c_str(), root_name, *lbody);
+        dataset_write_friction(fid, "friction_" + body_name, *lbody);
     }
 
     h5t_commit_all(fid);
-- 
2.43.0


From 9b621cc903986e6871fa1e83902ce999617f15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 07/62] fix: take a slip condition set from Lua into account at
 once

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..8ed99ff 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties();
     return 0;
 }
 
-- 
2.43.0


From 8185de971e3f5d50739def6652bdb59d1750f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 08/62] fix: keep a collision until its own component handles
 it

---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..e8c8c27 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -925,8 +925,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -942,8 +942,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -960,8 +960,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From 503bc7ff144dbcbda98c95ec883bb3800423f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 09/62] fix: keep the gaps of a streamfunction map in order,
 whatever the threads

---
 libvvhd/src/XStreamfunction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..e597485 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -4,6 +4,7 @@
 #include "MEpsilonFast.hpp"
 #include "elementary.h"
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -114,6 +115,11 @@ void XStreamfunction::evaluate()
         }
     }
 
+    // threads add gaps in arbitrary order, and isolines sum them up
+    std::sort(gaps.begin(), gaps.end(), [](const TGap& a, const TGap& b) {
+        return a.yj != b.yj ? a.yj < b.yj : a.xi < b.xi;
+    });
+
     evaluated = true;
 }
 
-- 
2.43.0


From c8a213b1164be377d0fbdc88ad96487c6c9737f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 10/62] fix: count an outline's corners once in the inside test

---
 libvvhd/src/TBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 0143ceb..46a10de 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -259,7 +259,7 @@ TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
                     (vi.y < vj.y) && (vi.y < p.y) && (p.y <= vj.y) &&
                     ((vj.y - vi.y) * (p.x - vi.x) > (vj.x - vi.x) * (p.y - vi.y))
             ) || (
-                (vi.y > vj.y) && (vi.y > p.y) && (p.y >= vj.y) &&
+                (vi.y > vj.y) && (vi.y >= p.y) && (p.y > vj.y) &&
                 ((vj.y - vi.y) * (p.x - vi.x) < (vj.x - vi.x) * (p.y - vi.y))
                 )) inContour = !inContour;
     }
-- 
2.43.0


From 677149fc150bb790d808aee27539bf0a22a250e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 11/62] fix: make an attached body follow its root at the joint
 vertically too

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index e8c8c27..b11d2b6 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -838,7 +838,7 @@ void MConvectiveFast::fillSpeedYEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = 0;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = -1;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->get_axis() - root_body->get_axis()).x;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = -(ibody->holder.r - root_body->get_axis()).x;
     }
 }
 
-- 
2.43.0


From 1207841c950542844128af896e74f2bfe8555569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 12/62] fix: body resting on a collision limit must not shorten
 the step below zero

---
 libvvhd/src/MFlowmove.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..17eead9 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -42,10 +42,11 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
             double dt_ = d_nan;
             if (TBody::isrigid(*kspring_[i])) {
                 /* do nothing */
-            } else if (new_pos[i] > max[i]) {
-                dt_ = (max[i] - cur_pos[i]) / speed[i];
-            } else if (new_pos[i] < min[i]) {
-                dt_ = (min[i] - cur_pos[i]) / speed[i];
+            } else if (new_pos[i] > max[i] && speed[i] > 0) {
+                // position at the limit is inexact, time must not go back
+                dt_ = std::max(0., (max[i] - cur_pos[i]) / speed[i]);
+            } else if (new_pos[i] < min[i] && speed[i] < 0) {
+                dt_ = std::max(0., (min[i] - cur_pos[i]) / speed[i]);
             }
 
             if (dt_ < current_dt) {
-- 
2.43.0


From a35fe18039cd09fb984bb77df753018d8c17856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 13/62] fix: moment of friction is about the body's axis, as
 all other moments

---
 libvvhd/src/TSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 2a163ce..231139e 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -114,6 +114,7 @@ void Space::calc_forces()
         double tmp_gsum = 0;
         //TObj tmp_fric(0,0,0);
         lbody->friction = TVec3D();
+        const TVec axis = lbody->get_axis();
 
         for (TAtt& latt: lbody->alist)
         {
@@ -123,7 +124,7 @@ void Space::calc_forces()
             latt.Nu += latt.hsum * (re*pr / latt.dl.abs());
 
             lbody->friction.r -= latt.dl * (latt.fric * C_Nyu_Pi / latt.dl.abs());
-            lbody->friction.o -= (rotl(latt.r)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
+            lbody->friction.o -= (rotl(latt.r - axis)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
             lbody->nusselt += latt.hsum * (re*pr);
         }
 
-- 
2.43.0


From c3b03970f7f66eb57c367bf53af7356bbfdbb61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 14/62] fix: vvawk: accept a range limit of 0, do not use 1e400

mawk refuses to parse the literal (decimal overflow), so avg, sd, zeros and
ampl did not start at all, and xmin=0 or xmax=0 was taken for no limit.
---
 utils/scripts/vvawk.ampl  | 4 ++--
 utils/scripts/vvawk.avg   | 4 ++--
 utils/scripts/vvawk.sd    | 4 ++--
 utils/scripts/vvawk.zeros | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 8052370..b59e85c 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -11,8 +11,8 @@ BEGIN{
     }
     col =  col ? col+0 : 2
     span = span ? span+0. : 5
-    xmin = xmin ? xmin+0. : -1e400
-    xmax = xmax ? xmax+0. : +1e400
+    xmin = (xmin != "") ? xmin+0. : -1e300
+    xmax = (xmax != "") ? xmax+0. : +1e300
     smax = smin = 0
     nmax = nmin = 0
 }
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 8adaa8b..24ae56c 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -11,8 +11,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = (xmin != "") ? xmin+0. : -1e300
+	xmax = (xmax != "") ? xmax+0. : +1e300
 }
 
 {
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index a57418f..2e8f6ee 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -12,8 +12,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = (xmin != "") ? xmin+0. : -1e300
+	xmax = (xmax != "") ? xmax+0. : +1e300
 }
 
 {
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 62cd12a..9e9be8e 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -9,8 +9,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = (xmin != "") ? xmin+0. : -1e300
+	xmax = (xmax != "") ? xmax+0. : +1e300
 	yprev = 0
 }
 
-- 
2.43.0


From 344f9328a6e3d31114d2663003dc7fa3a6e5ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 15/62] fix: vvawk: do not take the header line for a row of
 data

vvxtract, whose output these scripts are for, prints a header: drv and mavg
took it for a first row of zeros, zeros found a zero after it, and drv and
mavg replaced the name of the column by a number.
---
 utils/scripts/vvawk.ampl  | 10 +++++++---
 utils/scripts/vvawk.avg   |  3 +++
 utils/scripts/vvawk.drv   |  5 ++++-
 utils/scripts/vvawk.mavg  |  7 +++++--
 utils/scripts/vvawk.sd    |  3 +++
 utils/scripts/vvawk.zeros |  3 +++
 6 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index b59e85c..e0b9c82 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -17,18 +17,22 @@ BEGIN{
     nmax = nmin = 0
 }
 
+# skip header printed by vvxtract
+/^#/ { next }
+
 {
     # круговой буффер
-    mod = NR%span
+    n++
+    mod = n%span
     y[mod] = $col
     x[mod] = $1
 
     # пока буффер не наполнился - наполняем
-    if(NR<span)
+    if(n<span)
         next;
 
     # берём точку по центру окна
-    c = (NR-span/2)%span
+    c = (n-span/2)%span
     yc = y[c]
     xc = x[c]
 
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 24ae56c..df22432 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -15,6 +15,9 @@ BEGIN{
 	xmax = (xmax != "") ? xmax+0. : +1e300
 }
 
+# skip header printed by vvxtract
+/^#/ { next }
+
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.drv b/utils/scripts/vvawk.drv
index 47aba93..f26e88c 100755
--- a/utils/scripts/vvawk.drv
+++ b/utils/scripts/vvawk.drv
@@ -12,9 +12,12 @@ BEGIN{
     div = div ? div+0. : 1
 }
 
+# keep header printed by vvxtract
+/^#/ { print; next }
+
 {
     ycurr = $col
-    if (NR == 1) {
+    if (++n == 1) {
         yprev = ycurr
         next
     }
diff --git a/utils/scripts/vvawk.mavg b/utils/scripts/vvawk.mavg
index 6de8e8a..28c0d4f 100755
--- a/utils/scripts/vvawk.mavg
+++ b/utils/scripts/vvawk.mavg
@@ -13,10 +13,13 @@ BEGIN{
     span = span ? span+0 : 20
 }
 
+# keep header printed by vvxtract
+/^#/ { print; next }
+
 {
     # circular index
-    mod = NR % span
-    if (NR<=span) count++
+    mod = ++n % span
+    if (n<=span) count++
     else sum -= array[mod]
     sum+= $col
     array[mod]=$col
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 2e8f6ee..4f7c560 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -16,6 +16,9 @@ BEGIN{
 	xmax = (xmax != "") ? xmax+0. : +1e300
 }
 
+# skip header printed by vvxtract
+/^#/ { next }
+
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 9e9be8e..0ca571f 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -18,6 +18,9 @@ function abs(v) {
 	return v < 0 ? -v : v
 }
 
+# skip header printed by vvxtract
+/^#/ { next }
+
 {
 	xcurr = $1
 	ycurr = $col
-- 
2.43.0


From 83ea56121c9760417e817eb0f7c346b330c11be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 16/62] fix: vvawk.ampl: find the centre of a window of odd
 span

(NR-span/2)%span is not an index of the buffer then, so with the default
span of 5 the amplitude was always 0.
---
 utils/scripts/vvawk.ampl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index e0b9c82..c6c2857 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -32,7 +32,7 @@ BEGIN{
         next;
 
     # берём точку по центру окна
-    c = (n-span/2)%span
+    c = (n-int(span/2))%span
     yc = y[c]
     xc = x[c]
 
-- 
2.43.0


From 04a1c342b2a0505b3cb659572ee8f569b5e94843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 17/62] fix: vvawk.sd: a constant column has deviation 0, not
 nan

---
 utils/scripts/vvawk.sd | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 4f7c560..9cffbb0 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -29,5 +29,6 @@ BEGIN{
 
 END {
 	nn = (n>0) ? 1.0/n : 0
-	printf "%.6e\n", sqrt(sum2*nn-(sum*nn)^2)
+	var = sum2*nn-(sum*nn)^2
+	printf "%.6e\n", (var>0) ? sqrt(var) : 0
 }
-- 
2.43.0


From e3750622f74d4dfca6f806b1f37b10a64b2e987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 18/62] fix: vvawk.sd: use the portable power operator

mawk knows ^ only, so the script did not start.
---
 utils/scripts/vvawk.sd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 9cffbb0..a0f68dd 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -22,7 +22,7 @@ BEGIN{
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
-		sum2+= $col**2;
+		sum2+= $col^2;
 		n++;
 	}
 }
-- 
2.43.0


From bb47b7bad1a5ae6533afb9ca82191e1a30ca32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 19/62] fix: loading a flow into a space left its old sinks and
 sources there

---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 231139e..80c4925 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 4bfed9e2eb01ce633679eb17bad239128d512782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 20/62] fix: the order of more than a hundred bodies was lost
 in loading

---
 libvvhd/src/TSpace_load_hdf.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 8012ce3..f9c8ee3 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,14 @@
 #include "vvhdf.h"
 
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+// body99 goes before body100
+struct body_name_less {
+    bool operator()(const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-- 
2.43.0


From 1656df0a933992a5581c2e09972b595de10da651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 21/62] fix: vvxtract --info swapped the numbers of streak
 sources and streak points

---
 utils/vvxtract/vvxtract.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 04fa51c..bb0f7ed 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -103,8 +103,8 @@ int main(int argc, char **argv)
         printf("-- #S.body_list = %zd -- number of elements\n", long(S.BodyList.size()));
         printf("-- #S.vort_list = %zd\n", long(S.VortexList.size()));
         printf("-- #S.sink_list = %zd\n", long(S.SourceList.size()));
-        printf("-- #S.streak_source_list = %zd\n", long(S.StreakList.size()));
-        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_source_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakList.size()));
 
         for (shared_ptr<TBody>& lbody: S.BodyList)
         {
-- 
2.43.0


From 9ba18c12e38d397e6994d6526c72a9e36bc932d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 22/62] fix: vvxtract --info printed freed memory for bodies
 without labels

---
 utils/vvxtract/vvxtract.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index bb0f7ed..907a5a3 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -110,12 +110,13 @@ int main(int argc, char **argv)
         {
             const TBody& b = *lbody;
             printf("\n");
+            const std::string bname = S.get_body_name(&b);
             const char* blabel;
-            printf("-- %s (%s)", S.get_body_name(&b).c_str(), b.label.c_str());
+            printf("-- %s (%s)", bname.c_str(), b.label.c_str());
             if (!b.label.empty()){
                 blabel = b.label.c_str();
             } else {
-                blabel = S.get_body_name(&b).c_str();
+                blabel = bname.c_str();
             }
             printf("\n");
             #define S2D(v) v.x, v.y
@@ -150,11 +151,12 @@ int main(int argc, char **argv)
                 printf("%s.root = nil\n", blabel);
             } else {
                 shared_ptr<TBody> lroot = b.root_body.lock();
+                const std::string rname = S.get_body_name(lroot.get());
                 const char* rlabel;
                 if (!lroot->label.empty()){
                     rlabel = lroot->label.c_str();
                 } else {
-                    rlabel = S.get_body_name(lroot.get()).c_str();
+                    rlabel = rname.c_str();
                 }
                 printf("%s.root = %s\n", blabel, rlabel);
             }
-- 
2.43.0


From a26b260e77908ab44b7ee668afb710565b376c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 23/62] fix: field percentile of few values read before the
 array

---
 libvvhd/src/XField.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..a111624 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -116,7 +116,10 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty())
+        return 0;
+
+    size_t N = std::max<size_t>(std::floor(v.size()*p), 1);
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From c9d957628d610e2f8a73d2fd2f2be98744c42fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 24/62] fix: stored fields of one row or with no spacing were
 accepted

---
 libvvhd/src/XField.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index a111624..d51844b 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -47,6 +47,8 @@ XField::XField(const std::string& str):
     yres = str.size()/sizeof(float)/(xres+1) - 1;
     if (str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
+    if (yres <= 1)
+        throw std::invalid_argument("XField(str): insufficient rows");
 
     float dx = data[2] - data[1];
     float dy = data[2*(xres+1)] - data[1*(xres+1)];
@@ -56,6 +58,8 @@ XField::XField(const std::string& str):
         );
         throw std::invalid_argument("XField(str): non-uniform grid");
     }
+    if (!std::isfinite(dx) || !std::isfinite(dy) || dx <= 0 || dy <= 0)
+        throw std::invalid_argument("XField(str): spacing must be positive");
 
     xmin = data[1];
     ymin = data[1*(xres+1)];
-- 
2.43.0


From 25becb4093091e074f6d598835526dd1d201b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 25/62] fix: isolines broke where a level equals a node value

---
 libvvhd/src/XIsoline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index f1ca96f..07087f0 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -70,7 +70,7 @@ XIsoline::XIsoline(
 inline static
 bool inrange(float z1, float z2, float c)
 {
-    return (z1 <= c && c < z2) || (z1 >= c && c > z2);
+    return (z1 <= c && c < z2) || (z2 <= c && c < z1);
 }
 
 void XIsoline::merge_lines(TLine* dst, bool dst_side)
-- 
2.43.0


From 65ac3058525e9e4d0039427c440189e20cb1a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 26/62] fix: integer fields took fractions and overflowing
 numbers

---
 utils/vvflow/getset.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index cd428aa..d29baa4 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -1,6 +1,7 @@
 #include "getset.h"
 #include "TTime.hpp"
 
+#include <cstdint>
 #include <lua.hpp>
 
 int luavvd_setdouble(lua_State *L) {
@@ -21,10 +22,13 @@ int luavvd_setint32(lua_State *L) {
     int32_t* num = (int32_t*)lua_touserdata(L, 1);
     
     int isnum;
-    lua_Integer val = lua_tointegerx(L, 2, &isnum);
+    lua_Number val = lua_tonumberx(L, 2, &isnum);
     if (!isnum) {
         lua_pushfstring(L, "integer expected, got %s", luaL_typename(L, 2));
         return 1;
+    } else if (!(val >= INT32_MIN && val <= INT32_MAX) || val != int32_t(val)) {
+        lua_pushfstring(L, "integer expected, got %f", val);
+        return 1;
     }
 
     *num = val;
-- 
2.43.0


From 52fb89dfd911b8751c9aff25afc4fafa9c1a9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 27/62] fix: a pair of fractions was taken as a time

---
 utils/vvflow/getset.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index d29baa4..2284b2c 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -1,6 +1,7 @@
 #include "getset.h"
 #include "TTime.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <lua.hpp>
 
@@ -70,6 +71,7 @@ int luavvd_setTTime(lua_State *L) {
     TTime nt;
 
     int isnum[2];
+    lua_Number val[2];
     switch (lua_type(L, 2)) {
     case LUA_TNUMBER:
         *t = TTime::makeWithSecondsDecimal(lua_tonumber(L, 2));
@@ -82,17 +84,25 @@ int luavvd_setTTime(lua_State *L) {
 
         lua_rawgeti(L, 2, 1); // push table[1]
         lua_rawgeti(L, 2, 2); // push table[2]        
-        nt.value = lua_tointegerx(L, -2, &isnum[0]);
-        nt.timescale = lua_tointegerx(L, -1, &isnum[1]);
+        val[0] = lua_tonumberx(L, -2, &isnum[0]);
+        val[1] = lua_tonumberx(L, -1, &isnum[1]);
+        for (int i=0; i<2; i++) {
+            isnum[i] = isnum[i] && val[i] == std::floor(val[i]) && std::isfinite(val[i]);
+        }
         if (!isnum[0] || !isnum[1]) {
             const char *typ1 = luaL_typename(L, -2);
             const char *typ2 = luaL_typename(L, -1);
             lua_pushfstring(L, "TTime needs two integers, got %s and %s", typ1, typ2);
             return 1;
-        } else if (lua_tointeger(L, -1)<1) {
-            lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
+        } else if (val[1] < 1) {
+            lua_pushfstring(L, "TTime timescale must be positive, got %f", val[1]);
+            return 1;
+        } else if (!(val[0] >= INT32_MIN && val[0] <= INT32_MAX && val[1] <= UINT32_MAX)) {
+            lua_pushfstring(L, "TTime can not hold %f/%f", val[0], val[1]);
             return 1;
         }
+        nt.value = val[0];
+        nt.timescale = val[1];
         *t = nt;
         return 0;
     case LUA_TSTRING:
-- 
2.43.0


From 80e53b2b66a1be3eaafa152e50ad58426d7292a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 28/62] fix: an expression failing at some time aborted the
 program

---
 libvvhd/src/TEval.cpp      | 32 ++++++++++++++++++--------------
 utils/vvflow/lua_teval.cpp |  9 +++++++--
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index 4fe2f0d..9f8a569 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -168,6 +168,7 @@ double TEval::eval(double t) const
         return 0;
 
     double ret = 0;
+    std::string err_msg; // an exception must not leave the critical section
 #pragma omp critical
     {
         if (t == cacheTime2) {
@@ -177,28 +178,31 @@ double TEval::eval(double t) const
         } else {
             lua_pushnumber(L, t);
             lua_setglobal(L, "t");
-            int err;
+            int isnum = 0;
 
             lua_getglobal(L, "_evaluator");
-            err = lua_pcall(L, 0, 1, 0);
+            int err = lua_pcall(L, 0, 1, 0);
             if (err) {
-                std::string e = lua_tostring(L, -1);
-                lua_pop(L, 1);
-                throw std::invalid_argument(e);
+                const char* e = lua_tostring(L, -1);
+                err_msg = e ? e : "error in expression";
+            } else {
+                ret = lua_tonumberx(L, -1, &isnum);
+                if (!isnum)
+                    err_msg = "invalid return type";
             }
-            int isnum;
-            ret = lua_tonumberx(L, -1, &isnum);
             lua_pop(L, 1);
-            if (!isnum) {
-                throw std::invalid_argument("invalid return type");
-            }
 
-            cacheTime2 = cacheTime1;
-            cacheValue2 = cacheValue1;
-            cacheTime1 = t;
-            cacheValue1 = ret;
+            if (isnum) {
+                cacheTime2 = cacheTime1;
+                cacheValue2 = cacheValue1;
+                cacheTime1 = t;
+                cacheValue1 = ret;
+            }
         }
     }
 
+    if (!err_msg.empty())
+        throw std::invalid_argument(err_msg);
+
     return ret;
 }
diff --git a/utils/vvflow/lua_teval.cpp b/utils/vvflow/lua_teval.cpp
index 8e3f2b8..2804fd2 100644
--- a/utils/vvflow/lua_teval.cpp
+++ b/utils/vvflow/lua_teval.cpp
@@ -9,8 +9,13 @@ static int teval_eval(lua_State *L) {
     TEval* script = checkTEval(L, 1);
     lua_Number val = luaL_checknumber(L, 2);
 
-    lua_pushnumber(L, script->eval(val));
-    return 1;
+    try {
+        lua_pushnumber(L, script->eval(val));
+        return 1;
+    } catch (const std::invalid_argument& e) {
+        lua_pushfstring(L, "can not evaluate expression (%s)", e.what());
+    }
+    return lua_error(L);
 }
 
 static int teval_tostring(lua_State *L) {
-- 
2.43.0


From c8a4fbb203e33ca024ed9570973b7bb5221f97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 29/62] fix: gen_parallelogram requires the angle d

---
 utils/vvflow/gen_parallelogram.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 2a46d43..aae428c 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -27,8 +27,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     H_ = get_param(L, "H",  "positive", std::numeric_limits<lua_Number>::min());
     d_ = get_param(L, "d", "in range (0, 180)",
         /*min*/ std::numeric_limits<lua_Number>::min(),
-        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()),
-        /*default*/ 0);
+        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()));
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From 90c06d99ce64e13827296e9c1fb71195f2af2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 30/62] fix: gen_plate refuses circles without tangents and an
 end before the start

---
 utils/vvflow/gen_plate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 8dc94d9..fb2bd88 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -1,4 +1,5 @@
 #include <lua.hpp>
+#include <cmath>
 
 #include "lua_tbody.h"
 #include "gen_body.h"
@@ -38,6 +39,8 @@ int luavvd_gen_plate(lua_State *L) {
         /*min*/ std::numeric_limits<double>::min(),
         /*max*/ 1,
         /*default*/ 1);
+    luaL_argcheck(L, fabs(R2-R1) <= Ll, 1, "'L' must not be less than the difference of 'R1' and 'R2'");
+    luaL_argcheck(L, start < stop, 1, "'start' must be less than 'stop'");
     gap   = get_param(L, "gap",   "positive",
         /*min*/ std::numeric_limits<double>::min(),
         /*max*/ std::numeric_limits<double>::infinity(),
-- 
2.43.0


From e5b29dce45c53462177b697dc26187289680fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 31/62] fix: solutions may be bound to other columns of the
 matrix

---
 libvvhd/src/TMatrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index f7dfd9c..f6aed03 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -75,7 +75,9 @@ double *Matrix::getRightCol(unsigned eq)
 
 void Matrix::setSolutionForCol(unsigned col, double *ptr)
 {
-    solution_idx.erase(solution_ptr[col]);
+    auto old = solution_idx.find(solution_ptr[col]);
+    if (old != solution_idx.end() && old->second == col)
+        solution_idx.erase(old);
     solution_ptr[col] = ptr;
     solution_idx[ptr] = col;
 }
-- 
2.43.0


From 9ddefe6cce0f13dcc441af6d6145f5d08a62fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 32/62] fix: a resized matrix forgets its variables and its
 inverse

---
 libvvhd/headers/TMatrix.hpp |  1 +
 libvvhd/src/TMatrix.cpp     | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libvvhd/headers/TMatrix.hpp b/libvvhd/headers/TMatrix.hpp
index 8ed3537..83b95fb 100644
--- a/libvvhd/headers/TMatrix.hpp
+++ b/libvvhd/headers/TMatrix.hpp
@@ -43,6 +43,7 @@ class Matrix
 
         uint32_t bodyMatrixHash_;
         bool bodyMatrixIsOk_;
+        bool inverseMatrixIsOk_;
 
     public:
         uint32_t SuperFastHash (const char * data, int len);
diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index f6aed03..a5d7b47 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -25,7 +25,8 @@ Matrix::Matrix():
     solution_idx(),
     solution_ptr(),
     bodyMatrixHash_(),
-    bodyMatrixIsOk_()
+    bodyMatrixIsOk_(),
+    inverseMatrixIsOk_()
 {
 }
 
@@ -47,9 +48,11 @@ void Matrix::resize(unsigned newsize)
     RightCol =      (double*)realloc(RightCol,      N*sizeof(double));
     ipvt =             (int*)realloc(ipvt,          (N+1)*sizeof(int));
 
-    solution_ptr.resize(N);
+    solution_idx.clear();
+    solution_ptr.assign(N, nullptr);
 
     bodyMatrixIsOk_ = false;
+    inverseMatrixIsOk_ = false;
 }
 
 double *Matrix::getCell(unsigned row, const double *solution)
@@ -233,9 +236,10 @@ void Matrix::FillInverseMatrix()
     }
 
     uint32_t hash = SuperFastHash((char*)BodyMatrix, sqr(N)*sizeof(double));
-    if (hash == bodyMatrixHash_)
+    if (inverseMatrixIsOk_ && hash == bodyMatrixHash_)
         return;
 
+    inverseMatrixIsOk_ = false;
     memcpy(InverseMatrix, BodyMatrix, sqr(N)*sizeof(double));
 
     int size_int = N;
@@ -257,6 +261,7 @@ void Matrix::FillInverseMatrix()
     }
 
     bodyMatrixHash_ = hash;
+    inverseMatrixIsOk_ = true;
     bodyMatrixIsOk_ = false;
 }
 
-- 
2.43.0


From 67e1209769243d2edd04db6489525148d063ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 33/62] fix: the inverse matrix is that of the current one even
 if their hashes collide

---
 libvvhd/headers/TMatrix.hpp | 2 +-
 libvvhd/src/TMatrix.cpp     | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libvvhd/headers/TMatrix.hpp b/libvvhd/headers/TMatrix.hpp
index 83b95fb..3c99ff2 100644
--- a/libvvhd/headers/TMatrix.hpp
+++ b/libvvhd/headers/TMatrix.hpp
@@ -35,13 +35,13 @@ class Matrix
         size_t N; //size
         double* BodyMatrix;
         double* InverseMatrix;
+        double* InvertedMatrix; //what InverseMatrix is the inverse of
         double* RightCol;
         int *ipvt; //technical variable for lapack
 
         std::map<const double*, unsigned> solution_idx;
         std::vector<double*> solution_ptr;
 
-        uint32_t bodyMatrixHash_;
         bool bodyMatrixIsOk_;
         bool inverseMatrixIsOk_;
 
diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index a5d7b47..81312d2 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -20,11 +20,11 @@ Matrix::Matrix():
     N(0),
     BodyMatrix(),
     InverseMatrix(),
+    InvertedMatrix(),
     RightCol(),
     ipvt(),
     solution_idx(),
     solution_ptr(),
-    bodyMatrixHash_(),
     bodyMatrixIsOk_(),
     inverseMatrixIsOk_()
 {
@@ -34,6 +34,7 @@ Matrix::~Matrix()
 {
     free(BodyMatrix);
     free(InverseMatrix);
+    free(InvertedMatrix);
     free(RightCol);
     free(ipvt);
 }
@@ -45,6 +46,7 @@ void Matrix::resize(unsigned newsize)
 
     BodyMatrix =    (double*)realloc(BodyMatrix,    sqr(N)*sizeof(double));
     InverseMatrix = (double*)realloc(InverseMatrix, sqr(N)*sizeof(double));
+    InvertedMatrix = (double*)realloc(InvertedMatrix, sqr(N)*sizeof(double));
     RightCol =      (double*)realloc(RightCol,      N*sizeof(double));
     ipvt =             (int*)realloc(ipvt,          (N+1)*sizeof(int));
 
@@ -235,12 +237,12 @@ void Matrix::FillInverseMatrix()
         exit(-2);
     }
 
-    uint32_t hash = SuperFastHash((char*)BodyMatrix, sqr(N)*sizeof(double));
-    if (inverseMatrixIsOk_ && hash == bodyMatrixHash_)
+    if (inverseMatrixIsOk_ && !memcmp(InvertedMatrix, BodyMatrix, sqr(N)*sizeof(double)))
         return;
 
     inverseMatrixIsOk_ = false;
     memcpy(InverseMatrix, BodyMatrix, sqr(N)*sizeof(double));
+    memcpy(InvertedMatrix, BodyMatrix, sqr(N)*sizeof(double));
 
     int size_int = N;
     int LWORK = sqr(N);
@@ -260,7 +262,6 @@ void Matrix::FillInverseMatrix()
         exit(-2);
     }
 
-    bodyMatrixHash_ = hash;
     inverseMatrixIsOk_ = true;
     bodyMatrixIsOk_ = false;
 }
-- 
2.43.0


From bccd70e1092e938e34bdafb52bb2b25bf8c9f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 34/62] fix: S:load and S:save report errors instead of
 aborting

---
 utils/vvflow/lua_space.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index adea519..1b3830e 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -9,8 +9,13 @@ static int space_load(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    S->load(fname);
-    return 0;
+    try {
+        S->load(fname);
+        return 0;
+    } catch (const std::exception &e) {
+        lua_pushstring(L, e.what());
+    }
+    return luaL_error(L, "%s", lua_tostring(L, -1));
 }
 
 static int space_save(lua_State *L) {
@@ -19,10 +24,11 @@ static int space_save(lua_State *L) {
     const char* fname = luaL_checkstring(L, 2);
     try {
         S->save(fname);
-    } catch (const std::invalid_argument &e) {
-        return luaL_error(L, e.what());
+        return 0;
+    } catch (const std::exception &e) {
+        lua_pushstring(L, e.what());
     }
-    return 0;
+    return luaL_error(L, "%s", lua_tostring(L, -1));
 }
 
 static int space_xstreamfunction(lua_State *L) {
-- 
2.43.0


From 1b8a4aaa27c21c6cc5dc98a699b7411440b12b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 35/62] fix: a corner without a slip flag does not inherit that
 of the line above

---
 libvvhd/src/TBody.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 46a10de..bf72aa4 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -356,11 +356,12 @@ int TBody::load_txt(const char* filename)
     if (!fin) { return errno; }
 
     TVec corner;
-    uint32_t slip = false;
     int  err = 0;
     char line[128];
     while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
     {
+        // slip is optional
+        uint32_t slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
         alist.emplace_back(corner, slip);
     }
-- 
2.43.0


From 2b6d1d89ab20a6dbf5c9b4260621283d5dd11b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 36/62] fix: lines of an outline may be of any length

---
 libvvhd/src/TBody.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index bf72aa4..8e1c3d8 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -357,14 +357,16 @@ int TBody::load_txt(const char* filename)
 
     TVec corner;
     int  err = 0;
-    char line[128];
-    while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
+    char* line = NULL;
+    size_t capacity = 0;
+    while ( !err && getline(&line, &capacity, fin) >= 0 )
     {
         // slip is optional
         uint32_t slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
         alist.emplace_back(corner, slip);
     }
+    free(line);
 
     err |= ferror(fin);
     fclose(fin);
-- 
2.43.0


From 3222edac9a32aaf010162359894a9998982d3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 37/62] fix: a body keeps its outline when another one can not
 be read

---
 libvvhd/src/TBody.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 8e1c3d8..ac613e4 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -350,12 +350,11 @@ inline double atan2(const TVec &p)
 /********************************** SAVE/LOAD *********************************/
 int TBody::load_txt(const char* filename)
 {
-    alist.clear();
-
     FILE *fin = fopen(filename, "r");
     if (!fin) { return errno; }
 
     TVec corner;
+    std::vector<TAtt> corners;
     int  err = 0;
     char* line = NULL;
     size_t capacity = 0;
@@ -364,7 +363,7 @@ int TBody::load_txt(const char* filename)
         // slip is optional
         uint32_t slip = false;
         err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
-        alist.emplace_back(corner, slip);
+        corners.emplace_back(corner, slip);
     }
     free(line);
 
@@ -375,6 +374,7 @@ int TBody::load_txt(const char* filename)
         return errno?:EINVAL;
     }
 
+    alist.swap(corners);
     doUpdateSegments();
     doFillProperties();
 
-- 
2.43.0


From 1c68768386cddce087bce357b473d3ba0a701a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 38/62] fix: a flow is kept when the file to load can not be
 opened

---
 libvvhd/src/TSpace.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 80c4925..0c96c9b 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -37,6 +37,17 @@ Space::Space():
 
 void Space::load(const char* fname, metainfo_t *info)
 {
+    H5Eset_auto(H5E_DEFAULT, NULL, NULL);
+    bool is_v13 = H5Fis_hdf5(fname) == 0;
+
+    hid_t fid = -1;
+    if (!is_v13)
+    {
+        fid = H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT);
+        if (fid < 0)
+            h5_throw("H5Fopen", fname);
+    }
+
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
@@ -44,17 +55,12 @@ void Space::load(const char* fname, metainfo_t *info)
     StreakSourceList.clear();
     StreakList.clear();
 
-    H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    if (H5Fis_hdf5(fname) == 0)
+    if (is_v13)
     {
         load_v13(fname);
         return;
     }
 
-    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT);
-    if (fid < 0)
-        h5_throw("H5Fopen", fname);
-
     load_hdf(fid, info);
 
     herr_t err = H5Fclose(fid);
-- 
2.43.0


From 44a6874e86f4edade2ec775d2f9f9a415f9637ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 39/62] fix: reading errors of a list are reported

---
 libvvhd/src/TSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 0c96c9b..a62d62c 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -176,8 +176,9 @@ int Space::load_list_txt(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    int err = ferror(fin) ? errno : 0;
     fclose(fin);
-    return 0;
+    return err;
 }
 
 int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
-- 
2.43.0


From 1fa91c834044abd961e0400edf3b1159a6e78d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 40/62] fix: list:load_bin reports a file it can not read

---
 libvvhd/src/TSpace.cpp       | 4 +++-
 utils/vvflow/lua_objlist.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index a62d62c..a03291a 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <cerrno>
 #include <fstream>
 #include <limits>
 using std::fstream;
@@ -193,8 +194,9 @@ int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
         li.push_back(obj);
     }
 
+    int err = fin.bad() ? EIO : 0;
     fin.close();
-    return 0;
+    return err;
 }
 
 int Space::load_body_txt(const char* filename)
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..fb5d641 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -42,7 +42,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
-- 
2.43.0


From b075c465fab494ea2d2977c7608af8c526a20ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 41/62] fix: the heat layer reaches beyond the body's bounding
 box

---
 libvvhd/src/TBody.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index ac613e4..60c1c34 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -216,6 +216,14 @@ void TBody::doUpdateSegments()
 
 TAtt* TBody::isPointInvalid(TVec p)
 {
+    if ( !isInsideValid() && (
+        p.x < _min_rect_bl.x ||
+        p.y < _min_rect_bl.y ||
+        p.x > _min_rect_tr.x ||
+        p.y > _min_rect_tr.y ||
+        (p-_cofm).abs2() > _min_disc_r2
+        )) return NULL;
+
     return isPointInContour(p, alist);
 }
 
@@ -239,13 +247,6 @@ template <class T>
 TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
 {
     bool inContour = isInsideValid();
-    if ( !inContour && (
-        p.x < _min_rect_bl.x ||
-        p.y < _min_rect_bl.y ||
-        p.x > _min_rect_tr.x ||
-        p.y > _min_rect_tr.y ||
-        (p-_cofm).abs2() > _min_disc_r2
-        )) return NULL;
 
     TAtt *nearest = NULL;
     double nearest_dr2 = std::numeric_limits<double>::max();
-- 
2.43.0


From ac2e82e070063d0e965baa52b9d8f07b77d740ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 42/62] fix: cropping heat keeps track of the particles in the
 layers of bodies

---
 libvvhd/src/MFlowmove.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index 17eead9..8eefd96 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -275,10 +275,22 @@ void MFlowmove::heat_shed()
 
 void MFlowmove::heat_crop(double scale)
 {
-    for (auto lobj = S->HeatList.begin(); lobj < S->HeatList.end(); )
+    // places of the particles after cropping, -1 for removed ones
+    std::vector<int64_t> new_no(S->HeatList.size(), -1);
+    size_t left = 0;
+    for (size_t i = 0; i < S->HeatList.size(); i++)
     {
-        if (lobj->r.x > scale) S->HeatList.erase(lobj);
-        else lobj++;
+        if (S->HeatList[i].r.x > scale) continue;
+        new_no[i] = left;
+        S->HeatList[left++] = S->HeatList[i];
+    }
+    S->HeatList.erase(S->HeatList.begin() + left, S->HeatList.end());
+
+    for (auto& lbody: S->BodyList)
+    for (auto& latt: lbody->alist)
+    {
+        if (latt.heat_layer_obj_no >= 0)
+            latt.heat_layer_obj_no = new_no[latt.heat_layer_obj_no];
     }
 }
 
-- 
2.43.0


From ae7400c73c0e355af2a84727ec033dd2f70a32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 43/62] fix: the heat layer follows a moving body

---
 libvvhd/src/TBody.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 60c1c34..71d4572 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -199,6 +199,8 @@ void TBody::move(TVec3D deltaHolder, TVec3D deltaBody)
 
 void TBody::doUpdateSegments()
 {
+    heat_layer.clear();
+
     if (!alist.size()) {
         return;
     }
-- 
2.43.0


From 3dd241cce00317860f1919820fef84b1a956c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:09 +0000
Subject: [PATCH 44/62] fix: building the tree does not mix up heat layer
 particles

---
 utils/vvflow/vvflow.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index da669e8..23849b4 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -215,7 +215,9 @@ int simulate (lua_State *L) {
     {
         if (S.BodyList.size())
         {
-            dbg(tr.build());
+            // the tree reorders what it includes, but the segments
+            // remember the positions of heat layer particles in the list
+            dbg(tr.build(true, true, /*IncludeHeat=*/false));
             // particle sizes are not saved, compute them from positions so
             // that a resumed simulation does not differ from the original one
             dbg(epsilon.CalcEpsilonFast(/*merge=*/false));
-- 
2.43.0


From f8194918cb57eabf59437470e9bb77320ae47a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 45/62] fix: the velocity induced by a rotating wall has the
 right sign

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index b11d2b6..dd6bc09 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -451,7 +451,7 @@ TVec MConvectiveFast::SegmentInfluence_linear_source(TVec p, const TAtt &seg, do
     //complex<double> i(0,1);
 
     //cerr << z2 << "\t" << z1 << endl;
-    zV = ( (q2-q1) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
+    zV = ( (q1-q2) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
     //cerr << zV << endl;
     return TVec(zV.real(), zV.imag());
 }
-- 
2.43.0


From 7dabe7fd0b2d17aaa22c9358d43552d7d64960df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:19 +0000
Subject: [PATCH 46/62] fix: a vortex that has no neighbours gets a finite
 velocity

---
 libvvhd/src/MEpsilonFast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MEpsilonFast.cpp b/libvvhd/src/MEpsilonFast.cpp
index b23fd2f..2867f1e 100644
--- a/libvvhd/src/MEpsilonFast.cpp
+++ b/libvvhd/src/MEpsilonFast.cpp
@@ -44,7 +44,8 @@ void MEpsilonFast::CalcEpsilonFast(bool merge)
 
         double eps_restriction = nearestAtt ?
             nearestAtt->dl.abs()*(1.0/3.0)
-            : 0;
+            // вихрь без соседей: размер пренебрежимо мал, но не ноль
+            : 1e-100;
 
         for (TObj *lobj = lbnode->vRange.first; lobj < lbnode->vRange.last; lobj++)
         {
-- 
2.43.0


From 281b87808ea76d67257dc69a2ecf9f3418cdb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 47/62] fix: no velocity from a source of no strength at its
 own place

---
 libvvhd/src/MConvectiveFast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index dd6bc09..4dfe442 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -162,6 +162,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     for (const auto& src: S->SourceList)
     {
         TVec dr = p - src.r;
+        if (dr.iszero()) { continue; }
         res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
     }
 
-- 
2.43.0


From e54e1f14d0fa4adcf875d050ae286fe2ae0dfc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 48/62] fix: smoothing of sources whose strength is no integer

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 4dfe442..04a8e66 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -163,7 +163,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     {
         TVec dr = p - src.r;
         if (dr.iszero()) { continue; }
-        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
+        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
 
     res *= C_1_2PI;
-- 
2.43.0


From e59057dee864510f41e8dfda0dd9eff89514b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 49/62] fix: maps do not change the bodies of the space they
 show

---
 libvvhd/src/XPressure.cpp  | 4 ++++
 libvvhd/src/XVorticity.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index b05a24f..d118ec4 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -3,6 +3,7 @@
 
 #include <cmath>
 #include <limits>
+#include <memory>
 
 using std::max;
 using std::exp;
@@ -56,6 +57,9 @@ void XPressure::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // the bodies are shared with the space the map is of
+    for (auto& lbody: S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
     flowmove.vortex_shed();
 
     //дано: условие непротекания выполнено, неизвестные вихри найдены и рождены.
diff --git a/libvvhd/src/XVorticity.cpp b/libvvhd/src/XVorticity.cpp
index aa86e7b..d6883ac 100644
--- a/libvvhd/src/XVorticity.cpp
+++ b/libvvhd/src/XVorticity.cpp
@@ -6,6 +6,7 @@
 
 #include <cmath>
 #include <limits>
+#include <memory>
 
 using std::max;
 using std::exp;
@@ -34,6 +35,9 @@ void XVorticity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // the bodies are shared with the space the map is of
+    for (auto& lbody: S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
     MFlowmove flowmove = {&S};
     flowmove.vortex_shed();
 
-- 
2.43.0


From d255d7ca3aa7645d7daecb6300ba0151abe9bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:30 +0000
Subject: [PATCH 50/62] fix: pressure at the very place of a vortex

---
 libvvhd/src/XPressure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index d118ec4..cc1eb66 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -107,7 +107,7 @@ inline static
 TVec K(const TVec &obj, const TVec &p)
 {
     TVec dr = p - obj;
-    return dr/dr.abs2();
+    return dr.iszero() ? TVec(0, 0) : dr/dr.abs2();
 }
 
 double XPressure::pressure(TVec p) const
-- 
2.43.0


From c76fbf094d193c0462c3db5a0523748c3b249882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 51/62] fix: velocity maps with the vortices that walls have
 just got

---
 libvvhd/src/XVelocity.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..c8ac805 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -1,7 +1,10 @@
 #include "XVelocity.hpp"
 
+#include "MFlowmove.hpp"
+
 #include <cmath>
 #include <limits>
+#include <memory>
 
 using std::vector;
 
@@ -47,6 +50,10 @@ void XVelocity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // the bodies are shared with the space the map is of
+    for (auto& lbody: S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
+    MFlowmove(&S).vortex_shed();
     tree.build();
     eps.CalcEpsilonFast(false);
 
-- 
2.43.0


From 3799d5c236d6eaf6b5f795fc2dd678c5aca6bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:55 +0000
Subject: [PATCH 52/62] fix: frame of the first body when there is none

---
 libvvhd/src/XPressure.cpp       | 2 ++
 libvvhd/src/XStreamfunction.cpp | 2 ++
 libvvhd/src/XVelocity.cpp       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index cc1eb66..3e10866 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -45,6 +45,8 @@ void XPressure::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XPressure(): no body to move with");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index e597485..1240d9e 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -58,6 +58,8 @@ void XStreamfunction::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XStreamfunction(): no body to move with");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index c8ac805..3f61767 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -34,6 +34,8 @@ void XVelocity::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XVelocity(): no body to move with");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
-- 
2.43.0


From 5d388eec9205c0a13ff9f22a23558f4261ce6947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:19 +0000
Subject: [PATCH 53/62] fix: vvplot reports errors instead of aborting

---
 utils/vvplot/vvplot.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bc53b46..2ae3b65 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <vector>
 #include <limits>
+#include <stdexcept>
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -98,6 +99,9 @@ int main_hdf(int argc, char **argv)
     }
     gp << "\n" << std::endl;
 
+    if ((opt::ref_xy == 'b' || opt::ref_xy == 'x' || opt::ref_xy == 'y') && S.BodyList.empty())
+        throw std::invalid_argument("--ref-xy: no body to be bound to");
+
     if (opt::ref_xy == 'o') {
         // do nothing
     } else if (opt::ref_xy == 'f') {
@@ -566,9 +570,14 @@ int main(int argc, char **argv)
 {
     opt::parse(argc, argv);
 
-    if (opt::ifmt == ffmt::hdf) {
-        return main_hdf(argc, argv);
-    } else {
-        return main_tar(argc, argv);
+    try {
+        if (opt::ifmt == ffmt::hdf) {
+            return main_hdf(argc, argv);
+        } else {
+            return main_tar(argc, argv);
+        }
+    } catch (const std::exception& e) {
+        fprintf(stderr, "%s: %s\n", argv[0], e.what());
+        return 1;
     }
 }
-- 
2.43.0


From 4304612b843efebbaec178a83d18efb2573e62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:31 +0000
Subject: [PATCH 54/62] fix: levels of isolines

---
 libvvhd/src/XIsoline.cpp | 7 +++++--
 utils/vvplot/vvplot.cpp  | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index 07087f0..062d336 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -35,6 +35,9 @@ XIsoline::XIsoline(
     if (!(dv > 0))
         throw std::invalid_argument("XIsoline(): dv must be positive");
 
+    // the last level must not be lost due to rounding
+    const double levels = std::floor((vmax-vmin)/dv + 1e-6);
+
     for (int i=0; i<field.xres-1; i++)
     {
         // float x = xmin + i*spacing;
@@ -61,8 +64,8 @@ XIsoline::XIsoline(
 
             }
 
-            for (double v=vmin; v<=vmax; v+=dv)
-                process_rect(i, j, corners, v);
+            for (double k=0; k<=levels; k++)
+                process_rect(i, j, corners, vmin + k*dv);
         }
     }
 }
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 2ae3b65..086d3cf 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -248,7 +248,7 @@ int main_hdf(int argc, char **argv)
         plot_cmd << " with image";
 
         std::stringstream bin_isopressure;
-        bin_isopressure << XIsoline(prs, opt::Pmin, opt::Pmax, (opt::Pmax - opt::Pmin)/33.);
+        bin_isopressure << XIsoline(prs, opt::Pmin, opt::Pmax, opt::Pmax > opt::Pmin ? (opt::Pmax - opt::Pmin)/33. : 1);
         gp.add("isopressure", bin_isopressure.str());
 
         plot_cmd << DELIMITER;
@@ -370,7 +370,7 @@ int main_hdf(int argc, char **argv)
         if (!(opt::Sstep>0)) {
             opt::Smin = field->min();
             opt::Smax = field->max();
-            opt::Sstep = (opt::Smax - opt::Smin)/33.;
+            opt::Sstep = opt::Smax > opt::Smin ? (opt::Smax - opt::Smin)/33. : 1;
         }
 
         std::stringstream bin_streamline;
@@ -554,7 +554,7 @@ int main_tar(int argc, char **argv)
         if (!(opt::Sstep>0)) {
             opt::Smin = psi.min();
             opt::Smax = psi.max();
-            opt::Sstep = (opt::Smax - opt::Smin)/33.;
+            opt::Sstep = opt::Smax > opt::Smin ? (opt::Smax - opt::Smin)/33. : 1;
         }
 
         std::stringstream bin_streamline;
-- 
2.43.0


From 2cfcdd65a1fce9b25b128e89fc88c921282dec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:44 +0000
Subject: [PATCH 55/62] fix: layers of bodies in the picture archive have names
 of their own

---
 utils/vvplot/vvplot.cpp | 62 ++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 086d3cf..bd6d67e 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -23,6 +23,8 @@
 #include <string>
 #include <vector>
 #include <limits>
+#include <algorithm>
+#include <iterator>
 #include <stdexcept>
 #include <iostream>
 #include <fstream>
@@ -84,6 +86,27 @@ namespace opt {
     int ofmt = ffmt::png;
 }
 
+/* Name of a body layer: body labels are neither unique nor distinct from
+the names of other layers */
+static std::string layer_name(Gnuplotter& gp, std::string name)
+{
+    static const char* reserved[] = {
+        "plot.gp", "body_holders", "body_springs",
+        "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node",
+    };
+
+    for (char& c: name) {
+        // these can not be quoted in the script
+        if (c == '\'' || (unsigned char)c < 0x20) c = '_';
+    }
+    while (gp.get(name)
+        || std::find(std::begin(reserved), std::end(reserved), name) != std::end(reserved)
+    ) {
+        name += "_";
+    }
+    return name;
+}
+
 int main_hdf(int argc, char **argv)
 {
     Space S;
@@ -253,8 +276,8 @@ int main_hdf(int argc, char **argv)
 
         plot_cmd << DELIMITER;
         plot_cmd << "'isopressure'";
-        plot_cmd << " binary format='%2float'";
-        plot_cmd << " with lines lw 1 lc rgb '#9999cc'";
+        plot_cmd << " binary format=\"%2float\"";
+        plot_cmd << " with lines lw 1 lc rgb \"#9999cc\"";
     }
 
     if (opt::U) {
@@ -319,13 +342,13 @@ int main_hdf(int argc, char **argv)
 
         plot_cmd << DELIMITER;
         plot_cmd << "'vortex_list'";
-        plot_cmd << " binary format='%3float'";
+        plot_cmd << " binary format=\"%3float\"";
         plot_cmd << " u 1:2:(color($3))";
         plot_cmd << " with dots lc rgb variable";
         if (opt::Vsize > 0) {
             plot_cmd << DELIMITER;
             plot_cmd << "''";
-            plot_cmd << " binary format='%3float'";
+            plot_cmd << " binary format=\"%3float\"";
             plot_cmd << strfmt(  " u 1:2:(%lf):(color($3))", opt::Vcirc);
             plot_cmd << " with circles lc rgb variable fs transparent solid 0.3 noborder";
         }
@@ -379,8 +402,8 @@ int main_hdf(int argc, char **argv)
 
         plot_cmd << DELIMITER;
         plot_cmd << "'streamlines'";
-        plot_cmd << " binary format='%2float'";
-        plot_cmd << " with lines lw 1.5 lc rgb 'black'";
+        plot_cmd << " binary format=\"%2float\"";
+        plot_cmd << " with lines lw 1.5 lc rgb \"black\"";
     }
 
     for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
@@ -389,12 +412,13 @@ int main_hdf(int argc, char **argv)
         if (blabel.empty()){
             blabel = S.get_body_name(&b);
         }
+        std::string blayer = layer_name(gp, blabel);
 
         if (opt::B) {
             plot_cmd << DELIMITER;
-            plot_cmd << "'" << blabel << "'";
-            plot_cmd << " binary format='%2float'";
-            plot_cmd << " with filledcurve lc rgb '#adadad' lw 2 fs solid border -1";
+            plot_cmd << "'" << blayer << "'";
+            plot_cmd << " binary format=\"%2float\"";
+            plot_cmd << " with filledcurve lc rgb \"#adadad\" lw 2 fs solid border -1";
         }
 
         std::stringstream bin;
@@ -409,7 +433,7 @@ int main_hdf(int argc, char **argv)
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
         }
 
-        gp.add(blabel, bin.str());
+        gp.add(blayer, bin.str());
     }
 
     if (opt::holder || opt::spring) {
@@ -432,19 +456,19 @@ int main_hdf(int argc, char **argv)
             plot_cmd << DELIMITER;
             plot_cmd << "'body_holders'";
             plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
-            plot_cmd << " w circles lc rgb 'black' fs solid noborder";
+            plot_cmd << " w circles lc rgb \"black\" fs solid noborder";
         }
         if (opt::spring) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_springs'";
             plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
-            plot_cmd << " w circles lc rgb 'black' fs solid noborder";
+            plot_cmd << " w circles lc rgb \"black\" fs solid noborder";
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " u 1:2:3:4";
             plot_cmd << " w vectors";
             plot_cmd << strfmt(" head size %lf,135", opt::Vcirc*3);
-            plot_cmd << " lc rgb 'black' lw 1.5";
+            plot_cmd << " lc rgb \"black\" lw 1.5";
         }
     }
 
@@ -473,8 +497,8 @@ int main_hdf(int argc, char **argv)
 
             plot_cmd << DELIMITER;
             plot_cmd << "'ttree_bottom_nodes'";
-            plot_cmd << " binary format='%4float'";
-            plot_cmd << " with boxxy fill empty lc rgb 'black'";
+            plot_cmd << " binary format=\"%4float\"";
+            plot_cmd << " with boxxy fill empty lc rgb \"black\"";
         }
 
         if (opt::ttree_near_nodes) {
@@ -495,8 +519,8 @@ int main_hdf(int argc, char **argv)
 
             plot_cmd << DELIMITER;
             plot_cmd << "'ttree_near_nodes'";
-            plot_cmd << " binary format='%4float'";
-            plot_cmd << " with vectors nohead lc rgb 'black'";
+            plot_cmd << " binary format=\"%4float\"";
+            plot_cmd << " with vectors nohead lc rgb \"black\"";
         }
 
         if (opt::ttree_find_node) {
@@ -517,8 +541,8 @@ int main_hdf(int argc, char **argv)
 
             plot_cmd << DELIMITER;
             plot_cmd << "'ttree_find_node'";
-            plot_cmd << " binary format='%4float'";
-            plot_cmd << " with vectors nohead lc rgb 'black'";
+            plot_cmd << " binary format=\"%4float\"";
+            plot_cmd << " with vectors nohead lc rgb \"black\"";
         }
     }
     #undef DELIMITER
-- 
2.43.0


From 1c85579c545fb1f85628bdf0928df234d5f6a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:58 +0000
Subject: [PATCH 56/62] fix: viewport in the plot script keeps its digits

---
 utils/vvplot/vvplot.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bd6d67e..166dfc5 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -161,8 +161,8 @@ int main_hdf(int argc, char **argv)
     gp << "set zeroaxis" << std::endl;
     gp << "unset xtics" << std::endl;
     gp << "unset ytics" << std::endl
-    << strfmt( "set xrange [%lg:%lg]", opt::rect.xmin, opt::rect.xmax) << std::endl
-    << strfmt( "set yrange [%lg:%lg]", opt::rect.ymin, opt::rect.ymax) << std::endl;
+    << strfmt( "set xrange [%.15lg:%.15lg]", opt::rect.xmin, opt::rect.xmax) << std::endl
+    << strfmt( "set yrange [%.15lg:%.15lg]", opt::rect.ymin, opt::rect.ymax) << std::endl;
     if (opt::colorbox) {
         gp << "set format cb \"\"" << std::endl;
         gp << "set colorbox horizontal user";
@@ -349,7 +349,7 @@ int main_hdf(int argc, char **argv)
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " binary format=\"%3float\"";
-            plot_cmd << strfmt(  " u 1:2:(%lf):(color($3))", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(%lg):(color($3))", opt::Vcirc);
             plot_cmd << " with circles lc rgb variable fs transparent solid 0.3 noborder";
         }
     }
@@ -441,6 +441,8 @@ int main_hdf(int argc, char **argv)
         std::stringstream body_springs;
         for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
             TVec p_h = lbody->holder.r;
+            body_holders.precision(15);
+            body_springs.precision(15);
             body_holders << p_h.x << " " << p_h.y;
             body_holders << std::endl;
 
@@ -455,19 +457,19 @@ int main_hdf(int argc, char **argv)
         if (opt::holder) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_holders'";
-            plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(1.5*%lg)", opt::Vcirc);
             plot_cmd << " w circles lc rgb \"black\" fs solid noborder";
         }
         if (opt::spring) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_springs'";
-            plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(1.5*%lg)", opt::Vcirc);
             plot_cmd << " w circles lc rgb \"black\" fs solid noborder";
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " u 1:2:3:4";
             plot_cmd << " w vectors";
-            plot_cmd << strfmt(" head size %lf,135", opt::Vcirc*3);
+            plot_cmd << strfmt(" head size %lg,135", opt::Vcirc*3);
             plot_cmd << " lc rgb \"black\" lw 1.5";
         }
     }
-- 
2.43.0


From 9451f1b0d8d00422f7a256e5ee580e594ec38418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:10 +0000
Subject: [PATCH 57/62] fix: vvplot overwrites the whole of an older image

---
 utils/vvplot/gnuplotter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index f982b05..cc307ea 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -97,7 +97,7 @@ void Gnuplotter::exec(const std::string& filename)
 {
     std::string script_str = script.str();
 
-    int fd = open(filename.c_str(), O_WRONLY|O_CREAT, 0644);
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
     if (fd < 0) {
         std::string err = "Error opening '" + filename + "': ";
         err += strerror(errno);
-- 
2.43.0


From be43cd3fdc853c17a21712bec46f42e8c708e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:21 +0000
Subject: [PATCH 58/62] fix: picture archive that can not be written is an
 error

---
 utils/vvplot/gnuplotter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index cc307ea..20ff117 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -1,6 +1,7 @@
 #include "./gnuplotter.hpp"
 #include <sys/syscall.h>
 #include <cstring>
+#include <stdexcept>
 #include <errno.h>
 #include <fcntl.h> /* O_RDONLY */
 
@@ -24,9 +25,12 @@ static void archive(
     archive_entry_set_size(e, data.size());
     archive_entry_set_filetype(e, AE_IFREG);
     archive_entry_set_perm(e, perm);
-    archive_write_header(a, e);
-    archive_write_data(a, data.c_str(), data.size());
+    bool ok = archive_write_header(a, e) >= ARCHIVE_WARN;
+    ok = ok && archive_write_data(a, data.c_str(), data.size()) == ssize_t(data.size());
     archive_entry_free(e);
+    if (!ok) {
+        throw std::runtime_error("Error writing '" + name + "': " + archive_error_string(a));
+    }
 }
 
 void Gnuplotter::save(const std::string& filename)
@@ -34,14 +38,18 @@ void Gnuplotter::save(const std::string& filename)
     struct archive *a = archive_write_new();
 
     archive_write_set_format_pax_restricted(a);
-    archive_write_open_filename(a, filename.c_str());
+    if (archive_write_open_filename(a, filename.c_str()) != ARCHIVE_OK) {
+        throw std::runtime_error("Error opening '" + filename + "': " + archive_error_string(a));
+    }
 
     archive(a, "plot.gp", script.str(), 0755);
     for (auto& f: files) {
         archive(a, f.first, f.second);
     }
 
-    archive_write_close(a);
+    if (archive_write_close(a) != ARCHIVE_OK) {
+        throw std::runtime_error("Error writing '" + filename + "': " + archive_error_string(a));
+    }
     archive_write_free(a);
 }
 
-- 
2.43.0


From 6bc5708b852904f2d337078a38df168b9b5c62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:32 +0000
Subject: [PATCH 59/62] fix: large layers of the picture archive

---
 utils/vvplot/gnuplotter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 20ff117..e22b686 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -82,9 +82,9 @@ void Gnuplotter::load(const std::string& filename)
 
         std::string pathname = archive_entry_pathname(entry);
         size_t esize = archive_entry_size(entry);
-        char buf[esize];
+        std::vector<char> buf(esize);
 
-        size_t rsize = archive_read_data(a, buf, esize);
+        ssize_t rsize = archive_read_data(a, buf.data(), esize);
         if (rsize < 0) {
             std::string err = "Error reading '" + filename + "' (" + pathname + "): ";
             err += archive_error_string(a);
@@ -92,9 +92,9 @@ void Gnuplotter::load(const std::string& filename)
         }
 
         if (pathname == "plot.gp") {
-            script.write(buf, rsize);
+            script.write(buf.data(), rsize);
         } else {
-            files[pathname] = std::string(buf, rsize);
+            files[pathname] = std::string(buf.data(), rsize);
         }
     }
 
-- 
2.43.0


From ab3c65e860fd393a2e10c696d4dbea323bcea99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:44 +0000
Subject: [PATCH 60/62] fix: image of no pixels is refused

---
 utils/vvplot/optparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/vvplot/optparse.cpp b/utils/vvplot/optparse.cpp
index b5ac195..a61000e 100644
--- a/utils/vvplot/optparse.cpp
+++ b/utils/vvplot/optparse.cpp
@@ -424,6 +424,10 @@ void opt::parse(int argc, char **argv) {
         /* By now we have exactly one unknown dimension */
         if (!opt::width)  { opt::width  = double(opt::height)*(xmax-xmin)/(ymax-ymin); opt::width-=opt::width%2; }
         if (!opt::height) { opt::height = double(opt::width) *(ymax-ymin)/(xmax-xmin); opt::height-=opt::height%2; }
+        if (opt::width<1 || opt::height<1) {
+            fprintf(stderr, "%s: image size %dx%d is too small.\n", argv[0], opt::width, opt::height);
+            exit(1);
+        }
         if (xmin==xmax)  { double xc=xmin, dx=(ymax-ymin)*opt::width/opt::height/2.0; xmax=xc+dx; xmin=xc-dx; }
         if (ymin==ymax)  { double yc=ymin, dy=(xmax-xmin)*opt::height/opt::width/2.0; ymax=yc+dy; ymin=yc-dy; }
         if (std::isnan(xmin)) { xmin = xmax - (ymax-ymin)*opt::width/opt::height; }
-- 
2.43.0


From ad10dc0328a02cec65df0e4a44e7d8f953240f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 61/62] fix: streamlines next to a source on the right of the
 picture

---
 libvvhd/src/XStreamfunction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1240d9e..beffd2c 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -195,7 +195,9 @@ double XStreamfunction::streamfunction(const TSortedNode &node, TVec p, double*
     {
         tmp_2pi_psi_q += _2pi_psi_q(p-src.r, src.g);
 
-        if (p.x < src.r.x && src.r.x <= p.x+dxdy &&
+        // a source behind the right edge cuts all the row
+        bool last = p.x > xmin + dxdy*(xres - 1.5);
+        if (p.x < src.r.x && (src.r.x <= p.x+dxdy || last) &&
             p.y < src.r.y && src.r.y <= p.y+dxdy)
         {
             *psi_gap += src.g;
-- 
2.43.0


From b76081bcb69d4caa888d370281a54134d1a7c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:55 +0000
Subject: [PATCH 62/62] fix: finite velocity at the corner of a moving body

---
 libvvhd/src/MConvectiveFast.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 04a8e66..827e4bd 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -449,7 +449,10 @@ TVec MConvectiveFast::SegmentInfluence_linear_source(TVec p, const TAtt &seg, do
     complex<double> z1 = z - zs1;
     complex<double> z2 = z - zs2;
     complex<double> zV;
-    //complex<double> i(0,1);
+
+    // at the very corner the influence is infinite
+    if (z1 == 0. || z2 == 0.)
+        return SegmentInfluence_linear_source(p+rotl(seg.dl)*0.001, seg, q1, q2);
 
     //cerr << z2 << "\t" << z1 << endl;
     zV = ( (q1-q2) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
-- 
2.43.0

