From ddbf43d4edd723af0f7aa5cb2ce378962c18c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:59 +0000
Subject: [PATCH 01/36] fix: report failed writes and failed closes in
 vt_file_write*/append*

---
 src/vita/system/fileio.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..3ab2f55 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,13 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
     
-    // close file
-    fclose(fp); 
+    // close file: buffered data may only reach the file here, so it can still fail
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +234,16 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    status = (fprintf(fp, "\n") >= 0) && status;
     
-    // close file
-    fclose(fp); 
+    // close file: buffered data may only reach the file here, so it can still fail
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +261,18 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
     if (add_ln) {
-        fprintf(fp, "\n");
+        status = (fprintf(fp, "\n") >= 0) && status;
     }
     
-    // close file
-    fclose(fp); 
+    // close file: buffered data may only reach the file here, so it can still fail
+    status = (fclose(fp) == 0) && status;
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From 360d9a8fe36692433fa11a1648855bf38d765fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:59 +0000
Subject: [PATCH 02/36] fix: reading an empty file returns an empty string
 instead of exiting

---
 src/vita/system/fileio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 3ab2f55..18e514a 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -25,8 +25,8 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
         return NULL;
     }
 
-    // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    // create data buffer (an empty file results in an empty string)
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -73,8 +73,8 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
         return NULL;
     }
 
-    // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    // create data buffer (an empty file results in an empty string)
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create_capacity(1, alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From a8bd88bd6521037ce8cb54bf581ec4ae56930cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 03/36] fix: vt_str_split read past the end of strings ending
 in repeated separators

---
 src/vita/container/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..daf8ad2 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -965,6 +965,9 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
         // count copy length
         const size_t copyLen = strlen(head) - (current == NULL ? 0 : strlen(current));
         if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
+            if (current == NULL) { // nothing is left after the last sep
+                break;
+            }
             head += sepLen;
             continue;
         } else {
-- 
2.43.0


From a718bb63ff9ada87f9dd2d24da8f64ddaae2eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 04/36] fix: vt_str_remove_last/replace_last crashed on a
 missing substring, remove_last removed the wrong part

---
 src/vita/container/str.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index daf8ad2..8911a5e 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -573,7 +573,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     const size_t zLen = strlen(z);
     char *p = strstr(s->ptr, z);
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -583,7 +583,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     }
 
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = (lastInstance - (char*)(s->ptr));
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
@@ -719,7 +719,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr != NULL && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From 35dcc1e97631a59251addcd4cc060e0737224e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 05/36] fix: stripping a string of only stripped characters
 underflowed its length

---
 src/vita/container/str.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 8911a5e..41785bb 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -788,7 +788,7 @@ void vt_str_strip(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace(*curr)) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -822,7 +822,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace(*curr) || ispunct(*curr))) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -871,7 +871,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     // strip tailing whitespace and control symbols
     stop = false;
     curr = p + (*len + offset - 1);
-    while (!stop) {
+    while (*len > 0 && !stop) {
         for (size_t i = 0; i < cLen; i++) {
             if (*curr == c[i]) {
                 (*len)--;
-- 
2.43.0


From 20b7c17c5e25660617589d709bf8ef22389a41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 06/36] fix: vt_str_insert_after exited when the substring was
 at the end of the string

---
 src/vita/container/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 41785bb..adeacff 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -502,8 +502,10 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
         return;
     }
 
-    // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    // insert z (append it, if sub is at the very end)
+    const size_t at = idx + strlen(sub);
+    if (at < s->len) vt_str_insert(s, z, at);
+    else if (z[0] != '\0') vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From 82d7f7a699cfab384cbbbedd2706ebdc1b26840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 07/36] fix: slide_back skipped the last elements and read
 before the first

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From 80df2b271b80c6d727071a925e83a95e9294c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 08/36] fix: shrinking an empty vec or plist aborted the
 program

---
 src/vita/container/plist.c | 4 ++--
 src/vita/container/vec.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dd99da8..2b59ae3 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -87,8 +87,8 @@ void vt_plist_shrink(vt_plist_t *const p) {
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    // if length and capacity are the same, exit the function
-    if (p->len == p->capacity) {
+    // if there is nothing to shrink to or length and capacity are the same, exit the function
+    if (p->len == 0 || p->len == p->capacity) {
         return;
     }
 
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..9b3a7f5 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -73,8 +73,8 @@ void vt_vec_shrink(vt_vec_t *const v) {
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
-    // if length and capacity are the same, exit the function
-    if (v->len == v->capacity) {
+    // if there is nothing to shrink to or length and capacity are the same, exit the function
+    if (v->len == 0 || v->len == v->capacity) {
         return;
     }
 
-- 
2.43.0


From 9477b419c65417d017ea4702a4fe73dc399079fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 09/36] fix: vt_path_mkdir succeeds only if the directory
 exists afterwards

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..5f1a0ac 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -263,7 +263,7 @@ bool vt_path_mkdir(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // if directory exists, don't do anything
-    if (vt_path_exists(z)) {
+    if (vt_path_is_dir(z)) {
         return true;
     }
 
@@ -278,7 +278,7 @@ bool vt_path_mkdir(const char *const z) {
     #if defined(_WIN32) || defined(_WIN64)
         return (status != 0);
     #else
-        return (status == 0);
+        return (status == 0 || vt_path_is_dir(z)); // it could have been created in the meantime
     #endif
 }
 
-- 
2.43.0


From e62b8f7a81ca5d58725a3102d9cf6359c0fce183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 10/36] fix: vt_path_mkdir_parents reports directories it could
 not create

---
 src/vita/system/path.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 5f1a0ac..34475ad 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -287,7 +287,7 @@ bool vt_path_mkdir_parents(const char *const z) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // if directory exists, don't do anything
-    if (vt_path_exists(z)) {
+    if (vt_path_is_dir(z)) {
         return true;
     }
 
@@ -323,9 +323,8 @@ bool vt_path_mkdir_parents(const char *const z) {
     // split string into directories
     dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
     if (dir_list == NULL) {
-        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
-
-        status = false;
+        // there are no parents to create
+        status = vt_path_mkdir(z);
         goto vt_label_path_mkdir_parents__;
     }
 
@@ -340,7 +339,11 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        status = vt_path_mkdir(vt_str_z(sfull));
+        if (!status) {
+            VT_DEBUG_PRINTF("%s: Failed to create <%s>\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), vt_str_z(sfull));
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From b02187f1da17f0e82d20d4600fe6bbb996d6df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 11/36] fix: directory listings fail instead of returning
 incomplete results

---
 src/vita/system/path.c | 46 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 34475ad..575a2d5 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,9 @@
 #include "vita/system/path.h"
 
+#include <errno.h>
+
+static void vt_path_dir_list_rollback(vt_plist_t *const p, const size_t len);
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -111,7 +115,7 @@ vt_plist_t *vt_path_dir_list(vt_plist_t *const p, const char *const z, const boo
 
     // get directory contents
     struct dirent *dirtree = NULL;
-    while ((dirtree = readdir(dir)) != NULL) {
+    while ((errno = 0, dirtree = readdir(dir)) != NULL) {
         // ignore "." and ".." directories
         if ((ignoreDotFiles && dirtree->d_name[0] == '.') ||
             vt_str_equals_z(dirtree->d_name, ".") || 
@@ -126,6 +130,7 @@ vt_plist_t *vt_path_dir_list(vt_plist_t *const p, const char *const z, const boo
         // push directory name to vt_plist_t
         vt_plist_push_back(pl, d_name);
     }
+    const bool status = (errno == 0);
 
     // close dir
     const int retVal = closedir(dir);
@@ -133,6 +138,16 @@ vt_plist_t *vt_path_dir_list(vt_plist_t *const p, const char *const z, const boo
         VT_DEBUG_PRINTF("%s: Failed to close the directory <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z); 
     }
 
+    // do not return an incomplete listing
+    if (!status) {
+        VT_DEBUG_PRINTF("%s: Failed to list the directory <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
+        vt_path_dir_list_rollback(pl, 0);
+        if (p == NULL) {
+            vt_plist_destroy(pl);
+        }
+        return NULL;
+    }
+
     return pl;
 }
 
@@ -159,9 +174,11 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         : p;
 
     // get directory contents
+    bool status = true;
+    const size_t pl_len = vt_plist_len(pl);
     vt_str_t *st = vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, pl->alloctr);
     struct dirent *dirtree = NULL;
-    while ((dirtree = readdir(dir)) != NULL) {
+    while ((errno = 0, dirtree = readdir(dir)) != NULL) {
         // ignore "." and ".." directories
         if ((ignoreDotFiles && dirtree->d_name[0] == '.') ||
             vt_str_equals_z(dirtree->d_name, ".") || 
@@ -177,8 +194,9 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, VT_PATH_SEPARATOR);
         vt_str_append(st, dirtree->d_name);
 
-        // check if current path is a directory; if false, then break
+        // check if current path is a directory; if it cannot be listed, then break
         if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+            status = false;
             break;
         }
 
@@ -191,6 +209,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         // reset vt_str_t
         vt_str_clear(st);
     }
+    status = status && (errno == 0);
 
     // free resources
     vt_str_destroy(st);
@@ -199,6 +218,16 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
     const int retVal = closedir(dir);
     if (retVal != 0) { VT_DEBUG_PRINTF("%s: Failed to close the directory <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z); }
 
+    // do not return an incomplete listing
+    if (!status) {
+        VT_DEBUG_PRINTF("%s: Failed to list the directory <%s>!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
+        vt_path_dir_list_rollback(pl, pl_len);
+        if (p == NULL) {
+            vt_plist_destroy(pl);
+        }
+        return NULL;
+    }
+
     return pl;
 }
 
@@ -582,5 +611,14 @@ void vt_path_validate(char *const z) {
     }
 }
 
+/* ---------------------- PRIVATE FUNCTIONS ---------------------- */
 
-
+/** Removes and frees directory entries until only `len` of them are left
+    @param p list of `vt_str_t*`
+    @param len number of elements to keep
+*/
+static void vt_path_dir_list_rollback(vt_plist_t *const p, const size_t len) {
+    while (vt_plist_len(p) > len) {
+        vt_str_destroy(vt_plist_pop_get(p));
+    }
+}
-- 
2.43.0


From cf33697671f9faa2007a6cad8ec04598fe5476f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 12/36] fix: vt_path_rmdir_recurse never deletes through
 symbolic links and reports leftovers

---
 src/vita/system/path.c | 46 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 575a2d5..522265b 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -3,6 +3,7 @@
 #include <errno.h>
 
 static void vt_path_dir_list_rollback(vt_plist_t *const p, const size_t len);
+static int vt_path_lstat(const char *const z, struct stat *const info);
 
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
@@ -194,8 +195,20 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, VT_PATH_SEPARATOR);
         vt_str_append(st, dirtree->d_name);
 
+        // check what it is, without following symbolic links
+        struct stat info;
+        if (vt_path_lstat(vt_str_z(st), &info) != 0) {
+            // it was removed in the meantime
+            if (errno == ENOENT) {
+                vt_str_clear(st);
+                continue;
+            }
+            status = false;
+            break;
+        }
+
         // check if current path is a directory; if it cannot be listed, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+        if (S_ISDIR(info.st_mode) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
             status = false;
             break;
         }
@@ -428,9 +441,12 @@ bool vt_path_rmdir_recurse(const char *const z) {
     bool status = true;
 
 
-    // get all files in a directory
+    // get all files in a directory (never those a symbolic link points to)
     // if none are found, delete the directory and return
-    vt_plist_t *dir_list = vt_path_dir_list_recurse(NULL, z, false);
+    struct stat info;
+    vt_plist_t *dir_list = (vt_path_lstat(z, &info) == 0 && S_ISDIR(info.st_mode))
+        ? vt_path_dir_list_recurse(NULL, z, false)
+        : NULL;
     if (dir_list == NULL || !vt_plist_len(dir_list)) {
         status = vt_path_rmdir(z);
         goto vt_path_rmdir_recurse_cleanup__;
@@ -441,14 +457,16 @@ bool vt_path_rmdir_recurse(const char *const z) {
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
         // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        status = (vt_path_lstat(vt_str_z(path), &info) == 0 && S_ISDIR(info.st_mode)) 
+            ? vt_path_rmdir(vt_str_z(path)) 
+            : vt_path_remove(vt_str_z(path));
 
         // check status
         if (!status) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
@@ -470,8 +488,9 @@ bool vt_path_remove(const char *const z) {
     // check for invalid input
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // check if path exists
-    if (!vt_path_exists(z)) {
+    // check if path exists (a symbolic link does, even if it points nowhere)
+    struct stat info;
+    if (vt_path_lstat(z, &info) != 0) {
         VT_DEBUG_PRINTF("%s: Path does not exist <%s>\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE), z);
         return false;
     }
@@ -622,3 +641,16 @@ static void vt_path_dir_list_rollback(vt_plist_t *const p, const size_t len) {
         vt_str_destroy(vt_plist_pop_get(p));
     }
 }
+
+/** Returns path information without following symbolic links
+    @param z path
+    @param info where to save the data
+    @returns 0 upon success
+*/
+static int vt_path_lstat(const char *const z, struct stat *const info) {
+    #if defined(_WIN32) || defined(_WIN64)
+        return stat(z, info);
+    #else
+        return lstat(z, info);
+    #endif
+}
-- 
2.43.0


From 2c9b4f91c9419934a8c045b2f4520464f4b16bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 13/36] fix: vt_path_get_cwd, expand_tilda and
 get_this_exe_location edge cases

---
 src/vita/system/path.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 522265b..4b5134a 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -30,7 +30,17 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    // copy, since `z` does not come from `alloctr`
+    vt_str_t *const s = vt_str_create(z, alloctr);
+    free(z);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
@@ -543,7 +553,11 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
 
     // expand tilda
     vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    if (vt_str_len(s_tilda)) {
+        vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    } else if (z_homepath[0] != '\0') {
+        vt_str_append(s_tilda, z_homepath);                     // there was nothing but tilda
+    }
 
     return s_tilda;
 }
@@ -573,6 +587,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[spath->len] = '\0'; // readlink does not terminate
 
     return spath;
 }
-- 
2.43.0


From be36e501552c4ef21f5c249b286faa3279c952aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 14/36] fix: vt_log falls back to stderr and still exits on
 fatal levels if the log file cannot be opened

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..b79c720 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr; // do not lose the message
             }
 
             // logging data
-- 
2.43.0


From c609ac43453d3fe7f9af07b0e2570cf634de279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 15/36] fix: debug output no longer closes stderr when the
 redirect file cannot be opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From 2c568789611a90a9ffd93fed11b00a00977ccd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 16/36] fix: missing format argument in datetime debug output

---
 src/vita/time/datetime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..5a9e586 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -153,7 +153,7 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
     time_t ret = mktime(&stm);
     if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
@@ -164,7 +164,7 @@ int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
     time_t ret = mktime(&stm);
     if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
 
-- 
2.43.0


From 6dbcdcc799eaee5c863063b3b1a592d6fa932bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 17/36] fix: close the socket when starting up a server or
 client fails

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From 36f1831dfc0aacd5c392d0c7ff02cd75dbd21220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 18/36] fix: sending to a disconnected peer returns an error
 instead of killing the process

---
 src/vita/network/sockets.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 199ac57..fa89ecb 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -1,5 +1,12 @@
 #include "vita/network/sockets.h"
 
+// a closed connection is reported as an error, it must not raise SIGPIPE
+#if defined(MSG_NOSIGNAL)
+    #define VT_SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+    #define VT_SOCKET_SEND_FLAGS 0
+#endif
+
 bool vt_socket_init(void) {
     #if defined(_WIN32) || defined(_WIN64)
         WSADATA wsa;
@@ -130,7 +137,7 @@ bool vt_socket_close(const vt_socket_t sock_fd) {
 
 int32_t vt_socket_send(const vt_socket_t sock_fd, const char *const data_buf, const size_t data_len) {
     // send data
-    const int32_t size_sent = send(sock_fd, data_buf, data_len, 0);
+    const int32_t size_sent = send(sock_fd, data_buf, data_len, VT_SOCKET_SEND_FLAGS);
 
     // check for errors
     if (size_sent < 0) {
@@ -149,7 +156,7 @@ int32_t vt_socket_send_to(const vt_socket_t sock_fd, const struct VitaSocketAddr
     dst_addr.sin_port = address.port;
 
     // send data
-    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, 0, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
+    const int32_t size_sent = sendto(sock_fd, data_buf, data_len, VT_SOCKET_SEND_FLAGS, (struct sockaddr*)&dst_addr, sizeof(dst_addr));
     
     // check for errors
     if (size_sent < 0) {
-- 
2.43.0


From bc6ff74bbe4197b5e87a6f91a8c0f604acdf92dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 19/36] fix: timed receive reports socket errors instead of a
 timeout

---
 src/vita/network/sockets.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index fa89ecb..26d6ecd 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -225,8 +225,8 @@ int32_t vt_socket_receive_timed(const vt_socket_t sock_fd, char *data_buf, const
     const int32_t poll_ret = vt_socket_poll(&pfd, 1, timeout);
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
-    // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    // receive data (or the error the socket is in)
+    if (poll_ret > 0) {
         return vt_socket_receive(sock_fd, data_buf, data_len);
     }
 
@@ -244,8 +244,8 @@ int32_t vt_socket_receive_timed_from(const vt_socket_t sock_fd, struct VitaSocke
     const int32_t poll_ret = vt_socket_poll(&pfd, 1, timeout);
     if (poll_ret < 0) return VT_SOCKET_STATUS_ERROR_POLL;
 
-    // receive data
-    if (poll_ret > 0 && (pfd.revents & POLLIN)) {
+    // receive data (or the error the socket is in)
+    if (poll_ret > 0) {
         return vt_socket_receive_from(sock_fd, address, data_buf, data_len);
     }
 
-- 
2.43.0


From a5758395dae38f80cb12375992ac072f5ab56f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 20/36] fix: vt_argopt_parse wrote past the end of an existing
 C string option

---
 src/vita/util/argopt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..865f918 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
-                    // copy values
-                    memcpy(*zvalue, value, len);
+                    // copy values, including the terminator
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0


From 444425ce46f1008bfc3ff214006abdef2c6594ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:16 +0000
Subject: [PATCH 21/36] fix: do not append the newline after the text failed to
 be written

---
 src/vita/system/fileio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 18e514a..f396f68 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -237,8 +237,8 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
-    // add a new line
-    status = (fprintf(fp, "\n") >= 0) && status;
+    // add a new line (not after a failure, the text would be missing before it)
+    status = status && (fprintf(fp, "\n") >= 0);
     
     // close file: buffered data may only reach the file here, so it can still fail
     status = (fclose(fp) == 0) && status;
@@ -264,9 +264,9 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
-    // add a new line
+    // add a new line (not after a failure, the text would be missing before it)
     if (add_ln) {
-        status = (fprintf(fp, "\n") >= 0) && status;
+        status = status && (fprintf(fp, "\n") >= 0);
     }
     
     // close file: buffered data may only reach the file here, so it can still fail
-- 
2.43.0


From 3f4aee94f215a2aa01b6d4cb8612253d538b3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:53 +0000
Subject: [PATCH 22/36] fix: use the full 2^32 modulus in the random generator

With the modulus 2^32-1 the recurrence has a fixed point, which 17 start
times fall into (e.g. 1748103587): every random number is then the same and
vt_math_random_f32_normal never returns.
---
 src/vita/math/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..62783a2 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -52,7 +52,7 @@ uint64_t vt_math_random_u64(void) {
         random_func_is_init = 1;
     }
 
-    random_time = (0x343FDULL * random_time + 0x269EC3ULL) % 0xFFFFFFFFULL;
+    random_time = (0x343FDULL * random_time + 0x269EC3ULL) & 0xFFFFFFFFULL;
     return (random_time & 0x3FFF8000) >> 15;
 }
 
-- 
2.43.0


From b7ce5b38075de400c3ff0e004ad3285b8329fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:56 +0000
Subject: [PATCH 23/36] fix: vt_str_split_between leaks its result when the
 substrings are out of order

---
 src/vita/container/str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index adeacff..32680c2 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1028,6 +1028,11 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         return st;
     }
 
+    // free resources, if allocated here
+    if (s == NULL) {
+        vt_str_destroy(st);
+    }
+
     return NULL;
 }
 
-- 
2.43.0


From 378c34fe80a0363f5ca27e3b12e2cc009c84350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:05 +0000
Subject: [PATCH 24/36] fix: datetime conversions are off by an hour during
 daylight saving time

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 5a9e586..f13aea6 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -333,7 +333,7 @@ static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
         .tm_sec = vdt.second,
         .tm_wday = (vdt.week_day == 7) ? 0 : vdt.week_day,
         .tm_yday = vdt.year_day - 1,
-        .tm_isdst = 0
+        .tm_isdst = -1 // not stored in VitaDateTime, let mktime find out
     };
 }
 
-- 
2.43.0


From f5270cdea9bf5ec320ce52eb87d7e8e6dee07bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:05 +0000
Subject: [PATCH 25/36] fix: vt_datetime_is_leap_year takes every century for a
 leap year

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index f13aea6..3faa5f1 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0));
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From 28030d48459153f5b6292fa1b58f7c8014bacb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:05 +0000
Subject: [PATCH 26/36] fix: timestamp validation reads past the end of a short
 text

---
 src/vita/time/datetime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 3faa5f1..00eba98 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -394,6 +394,11 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     for (size_t i = 0; i < len; i++) {
+        // do not read past the end of a shorter text
+        if (timebuf[i] == '\0' && fmt[i] != '\0') {
+            return false;
+        }
+
         if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
             return false;
         }
-- 
2.43.0


From 0848e2012e18a30dd6e123afe5b28088fdfbd83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:05 +0000
Subject: [PATCH 27/36] fix: week day and year day of dates before 1970 are not
 found

---
 src/vita/time/datetime.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 00eba98..216b1bc 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,8 +151,9 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
+    stm.tm_wday = -1; // mktime leaves it as it is upon failure
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
         VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
@@ -162,8 +163,9 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
+    stm.tm_wday = -1; // mktime leaves it as it is upon failure
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
         VT_DEBUG_PRINTF("%s: Invalid datetime format.\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
         return -1;
     }
-- 
2.43.0


From ccc2d873a3bb53df9ade5913324a8fab0c312907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 28/36] fix: vt_path_basename returns filler for a name
 directly below the root

---
 src/vita/system/path.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 4b5134a..afb2f8d 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -282,15 +282,15 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
 
     // create a new vt_str_t instance
     vt_str_t *st = (s == NULL)
-        ? vt_str_create_len(strlen(z), NULL) 
+        ? vt_str_create(z, NULL) 
         : s;
 
     // find the basename
     const char *ptr = NULL;
     const size_t zLen = strlen(z);
-    for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+    for (size_t i = zLen; i > 0; i--) {
+        if (z[i-1] == VT_PATH_SEPARATOR[0] && i != zLen) {
+            ptr = &z[i];
             break;
         }
     }
-- 
2.43.0


From 86060a7e2071862f98b5a750df8cf844eb050e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 29/36] fix: vt_path_pop turns a path below the root into an
 empty one and reads before an empty one

---
 src/vita/system/path.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index afb2f8d..54ae0d7 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -601,7 +601,10 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
-    if (z[len-1] == VT_PATH_SEPARATOR[0]) {
+    if (len == 0) {
+        return;
+    }
+    if (len > 1 && z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
     }
@@ -614,7 +617,7 @@ void vt_path_pop(char *const z) {
     // pop dir entry, step back the dir tree
     while (len > 0) {
         if (z[len-1] == VT_PATH_SEPARATOR[0]) {
-            z[len-1] = '\0';
+            z[len > 1 ? len-1 : 1] = '\0'; // keep the root
             return;
         }
         len--;
-- 
2.43.0


From e2d35f679203af2607fff7fd37630fbd9f4e6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:26 +0000
Subject: [PATCH 30/36] fix: option parsing stopped the program on an empty
 argument or an empty string value

---
 src/vita/util/argopt.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 865f918..3466d75 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -31,12 +31,15 @@ int8_t vt_argopt_parse(const size_t argc, const char **const argv, const size_t
         // save argv[i] as unrecognized_option
         unrecognized_option = argv[i];
 
-        // split 'option=value' by '='
-        vt_str_append(s_arg_value, argv[i]);
-        s_opt_split = vt_str_pop_get_first(s_opt_split, s_arg_value, "=");
+        // split 'option=value' by '=' (an empty argument is not an option)
+        const bool is_empty = argv[i][0] == '\0';
+        if (!is_empty) {
+            vt_str_append(s_arg_value, argv[i]);
+            s_opt_split = vt_str_pop_get_first(s_opt_split, s_arg_value, "=");
+        }
 
         // find the corresponding option in optv
-        for (size_t j = 0; j < optc; j++) {
+        for (size_t j = 0; !is_empty && j < optc; j++) {
             vt_argopt_t *const opt = &optv[j];
 
             /* Check for 2 cases:
@@ -196,9 +199,13 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
 
                 // check if we need to allocate
                 if (*svalue == NULL) {
-                    *svalue = vt_str_create(value, alloctr);
+                    *svalue = vt_str_create_capacity(VT_ARRAY_DEFAULT_INIT_ELEMENTS, alloctr);
                 } else {
                     vt_str_clear(*svalue);
+                }
+
+                // copy value (it can be empty)
+                if (value[0] != '\0') {
                     vt_str_append(*svalue, value);
                 }
             }
-- 
2.43.0


From e6774148c0dbefa2f6c11b67e835c99cbe810308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:43 +0000
Subject: [PATCH 31/36] fix: free every entry of a listing that has been
 iterated over

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 54ae0d7..e00dffd 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -260,6 +260,7 @@ void vt_path_dir_free(vt_plist_t *p) {
 
     // check if list is not empty
     if (vt_plist_len(p)) {
+        vt_plist_slide_reset(p); // it could have been iterated over already
         vt_str_t *item = NULL;
         while((item = vt_plist_slide_front(p)) != NULL) {
             vt_str_destroy(item);
-- 
2.43.0


From 19c4e454a9563818bdc162b11c3e972d39d0d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:16 +0000
Subject: [PATCH 32/36] fix: vt_str_split_between stopped the program or
 overran its buffer when nothing lies between the marks

---
 src/vita/container/str.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 32680c2..ad58215 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1005,8 +1005,9 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         return NULL;
     }
 
-    // find r - right substring
-    const char *const rsub = strstr(z, zr);
+    // find r - right substring, it follows the left one
+    const char *const lsub_end = lsub + strlen(zl);
+    const char *const rsub = strstr(lsub_end, zr);
     if (rsub == NULL) {
         return NULL;
     }
@@ -1017,23 +1018,14 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
-        ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    // append sub (there can be nothing in between)
+    const size_t sub_len = rsub - lsub_end;
+    if (sub_len > 0) {
         vt_str_resize(st, sub_len);
-
-        // append sub
-        vt_str_append_n(st, rsub - sub_len, sub_len);
-
-        return st;
+        vt_str_append_n(st, lsub_end, sub_len);
     }
 
-    // free resources, if allocated here
-    if (s == NULL) {
-        vt_str_destroy(st);
-    }
-
-    return NULL;
+    return st;
 }
 
 vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t *const p) {
-- 
2.43.0


From 426223b9c24fd32463b5261af495ca73b1f72a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:16 +0000
Subject: [PATCH 33/36] fix: string operations never returned when the text to
 look for is empty

---
 src/vita/container/str.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ad58215..ed62436 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -571,9 +571,9 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // find the last instance of sep
+    // find the last instance of sep (there is none, if it is empty)
     const size_t zLen = strlen(z);
-    char *p = strstr(s->ptr, z);
+    char *p = zLen > 0 ? strstr(s->ptr, z) : NULL;
     char *lastInstance = p;
     while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
@@ -599,8 +599,8 @@ enum VitaStatus vt_str_remove_all(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // remove all instances of substring
-    while (vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
+    // remove all instances of substring (there are none, if it is empty)
+    while (z[0] != '\0' && vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
 
     return VT_STATUS_OPERATION_SUCCESS;
 }
@@ -843,9 +843,9 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     VT_DEBUG_ASSERT(c != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     // prepare
-    bool stop = false;
     size_t offset = 0;
     size_t cLen = strlen(c);
+    bool stop = cLen == 0;
     size_t *len = &s->len;
     const char *p = s->ptr;
     const char *curr = p + offset;
@@ -871,7 +871,7 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     *len -= offset;
 
     // strip tailing whitespace and control symbols
-    stop = false;
+    stop = cLen == 0;
     curr = p + (*len + offset - 1);
     while (*len > 0 && !stop) {
         for (size_t i = 0; i < cLen; i++) {
@@ -918,7 +918,7 @@ size_t vt_str_can_find(const vt_str_t *const s, const char *sub) {
 
     size_t count = 0;
     const char *p = vt_str_z(s);
-    while ((p = strstr(p, sub)) != NULL) {
+    while (subLen > 0 && (p = strstr(p, sub)) != NULL) {
         count++;
         p += subLen;
     }
-- 
2.43.0


From ad78116cb4a153c11c4be281c8303df317e85f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:47 +0000
Subject: [PATCH 34/36] fix: timeouts above INT32_MAX milliseconds waited
 without limit

---
 src/vita/network/sockets.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index 26d6ecd..d76df01 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -202,6 +202,12 @@ int32_t vt_socket_receive_from(const vt_socket_t sock_fd, struct VitaSocketAddre
 }
 
 int32_t vt_socket_poll(struct pollfd *const pfd, const size_t pfd_size, const uint32_t timeout) {
+    // the system takes a signed timeout, anything larger would wait without limit: wait in parts
+    if (timeout > INT32_MAX && timeout != UINT32_MAX) {
+        const int32_t part = vt_socket_poll(pfd, pfd_size, INT32_MAX);
+        return (part != 0) ? part : vt_socket_poll(pfd, pfd_size, timeout - INT32_MAX);
+    }
+
     int32_t ret = 0;
 
     // poll events
-- 
2.43.0


From 17afa471e7ed3841a3138df124173406b197421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:32 +0000
Subject: [PATCH 35/36] fix: adding an element of a full vector to the same
 vector read memory that had moved away

---
 src/vita/container/vec.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index 9b3a7f5..2a12f48 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -165,13 +165,19 @@ void vt_vec_push_back(vt_vec_t *const v, const void *const val) {
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(val != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // val may be an element of this very vector, which moves with it
+    const char *src = val;
+    const bool is_own = src >= (char*)v->ptr && src < (char*)v->ptr + v->len * v->elsize;
+    const size_t offset = is_own ? (size_t)(src - (char*)v->ptr) : 0;
+
     // check if new memory needs to be allocated
     if (!vt_vec_has_space(v)) {
         vt_vec_reserve(v, v->capacity * VT_ARRAY_DEFAULT_GROWTH_RATE);
+        if (is_own) src = (char*)v->ptr + offset;
     }
 
     // copy val to vt_vec_t
-    memcpy(((char*)(v->ptr) + v->len++ * v->elsize), val, v->elsize);
+    memcpy(((char*)(v->ptr) + v->len++ * v->elsize), src, v->elsize);
 }
 
 #define VT_INSTANTIATE_VEC_PUSH_BACK(T, t)                     \
@@ -312,6 +318,11 @@ void vt_vec_insert(vt_vec_t *const v, const void *const val, const size_t at) {
         v->len
     );
 
+    // val may be an element of this very vector, which moves with it and is shifted below
+    const char *src = val;
+    const bool is_own = src >= (char*)v->ptr && src < (char*)v->ptr + v->len * v->elsize;
+    const size_t offset = is_own ? (size_t)(src - (char*)v->ptr) : 0;
+
     // check if new memory needs to be allocated
     if (!vt_vec_has_space(v)) {
         vt_vec_reserve(v, v->capacity * VT_ARRAY_DEFAULT_GROWTH_RATE);
@@ -321,7 +332,8 @@ void vt_vec_insert(vt_vec_t *const v, const void *const val, const size_t at) {
     vt_memmove(((char*)(v->ptr) + (at + 1) * v->elsize), ((char*)(v->ptr) + at * v->elsize), ((v->len - at) * v->elsize));
 
     // copy the str contents to str from the specified index
-    memcpy(((char*)(v->ptr) + at * v->elsize), val, v->elsize);
+    if (is_own) src = (char*)v->ptr + offset + (offset >= at * v->elsize ? v->elsize : 0);
+    memcpy(((char*)(v->ptr) + at * v->elsize), src, v->elsize);
 
     // set new length
     v->len++;
-- 
2.43.0


From a4a0a51cd6ba8eceffd2e0a9683b959555003feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:24 +0000
Subject: [PATCH 36/36] fix: appending a part of a full string to the same
 string read memory that had moved away

---
 src/vita/container/str.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index ed62436..582d155 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -346,13 +346,19 @@ void vt_str_append_n(vt_str_t *const s, const char *z, const size_t n) {
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // z may be a part of this very string, which moves with it
+    const char *src = z;
+    const bool is_own = src >= (char*)s->ptr && src < (char*)s->ptr + s->len;
+    const size_t offset = is_own ? (size_t)(src - (char*)s->ptr) : 0;
+
     // check if new memory needs to be allocated
     if (vt_str_has_space(s) < n) {
         vt_str_reserve(s, (n - vt_str_has_space(s)));
+        if (is_own) src = (char*)s->ptr + offset;
     }
 
     // copy z to vt_str_t
-    vt_memmove((char*)(s->ptr) + s->len * s->elsize, z, n * s->elsize);
+    vt_memmove((char*)(s->ptr) + s->len * s->elsize, src, n * s->elsize);
 
     // set new length
     s->len += n;
-- 
2.43.0

