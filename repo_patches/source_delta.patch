From 8f38591e703bf7f5f38f41497ffd0091dc762e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 01/42] fix: rb: refuse u_rb_fast_read when the backing has no
 fast read instead of calling a NULL callback

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..281ce87 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From 6fda8c5aa37b293750c90df0c953a3a685096568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 02/42] fix: rb: read past the wrap point (heap backing) no
 longer reads beyond the buffer

---
 srcs/toolbox/rb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 281ce87..20b0e3f 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,9 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    /* Data is fragmented between tail and head only when the requested amount
+     * goes past the end of the buffer. */
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From 0123df3a2c7c2c49dafecad74539c9c268ea211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 03/42] fix: list: reset the element count in u_list_clear

---
 srcs/toolbox/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..fec6cd5 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -363,6 +363,8 @@ int u_list_clear (u_list_t *list)
         u_free(item);
     }
 
+    list->count = 0;
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 2a2bc6021cc0b3f2fbb67a23ae3cd85db0edd9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:42 +0000
Subject: [PATCH 04/42] fix: array: zero the slots added by u_array_resize

---
 srcs/toolbox/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..fca1e68 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -211,6 +211,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* slots that have never been assigned read as zero */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0,
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From 4ef7f2874a2c4d8b479e36045dabe8be94f79312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 05/42] fix: bst: keep subtree counters exact when a node is
 deleted

---
 srcs/toolbox/bst.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..8cf53e5 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -855,6 +855,7 @@ static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r)
 
     /* Let the left subtree become the left child of the new root. */
     r->left = l;
+    r->nelem += (l ? l->nelem : 0);
 
     return r;
 }
@@ -885,8 +886,9 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
         *pfound = 1;
     }
 
-    /* Update child nodes' counter. */
-    if (node && *pfound)
+    /* Update child nodes' counter (the root of the joined subtrees is already
+     * up to date.) */
+    if (node && *pfound && rc != 0)
         node->nelem -= 1;
 
     return node;
-- 
2.43.0


From 72c0e5da3144a7e937efbbb1a77bea5875de5984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 06/42] fix: bst: free the duplicated string values; never free
 user-owned pointer keys

---
 srcs/toolbox/bst.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 8cf53e5..f6d208e 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -405,8 +405,12 @@ int u_bst_set_keyattr (u_bst_t *bst, u_bst_type_t kt, size_t ks)
     bst->keytype = kt;
     bst->keysize = ks;
 
-    if (kt == U_BST_TYPE_OPAQUE)
+    /* strings and opaque objects are duplicated on push and owned by the tree,
+     * pointers belong to the user */
+    if (kt == U_BST_TYPE_OPAQUE || kt == U_BST_TYPE_STRING)
         bst->keyfree = u_bst_genfree;
+    else if (bst->keyfree == u_bst_genfree)
+        bst->keyfree = NULL;
 
     return 0;
 }
@@ -432,8 +436,12 @@ int u_bst_set_valattr (u_bst_t *bst, u_bst_type_t vt, size_t vs)
     bst->valtype = vt;
     bst->valsize = vs;
 
-    if (vt == U_BST_TYPE_OPAQUE)
+    /* strings and opaque objects are duplicated on push and owned by the tree,
+     * pointers belong to the user */
+    if (vt == U_BST_TYPE_OPAQUE || vt == U_BST_TYPE_STRING)
         bst->valfree = u_bst_genfree;
+    else if (bst->valfree == u_bst_genfree)
+        bst->valfree = NULL;
 
     return 0;
 }
-- 
2.43.0


From 12108f45555b0f0a7c31596394fe17d5aa610c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 07/42] fix: buf: terminating printf, failure-safe load/set,
 contents always terminated; data_dump reports write errors and saves empty
 data

---
 srcs/toolbox/buf.c  | 53 +++++++++++++++++++++++++++++----------------
 srcs/toolbox/misc.c |  7 ++++--
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..ff155ad 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -45,12 +45,14 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
     dbg_err_if (ubuf == NULL);
 
     nop_return_if (size <= ubuf->size, 0);  /* nothing to do */
+    dbg_err_if (size + 1 == 0);             /* no room for the '\0' */
    
     /* size plus 1 char to store a '\0' */
     dbg_err_sif ((nbuf = u_realloc(ubuf->data, size + 1)) == NULL);
 
     /* buffer data will always be zero-terminated (but the len field will not
      * count the last '\0') */
+    nbuf[ubuf->len] = '\0';
     nbuf[size] = '\0';
 
     ubuf->data = nbuf;
@@ -112,28 +114,29 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
 {
     struct stat st;
     FILE *fp = NULL;
+    char *nbuf = NULL;
 
     dbg_return_if (ubuf == NULL, ~0);
     dbg_return_if (filename == NULL, ~0);
 
-    dbg_err_sif (stat(filename, &st) == -1);
-
-    /* clear the current data */
-    dbg_err_if (u_buf_clear(ubuf));
-
-    /* be sure to have a big enough buffer */
-    dbg_err_if (u_buf_reserve(ubuf, st.st_size));
-
     dbg_err_sifm ((fp = fopen(filename, "r")) == NULL, "%s", filename);
+    dbg_err_sif (fstat(fileno(fp), &st) == -1);
 
-    /* fill the buffer with the whole file content */
-    dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
-    ubuf->len = st.st_size;
+    /* read the whole file content into a new data block, so that the current 
+     * data is preserved in case anything goes wrong */
+    dbg_err_sif ((nbuf = u_malloc(st.st_size + 1)) == NULL);
+    dbg_err_if (st.st_size > 0 && fread(nbuf, st.st_size, 1, fp) != 1);
+    nbuf[st.st_size] = '\0';
 
     (void) fclose(fp);
 
+    U_FREE(ubuf->data);
+    ubuf->data = nbuf;
+    ubuf->size = ubuf->len = st.st_size;
+
     return 0;
 err:
+    U_FREE(nbuf);
     U_FCLOSE(fp);
     return ~0;
 }
@@ -236,6 +239,9 @@ int u_buf_clear (u_buf_t *ubuf)
     
     ubuf->len = 0;
 
+    if (ubuf->data)
+        ubuf->data[0] = '\0';
+
     return 0;
 }
 
@@ -260,7 +266,8 @@ int u_buf_set (u_buf_t *ubuf, const void *data, size_t size)
     dbg_return_if (data == NULL, ~0);
     dbg_return_if (size == 0, ~0);
 
-    dbg_err_if (u_buf_clear(ubuf));
+    dbg_err_if (u_buf_reserve(ubuf, size));
+    ubuf->len = 0;
     dbg_err_if (u_buf_append(ubuf, data, size));
 
     return 0;
@@ -306,6 +313,9 @@ int u_buf_shrink(u_buf_t *ubuf, size_t newlen)
 
     ubuf->len = newlen;
 
+    if (ubuf->data)
+        ubuf->data[newlen] = '\0';
+
     return 0;
 err:
     return ~0;
@@ -349,6 +359,7 @@ int u_buf_free (u_buf_t *ubuf)
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
     va_list ap;
+    int wr;
     size_t sz, avail;
 
     dbg_return_if (ubuf == NULL, ~0);
@@ -360,15 +371,19 @@ again:
     avail = ubuf->size - ubuf->len; /* avail may be zero */
 
     /* write to the internal buffer of ubuf */
-    dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    wr = vsnprintf(ubuf->data ? ubuf->data + ubuf->len : NULL, avail, fmt, ap);
 
-    if (sz >= avail)
+    if (wr < 0 || (size_t) wr >= avail)
     {
-        /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
-
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
-        ubuf->data[ubuf->len] = '\0';
+        if (ubuf->data)
+            ubuf->data[ubuf->len] = '\0';
+
+        dbg_err_if (wr < 0);
+
+        /* enlarge the buffer (make it at least 128 bytes bigger) */
+        sz = (size_t) wr + 1;
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, sz)));
 
         va_end(ap);
 
@@ -377,7 +392,7 @@ again:
     }
 
     /* update data length (don't include the '\0' in the size count) */
-    ubuf->len += sz; 
+    ubuf->len += (size_t) wr; 
 
     va_end(ap);
 
diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..ebf8d1d 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -500,10 +500,13 @@ inline void u_use_unused_args (char *dummy, ...)
 int u_data_dump (char *data, size_t sz, const char *file)
 {
     FILE *fp = NULL;
+    int rc;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
-    dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+    dbg_err_sif (sz > 0 && fwrite(data, sz, 1, fp) < 1);
+    rc = fclose(fp);
+    fp = NULL;
+    dbg_err_sif (rc != 0);  /* buffered data could not be written out */
 
     return 0;
 err:
-- 
2.43.0


From 490696b07ba3c679e80d73c01197aae261bbfc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 08/42] fix: str: failed calls have no effect, reserve keeps
 the text terminated, length never exceeds the text, self copy is harmless

---
 srcs/toolbox/str.c | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..4dccef0 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -192,10 +192,9 @@ inline int u_string_copy (u_string_t *dst, u_string_t *src)
 {
     dbg_return_if (dst == NULL, ~0);
     dbg_return_if (src == NULL, ~0);
+    nop_return_if (dst == src, 0);  /* nothing to do */
 
-    (void) u_string_clear(dst);
-
-    return u_string_append(dst, src->data, src->data_len);
+    return u_string_set(dst, src->data, src->data_len);
 }
 
 /**
@@ -298,10 +297,16 @@ int u_string_free (u_string_t *s)
 int u_string_set (u_string_t *s, const char *buf, size_t len)
 {
     dbg_return_if (s == NULL, ~0);
+    dbg_return_if (buf == NULL, ~0);
+
+    /* be sure that nothing can fail once the old value is gone */
+    dbg_err_if (len && u_string_reserve(s, len + 1));
 
     (void) u_string_clear(s);
 
     return u_string_append(s, buf, len);
+err:
+    return ~0;
 }
 
 /**
@@ -322,12 +327,14 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     dbg_return_if (s == NULL, ~0);
     nop_return_if (size <= s->data_sz, 0);
+    dbg_err_if (size + 1 == 0);     /* no room for the '\0' */
    
     /* realloc requested size plus 1 char to store the terminating '\0' */
     nbuf = u_realloc(((s->data == null) ? NULL : s->data), size + 1);
     dbg_err_sif (nbuf == NULL);
 
     /* zero terminate it */
+    nbuf[s->data_len] = '\0';
     nbuf[size] = '\0';
 
     s->data = (void *) nbuf;
@@ -378,7 +385,7 @@ int u_string_do_printf (u_string_t *s, int clear, const char *fmt, ...)
  */
 int u_string_append (u_string_t *s, const char *buf, size_t len)
 {
-    size_t nsz, min;
+    size_t nsz, min, shift_cnt;
 
     dbg_return_if (s == NULL, ~0);
     dbg_return_if (buf == NULL, ~0);
@@ -389,16 +396,18 @@ int u_string_append (u_string_t *s, const char *buf, size_t len)
     {
         min = s->data_len + len + 1; /* min required buffer length */
         nsz = s->data_sz;
+        shift_cnt = s->shift_cnt;
         while (nsz <= min)
-            nsz += (BLOCK_SIZE << s->shift_cnt++);
+            nsz += ((size_t) BLOCK_SIZE << shift_cnt++);
 
         dbg_err_if (u_string_reserve(s, nsz));
+        s->shift_cnt = shift_cnt;
     }
 
     /* append this chunk to the data buffer */
     strncpy(s->data + s->data_len, buf, len);
-    s->data_len += len;
-    s->data[s->data_len] = '\0';
+    s->data[s->data_len + len] = '\0';
+    s->data_len += strlen(s->data + s->data_len);   /* may be less than len */
     
     return 0;
 err:
@@ -460,41 +469,31 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
-    size_t sz, avail;
+    int sz;
+    size_t len;
     va_list apcpy;
 
     dbg_return_if (s == NULL, ~0);
     dbg_return_if (fmt == NULL, ~0);
 
-    if (clear)
-        (void) u_string_clear(s);
-
-again:
-    avail = s->data_sz - s->data_len; /* avail may be zero */
-
-    /* copy ap to avoid using it twice when realloc'ing */
+    /* get the length of the formatted text first, so that nothing can fail
+     * once the current value has been touched */
     u_va_copy(apcpy, ap); 
-
-    /* write to the internal buffer of the string.
-     * if the return value is greater than or equal to the size argument, 
-     * the string was too short and some of the printed characters were 
-     * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
-
+    sz = vsnprintf(NULL, 0, fmt, apcpy);
     va_end(apcpy);
 
-    if (sz >= avail)
-    {
-        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
+    dbg_err_if (sz < 0);
 
-        /* trunc the buffer again since vsnprintf could have overwritten '\0' */
-        s->data[s->data_len] = '\0';
+    len = clear ? 0 : s->data_len;
 
-        goto again;
-    }
+    /* if there's not enough space alloc a bigger buffer */
+    if (len + sz + 1 > s->data_sz)
+        dbg_err_if (u_string_reserve(s, s->data_sz + len + 2 * sz + 1));
+
+    (void) vsnprintf(s->data + len, sz + 1, fmt, ap);
 
     /* update string length */
-    s->data_len += sz; 
+    s->data_len = len + sz; 
 
     return 0;
 err:
-- 
2.43.0


From 00f38aadb432a95b9f60e60a6e193c8af7c65290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 09/42] fix: hmap: removal leaves no unreachable keys or
 dangling policy entries, bounded maps keep working when full, clear/copy keep
 the count right, failed puts have no effect

---
 srcs/toolbox/hmap.c | 291 +++++++++++++++++++++++++++++---------------
 1 file changed, 196 insertions(+), 95 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..cf9292f 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -38,7 +38,7 @@ typedef struct u_hmap_q_s u_hmap_q_t;
 /* hmap policy representation */
 struct u_hmap_pcy_s
 {
-    int (*pop)(u_hmap_t *hmap, u_hmap_o_t **obj);
+    u_hmap_q_t *(*pop)(u_hmap_t *hmap);  /* element to be discarded */
     int (*push)(u_hmap_t *hmap, u_hmap_o_t *obj,
             u_hmap_q_t **data);
     int ops;    /* bitwise inclusive OR of U_HMAP_PCY_OP_* values */
@@ -124,6 +124,7 @@ static int __pcy_setup (u_hmap_t *hmap);
 static const char *__pcy2str(u_hmap_pcy_type_t policy);
 
 static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj);
+static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj);
 static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         u_hmap_o_t **old);
 
@@ -139,10 +140,14 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
         u_hmap_q_t **counts);
 static int __queue_push_cmp (u_hmap_t *hmap, u_hmap_o_t *obj,
         u_hmap_q_t **counts);
-static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj);
-static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj);
+static u_hmap_q_t *__queue_pop_front (u_hmap_t *hmap);
+static u_hmap_q_t *__queue_pop_back (u_hmap_t *hmap);
 static int __queue_del (u_hmap_t *hmap, u_hmap_o_t *obj);
 
+static int __copy (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner);
+static size_t __hash (u_hmap_t *hmap, const void *key);
+static int __insert (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **dup);
+static void __remove (u_hmap_t *hmap, u_hmap_o_t *obj);
 static int __resize(u_hmap_t *hmap);
 static int __next_prime(size_t *prime, size_t sz, size_t *idx);
 
@@ -360,7 +365,10 @@ int u_hmap_easy_put (u_hmap_t *hmap, const char *key, const void *val)
 
     return rc;
 err:
-    /* don't free 'obj' because hmap owns it and will free it */
+    /* don't free 'obj' if it already exists because hmap owns it and has freed
+     * it; on other failures the value is left to the caller */
+    if (obj && rc == U_HMAP_ERR_FAIL)
+        __o_discard(hmap, obj);
     return (rc ? rc : U_HMAP_ERR_FAIL);
 }
 
@@ -574,6 +582,13 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     dbg_err_if (__pcy_setup(c));
 
     c->size = c->opts->size;
+
+    /* a bounded map is never resized: be sure that the maximum number of 
+     * elements (plus the one being inserted) can be probed for */
+    if (c->opts->policy != U_HMAP_PCY_NONE &&
+            c->opts->type == U_HMAP_TYPE_LINEAR)
+        c->size = U_MAX(c->size, c->opts->max + 2);
+
     dbg_err_if (__next_prime(&c->size, c->size, &c->px));
     c->threshold = (size_t) (U_HMAP_RATE_FULL * c->size);
 
@@ -595,6 +610,7 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    u_hmap_opts_free(c->opts);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
@@ -616,6 +632,10 @@ void u_hmap_clear (u_hmap_t *hmap)
 
     dbg_ifb (hmap == NULL) return;
 
+    /* free the policy queue */
+    while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
+        (void) __queue_del(hmap, data->ho);
+
     /* free the hashhmap */
     for (i = 0; i < hmap->size; ++i)
     {
@@ -627,12 +647,7 @@ void u_hmap_clear (u_hmap_t *hmap)
         }
     }
 
-    /* free the policy queue */
-    while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
-    {
-        TAILQ_REMOVE(&hmap->pcy.queue, data, next);
-        __q_o_free(data);
-    }
+    hmap->sz = 0;
 }
 
 /**
@@ -673,12 +688,9 @@ void u_hmap_free (u_hmap_t *hmap)
  */
 int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 {
-    u_hmap_o_t *o;
-    u_hmap_e_t *x;
-    int comp;
+    u_hmap_o_t *o = NULL;
+    u_hmap_q_t *victim = NULL;
     int rc;
-    size_t hash;
-    size_t last;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
@@ -690,7 +702,48 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
             hmap->opts->policy == U_HMAP_PCY_NONE)
         dbg_err_if (__resize(hmap));
 
-    hash = hmap->opts->f_hash(obj->key, hmap->size);
+    rc = __insert(hmap, obj, &o);
+
+    if (rc == U_HMAP_ERR_EXISTS)
+    {
+        rc = __o_overwrite(hmap, o, obj, old);
+        dbg_err_if (rc && rc != U_HMAP_ERR_EXISTS);
+        return rc;
+    }
+
+    dbg_err_if (rc);
+
+    if (hmap->sz >= hmap->opts->max &&
+            hmap->opts->policy != U_HMAP_PCY_NONE)
+    {
+        u_dbg("Cache full - freeing according to policy '%s'",
+                __pcy2str(hmap->opts->policy));
+        victim = hmap->pcy.pop(hmap);
+    }
+
+    if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
+    {
+        if (hmap->pcy.push(hmap, obj, &obj->pqe))
+        {
+            __remove(hmap, obj);
+            goto err;
+        }
+    }
+    hmap->sz++;
+
+    if (victim)
+        dbg_err_if (u_hmap_del(hmap, victim->ho->key, old));
+
+    return U_HMAP_ERR_NONE;
+
+err:
+    return U_HMAP_ERR_FAIL;
+}
+
+/* Get the position of a key in the hashmap array */
+static size_t __hash (u_hmap_t *hmap, const void *key)
+{
+    size_t hash = hmap->opts->f_hash(key, hmap->size);
 
     /* rehash if strong hash is required */
     if (hmap->opts->f_hash != &__f_hash &&
@@ -703,6 +756,20 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
         hash = __f_hash(h, hmap->size);
     }
 
+    return hash;
+}
+
+/* Put an object into the hashmap array, unless there is one with the same key
+ * which is returned in dup */
+static int __insert (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **dup)
+{
+    u_hmap_o_t *o;
+    u_hmap_e_t *x;
+    int comp;
+    size_t hash;
+    size_t last;
+
+    hash = __hash(hmap, obj->key);
     x = &hmap->hmap[hash];
 
     switch (hmap->opts->type)
@@ -712,7 +779,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
             if (LIST_EMPTY(x))
             {
                 LIST_INSERT_HEAD(x, obj, next);
-                goto end;
+                return U_HMAP_ERR_NONE;
             }
 
             LIST_FOREACH(o, x, next)
@@ -720,21 +787,20 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                 /* object already hmapd */
                 if ((comp = hmap->opts->f_comp(obj->key, o->key)) == 0)
                 {
-                    rc = __o_overwrite(hmap, o, obj, old);
-                    dbg_err_if (rc && rc != U_HMAP_ERR_EXISTS);
-                    return rc;
+                    *dup = o;
+                    return U_HMAP_ERR_EXISTS;
                 }
                 else
                 {
                     if (comp < 0)
                     {
                         LIST_INSERT_BEFORE(o, obj, next);
-                        goto end;
+                        return U_HMAP_ERR_NONE;
                     }
                     else if (!LIST_NEXT(o, next))
                     {
                         LIST_INSERT_AFTER(o, obj, next);
-                        goto end;
+                        return U_HMAP_ERR_NONE;
                     }
                 }
             }
@@ -750,7 +816,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                 if (LIST_EMPTY(x))
                 {
                     LIST_INSERT_HEAD(x, obj, next);
-                    goto end;
+                    return U_HMAP_ERR_NONE;
                 }
 
                 /* only first node used for linear probing */
@@ -759,32 +825,48 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                 /* object already hmapd */
                 if (hmap->opts->f_comp(o->key, obj->key) == 0)
                 {
-                    rc = __o_overwrite(hmap, o, obj, old);
-                    dbg_err_if (rc && rc != U_HMAP_ERR_EXISTS);
-                    return rc;
+                    *dup = o;
+                    return U_HMAP_ERR_EXISTS;
                 }
             }
             break;
     }
 
-err:
     return U_HMAP_ERR_FAIL;
+}
 
-end:
+/* Remove an object from the hashmap array.  In linear probing no empty slot is
+ * left between any object and the position of its key, otherwise a later
+ * insertion would stop there and miss the object */
+static void __remove (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    u_hmap_o_t *o;
+    size_t hole, i, home, n = hmap->size;
 
-    if (hmap->sz >= hmap->opts->max &&
-            hmap->opts->policy != U_HMAP_PCY_NONE)
+    if (hmap->opts->type != U_HMAP_TYPE_LINEAR)
     {
-        u_dbg("Cache full - freeing according to policy '%s'",
-                __pcy2str(hmap->opts->policy));
-        dbg_err_if (hmap->pcy.pop(hmap, old));
+        LIST_REMOVE(obj, next);
+        return;
     }
 
-    if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
-        dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
-    hmap->sz++;
+    for (hole = __hash(hmap, obj->key); LIST_FIRST(&hmap->hmap[hole]) != obj; )
+        hole = (hole + 1) % n;
 
-    return U_HMAP_ERR_NONE;
+    LIST_REMOVE(obj, next);
+
+    for (i = (hole + 1) % n; (o = LIST_FIRST(&hmap->hmap[i])) != NULL;
+            i = (i + 1) % n)
+    {
+        home = __hash(hmap, o->key);
+
+        /* closer to home if moved to the hole */
+        if ((i + n - home) % n >= (i + n - hole) % n)
+        {
+            LIST_REMOVE(o, next);
+            LIST_INSERT_HEAD(&hmap->hmap[hole], o, next);
+            hole = i;
+        }
+    }
 }
 
 /**
@@ -850,7 +932,9 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
         return U_HMAP_ERR_FAIL;
 
     dbg_err_if (o == NULL);
-    LIST_REMOVE(o, next);
+    __remove(hmap, o);
+    if (o->pqe)
+        (void) __queue_del(hmap, o);
 
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
@@ -933,7 +1017,8 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
-    U_FREEF(obj, u_hmap_o_free);
+    if (obj)
+        __o_discard(hmap, obj);
 
     return NULL;
 }
@@ -1007,6 +1092,21 @@ static void __o_free (u_hmap_t *hmap, u_hmap_o_t *obj)
     u_hmap_o_free(obj);
 }
 
+/* Free a data object which did not make it into the map: what has been 
+ * internalised is released, user pointers aren't */
+static void __o_discard (u_hmap_t *hmap, u_hmap_o_t *obj)
+{
+    if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+    {
+        if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->key);
+        if (hmap->opts->val_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->val);
+    }
+
+    u_hmap_o_free(obj);
+}
+
 static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         u_hmap_o_t **old)
 {
@@ -1016,9 +1116,9 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     {
         if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         {
-            /* delete old object and enqueue new one */
-            dbg_err_if (__queue_del(hmap, o));
+            /* enqueue new object and delete old one */
             dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+            dbg_err_if (__queue_del(hmap, o));
         }
 
         /* replace object in hmap list */
@@ -1516,18 +1616,49 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
  */
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
 {
-    u_hmap_o_t *obj;
-    size_t i;
+    dbg_return_if (to == NULL, U_HMAP_ERR_FAIL);
+    dbg_return_if (from == NULL, U_HMAP_ERR_FAIL);
+    nop_return_if (to == from, U_HMAP_ERR_NONE);
 
-    dbg_err_if (to == NULL);
-    dbg_err_if (from == NULL);
+    return __copy(to, from, to);
+}
+
+/* Move all elements to another map, owner is the map they belong to afterwards.
+ * Elements refused because the key already exists are handled like in 
+ * u_hmap_put() */
+static int __copy (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner)
+{
+    u_hmap_o_t *obj, *dup;
+    u_hmap_q_t *q;
+    size_t i;
+    int rc;
 
     for (i = 0; i < from->size; ++i)
     {
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
-            LIST_REMOVE(obj, next);
-            dbg_err_if (u_hmap_put(to, obj, NULL));
+            __remove(from, obj);
+            q = obj->pqe;
+            obj->pqe = NULL;
+            obj->hmap = owner;
+
+            rc = u_hmap_put(to, obj, NULL);
+
+            if (rc && rc != U_HMAP_ERR_EXISTS)
+            {
+                /* put it back where it was */
+                (void) __insert(from, obj, &dup);
+                obj->pqe = q;
+                obj->hmap = from;
+                goto err;
+            }
+
+            if (q)
+            {
+                TAILQ_REMOVE(&from->pcy.queue, q, next);
+                __q_o_free(q);
+            }
+            from->sz--;
         }
     }
 
@@ -1550,17 +1681,7 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
     dbg_err_if (key == NULL);
     dbg_err_if (o == NULL);
 
-    hash = hmap->opts->f_hash(key, hmap->size);
-
-    if (hmap->opts->f_hash != &__f_hash &&
-            !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
-    {
-        enum { MAX_INT = 20 };
-        char h[MAX_INT];
-
-        u_snprintf(h, MAX_INT, "%u", hash);
-        hash = __f_hash(h, hmap->size);
-    }
+    hash = __hash(hmap, key);
 
     x = &hmap->hmap[hash];
 
@@ -1608,40 +1729,16 @@ err:
     return U_HMAP_ERR_FAIL;
 }
 
-/* pop the front of an object queue */
-static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
+/* element at the front of an object queue */
+static u_hmap_q_t *__queue_pop_front (u_hmap_t *hmap)
 {
-    u_hmap_q_t *first;
-
-    dbg_err_if (hmap == NULL);
-
-    dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
-    dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
-
-    return U_HMAP_ERR_NONE;
-err:
-    return U_HMAP_ERR_FAIL;
+    return TAILQ_FIRST(&hmap->pcy.queue);
 }
 
-/* pop the back of an object queue */
-static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
+/* element at the back of an object queue */
+static u_hmap_q_t *__queue_pop_back (u_hmap_t *hmap)
 {
-    u_hmap_q_t *last;
-
-    dbg_err_if (hmap == NULL);
-
-    dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
-            == NULL);
-    dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
-
-    return U_HMAP_ERR_NONE;
-
-err:
-    return U_HMAP_ERR_FAIL;
+    return TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s);
 }
 
 /* push object data onto queue */
@@ -1686,9 +1783,13 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
     if (*counts == NULL)
     {
         /* no reference to queue entry -> count == 0 */
-        dbg_err_if ((new = __q_o_new(obj)) == NULL);
-        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
         dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
+        if ((new = __q_o_new(obj)) == NULL)
+        {
+            u_free(count);
+            goto err;
+        }
+        TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
         new->data = (void *) count;
         *counts = new;
         /*
@@ -1910,9 +2011,8 @@ void u_hmap_dbg (u_hmap_t *hmap)
             else
             {
                 st = hmap->opts->f_str(obj);
-                dbg_err_if (u_string_append(s, u_string_c(st),
-                            u_string_len(st)-1));
-                u_string_free(st);
+                dbg_err_if (u_string_cat(s, u_string_c(st)));
+                u_string_free(st), st = NULL;
             }
         }
         u_dbg(u_string_c(s));
@@ -2086,13 +2186,13 @@ static int __resize(u_hmap_t *hmap)
             U_HMAP_RATE_RESIZE * newopts->size,
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
-    u_hmap_opts_free(newopts);
+    u_hmap_opts_free(newopts), newopts = NULL;
 
     /* remove any ownership from old map to copy elements */
     hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
 
     /* copy old elements to new map policy */
-    dbg_err_if (u_hmap_copy(newmap, hmap));
+    dbg_err_if (__copy(newmap, hmap, hmap));
 
     /* free old allocated objects */
     u_hmap_opts_free(hmap->opts);
@@ -2106,6 +2206,7 @@ static int __resize(u_hmap_t *hmap)
 
     return 0;
 err:
+    u_hmap_opts_free(newopts);
     return ~0;
 }
 
-- 
2.43.0


From 7e6ef5d0f5fd5a2a4bef774a0a87a244986ecb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 10/42] fix: json, lexer: over-long and partially valid tokens
 are refused, removal and encoding concern the given node only, index leaves
 no dangling references, trailing white space is not a character

---
 srcs/toolbox/json.c  | 244 ++++++++++++++++++++++++++-----------------
 srcs/toolbox/lexer.c |   6 +-
 2 files changed, 149 insertions(+), 101 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..88d240b 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -38,6 +38,9 @@ struct u_json_s
     u_hmap_t *map;              /* Alias reference to the global cache. */
 };
 
+/* Index being built. */
+typedef struct { u_hmap_t *map; int rc; } u_json_idx_t;
+
 /* Pointer to the name part of .fqn */
 #define U_JSON_OBJ_NAME(jo) \
         ((jo->parent != NULL) ? jo->fqn + strlen(p->fqn) : jo->fqn)
@@ -65,6 +68,9 @@ static int u_json_match_null_first (u_lexer_t *jl);
 static int u_json_match_null (u_lexer_t *jl, u_json_t *jo);
 static int u_json_match_string (u_lexer_t *jl, u_json_t *jo);
 static int u_json_match_string_first (u_lexer_t *jl);
+static int u_json_match_quoted (u_lexer_t *jl, char match[U_TOKEN_SZ]);
+static int u_json_get_token (u_lexer_t *jl, const char *start, 
+        char match[U_TOKEN_SZ]);
 static int u_json_match_escaped_unicode (u_lexer_t *jl);
 static int u_json_match_object (u_lexer_t *jl, u_json_t *jo);
 static int u_json_match_object_first (u_lexer_t *jl);
@@ -81,10 +87,11 @@ static const char *u_json_type_str (int type);
 /* Objects misc stuff. */
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
-static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_index (u_json_t *jo, size_t l, void *idx);
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
-static int u_json_do_encode (u_json_t *jo, u_string_t *s);
+static int u_json_do_encode (u_json_t *jo, u_json_t *parent, u_string_t *s);
 static int u_json_do_parse (const char *json, u_json_t **pjo, 
         char status[U_LEXER_ERR_SZ]);
 
@@ -389,6 +396,13 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
     dbg_return_if (val == NULL, ~0);
     /* Note that cached objects allow for value overwrite. */
 
+    /* No value other than strings and numbers, just ignore it. */
+    nop_return_if (jo->type != U_JSON_TYPE_STRING &&
+            jo->type != U_JSON_TYPE_NUMBER, 0);
+
+    /* Don't touch the current value if the new one doesn't fit. */
+    dbg_return_if (strlen(val) >= sizeof jo->val, ~0);
+
     if (check)
     {
         /* XXX The following declaration assumes C99 or C89+support of variable 
@@ -413,14 +427,14 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
             dbg_err_if (check && u_json_match_number(vl, NULL));
             break;
         default:
-            /* Non-critical error, just emit some debug info. */
-            goto end;
+            break;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    /* The whole value must have been consumed by its validator. */
+    dbg_err_if (check && !u_lexer_eot(vl));
+
+    (void) u_strlcpy(jo->val, val, sizeof jo->val);
 
-    /* Fall through. */       
-end:
     u_lexer_free(vl);
     return 0;
 err:
@@ -444,6 +458,7 @@ int u_json_set_key (u_json_t *jo, const char *key)
 {
     dbg_return_if (jo == NULL, ~0);
     dbg_return_ifm (jo->map, ~0, "Cannot set key of a cached object");
+    dbg_return_if (key && strlen(key) >= sizeof jo->key, ~0);
 
     dbg_return_if (u_strlcpy(jo->key, key ? key : "", sizeof jo->key), ~0);
 
@@ -481,6 +496,8 @@ int u_json_add (u_json_t *head, u_json_t *jo)
     dbg_return_if (!U_JSON_OBJ_IS_CONTAINER(head), ~0);
     dbg_return_ifm (head->map, ~0, "Cannot add new child to a cached object");
     dbg_return_if (jo == NULL, ~0);
+    dbg_return_ifm (jo->parent, ~0, "Already attached to a container");
+    dbg_return_ifm (jo->map, ~0, "Cannot attach a cached object");
 
 #ifdef U_JSON_OBJ_DEBUG
     u_con("chld (%p): %s {%s} added at depth %u", 
@@ -586,7 +603,7 @@ int u_json_encode (u_json_t *jo, char **ps)
     dbg_return_if (ps == NULL, ~0);
 
     dbg_err_if (u_string_create(NULL, 0, &s));
-    dbg_err_if (u_json_do_encode(jo, s));
+    dbg_err_if (u_json_do_encode(jo, NULL, s));
     *ps = u_string_detach_cstr(s);
 
     return 0;
@@ -613,6 +630,8 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *child, *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
@@ -622,11 +641,13 @@ void u_json_walk (u_json_t *jo, int strategy, size_t l,
     if (strategy == U_JSON_WALK_PREORDER && cb)
         cb(jo, l, cb_args);
 
-    /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
-
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+    /* When recurring into the children branch, increment depth by one.
+     * Note that the callback could dispose the child. */
+    for (child = TAILQ_FIRST(&jo->children); child != NULL; child = next)
+    {
+        next = TAILQ_NEXT(child, siblings);
+        u_json_walk(child, strategy, l + 1, cb, cb_args);
+    }
 
     if (strategy == U_JSON_WALK_POSTORDER && cb)
         cb(jo, l, cb_args);
@@ -669,9 +690,9 @@ void u_json_print (u_json_t *jo)
  */
 int u_json_index (u_json_t *jo)
 {
-    size_t u;   /* Unused. */
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
+    u_json_idx_t idx;
 
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map, 0);     /* If already cached, return ok. */
@@ -684,17 +705,16 @@ int u_json_index (u_json_t *jo)
     dbg_err_if (u_hmap_easy_new(opts, &hmap));
     u_hmap_opts_free(opts), opts = NULL;
 
-    /* Initialize array elems' indexing. */
-    jo->icur = 0;
+    idx.map = hmap;
+    idx.rc = 0;
 
     /* Walk the tree in pre-order and cache each node while we traverse. */
-    u_json_walk(jo, U_JSON_WALK_PREORDER, u, u_json_do_index, hmap);
-
-    /* Attach the associative array to the top level object. */
-    jo->map = hmap, hmap = NULL;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, &idx);
+    dbg_err_if (idx.rc);
 
     return 0;
 err:
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
     if (opts)
         u_hmap_opts_free(opts);
     if (hmap)
@@ -717,9 +737,12 @@ int u_json_unindex (u_json_t *jo)
 {
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map == NULL, 0);
+    dbg_return_if (jo->parent, ~0); /* Cache belongs to the top-obj. */
 
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+
+    /* No node must refer to the cache any more. */
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
 
     return 0;
 }
@@ -757,7 +780,7 @@ u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
 
     /* If 'name' is relative, we need to prefix it with the parent name 
      * space. */
-    dbg_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name));
+    dbg_return_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name), NULL);
 
     return (u_json_t *) u_hmap_easy_get(jo->map, fqn);
 }
@@ -783,23 +806,25 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
 {
     u_json_t *res;
 
-    dbg_return_if (U_JSON_OBJ_IS_CONTAINER(jo), ~0);
     dbg_return_if (type == U_JSON_TYPE_OBJECT || type == U_JSON_TYPE_ARRAY, ~0);
-    /* 'jo' and 'name' will be checked by u_json_cache_get(); 
-     * 'val' consistency is checked after type has been set. */
+    /* 'jo' and 'name' will be checked by u_json_cache_get(). */
 
     /* Retrieve the node. */
     dbg_err_if ((res = u_json_cache_get(jo, name)) == NULL);
+    dbg_err_if (U_JSON_OBJ_IS_CONTAINER(res));
 
-    /* First set type (in case !unknown) so that we know how to check the
-     * subsequent value setting. */
-    if (type != U_JSON_TYPE_UNKNOWN)
-        res->type = type;
+    if (type == U_JSON_TYPE_UNKNOWN)
+        type = res->type;
 
     /* Set value.  The caller must have supplied some non-NULL 'val' in case 
      * the final underlying type is a string or a number. */
-    if (res->type == U_JSON_TYPE_STRING || res->type == U_JSON_TYPE_NUMBER)
-        dbg_err_if (val == NULL || u_strlcpy(res->val, val, sizeof res->val));
+    if (type == U_JSON_TYPE_STRING || type == U_JSON_TYPE_NUMBER)
+    {
+        dbg_err_if (val == NULL || strlen(val) >= sizeof res->val);
+        (void) u_strlcpy(res->val, val, sizeof res->val);
+    }
+
+    res->type = type;
 
     return 0;
 err:
@@ -828,8 +853,12 @@ u_json_t *u_json_array_get_nth (u_json_t *jo, unsigned int n)
     if (jo->map)
     {
         char elem_fqn[U_JSON_FQN_SZ] = { '\0' };
-        dbg_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n));
-        return u_json_cache_get(jo, elem_fqn);
+        
+        /* Name could be too long, or not unique. */
+        if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n) == 0 &&
+                (elem = u_json_cache_get(jo, elem_fqn)) != NULL &&
+                elem->parent == jo)
+            return elem;
     }
     
     /* Too bad if we don't have cache in place: we have to go through the 
@@ -1134,13 +1163,13 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
  *  \}
  */ 
 
-static int u_json_do_encode (u_json_t *jo, u_string_t *s)
+/* The 'parent' is NULL when 'jo' is where the encoding has been started at. */
+static int u_json_do_encode (u_json_t *jo, u_json_t *parent, u_string_t *s)
 {
-    if (jo == NULL)
-        return 0;
+    u_json_t *child;
 
-    /* Optional key. */
-    if (strlen(jo->key))
+    /* Only the members of an object have a key. */
+    if (parent && parent->type == U_JSON_TYPE_OBJECT)
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
@@ -1172,7 +1201,8 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
     }
 
     /* Explore depth. */
-    dbg_err_if (u_json_do_encode(TAILQ_FIRST(&jo->children), s));
+    TAILQ_FOREACH (child, &jo->children, siblings)
+        dbg_err_if (u_json_do_encode(child, jo, s));
 
     /* Close matching paren. */
     switch (jo->type)
@@ -1188,12 +1218,9 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
     }
 
     /* When needed, add comma to separate siblings. */
-    if (TAILQ_NEXT(jo, siblings))
+    if (parent && TAILQ_NEXT(jo, siblings))
         dbg_err_if (u_string_aprintf(s, ", "));
 
-    /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
     return 0;
 err:
     return ~0;
@@ -1280,6 +1307,7 @@ static int u_json_match_string_first (u_lexer_t *jl)
 static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
 {
     char match[U_TOKEN_SZ];
+    const char *start = u_lexer_lookahead(jl);
 
     /* INT is mandatory */
     dbg_err_if (u_json_match_int(jl));
@@ -1292,13 +1320,8 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
     if (u_json_match_exp_first(u_lexer_peek(jl)))
         dbg_err_if (u_json_match_exp(jl));
 
-    /* Register right side of the matched number. */
-    u_lexer_record_rmatch(jl);
-
-    /* Take care of the fact that the match includes the first non-number char
-     * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
-    match[strlen(match) - 1] = '\0';
+    /* Pull out the number. */
+    dbg_err_if (u_json_get_token(jl, start, match));
 
     /* Push the matched number into the supplied json object. */
     if (jo)
@@ -1308,7 +1331,7 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
     }
 
 #ifdef U_JSON_LEX_DEBUG
-    u_con("matched number: %s", u_lexer_get_match(jl, match));
+    u_con("matched number: %s", match);
 #endif  /* U_JSON_LEX_DEBUG */
 
     return 0;
@@ -1418,7 +1441,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
 
     for (i = 0; i < rem_sz; i++)
     {
-        U_LEXER_SKIP(jl, &c);
+        U_LEXER_NEXT(jl, &c);
         if (c != *(rem + i))
         {
             U_LEXER_ERR(jl, "expect \'%c\', got %c at %s", 
@@ -1427,7 +1450,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
     }
 
     /* Consume last checked char. */
-    U_LEXER_SKIP(jl, NULL);
+    U_LEXER_NEXT(jl, NULL);
 
     if (jo)
         dbg_err_if (u_json_set_type(jo, type));
@@ -1565,7 +1588,11 @@ static int u_json_match_object (u_lexer_t *jl, u_json_t *jo)
         }
 
         /* Process assignement. */
-        dbg_err_if (!u_json_match_pair_first(jl) || u_json_match_pair(jl, jo));
+        if (!u_json_match_pair_first(jl))
+            U_LEXER_ERR(jl, "expect \", got %c at %s", 
+                    c, u_lexer_lookahead(jl));
+
+        dbg_err_if (u_json_match_pair(jl, jo));
 
         /* Consume trailing white spaces, if any. */
         if (isspace((int) u_lexer_peek(jl)))
@@ -1589,7 +1616,6 @@ err:
 
 static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
 {
-    size_t mlen;
     char c, match[U_TOKEN_SZ];
     u_json_t *pair = NULL;
 
@@ -1601,7 +1627,7 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
 
     /* Here we use the matched string as the 'key' for the associated value, 
      * hence there is no associated json object. */
-    dbg_err_if (u_json_match_string(jl, NULL));
+    dbg_err_if (u_json_match_quoted(jl, match));
 
     /* Initialize new json object to store the key/value pair. */
     if (jo)
@@ -1610,12 +1636,6 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_depth(pair, jo->depth + 1));
     }
 
-    (void) u_lexer_get_match(jl, match);
-
-    /* Trim trailing '"'. */
-    if ((mlen = strlen(match)) >= 1)
-        match[mlen - 1] = '\0';
-
     if (jo)
         dbg_err_if (u_json_set_key(pair, match));
 
@@ -1650,13 +1670,31 @@ err:
 
 static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
 {
-    size_t mlen;
-    char c, match[U_TOKEN_SZ];
+    char match[U_TOKEN_SZ];
 
-    /* In case string is matched as an lval (i.e. the key side of a 'pair'),
-     * there is no json object. */
     dbg_return_if (jl == NULL, ~0);
 
+    dbg_err_if (u_json_match_quoted(jl, match));
+
+    /* In case the string is matched as an rval, the caller shall
+     * supply the json object that has to be set. */
+    if (jo)
+    {
+        dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
+        dbg_err_if (u_json_set_val(jo, match));
+    }
+
+    return 0;
+err:
+    return ~0;
+}
+
+/* Match a string and copy out its contents. */
+static int u_json_match_quoted (u_lexer_t *jl, char match[U_TOKEN_SZ])
+{
+    char c;
+    const char *start;
+
 #ifdef U_JSON_LEX_DEBUG
     u_con("STRING");
 #endif  /* U_JSON_LEX_DEBUG */
@@ -1666,8 +1704,8 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
 
     U_LEXER_NEXT(jl, &c);
 
-    /* Re-record the left side match pointer (trim leading '"'). */
-    u_lexer_record_lmatch(jl);
+    /* Trim leading '"'. */
+    start = u_lexer_lookahead(jl);
 
     while (c != '"')
     {
@@ -1693,33 +1731,31 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
             U_LEXER_NEXT(jl, &c);
     }
 
-    /* Record right match pointer.
-     * This is a greedy match, which includes the trailing '"', and must
-     * be taken into account when pulling out the string. */
-    u_lexer_record_rmatch(jl);
+    dbg_err_if (u_json_get_token(jl, start, match));
 
     /* Consume last '"'. */
     U_LEXER_NEXT(jl, &c);
 
 #ifdef U_JSON_LEX_DEBUG
-    u_con("matched string: \'%s\'", u_lexer_get_match(jl, match));
+    u_con("matched string: \'%s\'", match);
 #endif  /* U_JSON_LEX_DEBUG */
 
-    /* In case the string is matched as an rval, the caller shall
-     * supply the json object that has to be set. */
-    if (jo)
-    {
-        dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
+    return 0;
+err:
+    return ~0;
+}
 
-        /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
+/* Copy out what is between 'start' and the actual lexer position (excluded). */
+static int u_json_get_token (u_lexer_t *jl, const char *start, 
+        char match[U_TOKEN_SZ])
+{
+    size_t len = (size_t) (u_lexer_lookahead(jl) - start);
 
-        /* Trim trailing '"'. */
-        if ((mlen = strlen(match)) >= 1)
-            match[mlen - 1] = '\0';
+    if (len >= U_TOKEN_SZ)
+        U_LEXER_ERR(jl, "token too long (max is %u)", U_TOKEN_SZ - 1);
 
-        dbg_err_if (u_json_set_val(jo, match));
-    }
+    memcpy(match, start, len);
+    match[len] = '\0';
 
     return 0;
 err:
@@ -1792,13 +1828,26 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
     return;
 }
 
-static void u_json_do_index (u_json_t *jo, size_t l, void *map)
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
 {
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
+static void u_json_do_index (u_json_t *jo, size_t l, void *opaque)
+{
+    int rc = 0;
     u_json_t *p;
-    u_hmap_t *hmap = (u_hmap_t *) map;
+    u_json_idx_t *idx = (u_json_idx_t *) opaque;
 
     u_unused_args(l);
 
+    /* Initialize array elems' indexing. */
+    jo->icur = 0;
+
     if ((p = jo->parent) == NULL)
     {
         /* Root node is named '.', its name and fully qualified name match. */
@@ -1807,30 +1856,28 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     else if (p->type == U_JSON_TYPE_OBJECT)
     {
         /* Nodes in object containers are named after their key. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key));
+        rc = u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key);
     }
     else if (p->type == U_JSON_TYPE_ARRAY)
     {
         /* Nodes in array containers are named after their ordinal position. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur));
+        rc = u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur);
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
-
-        /* In case we have an array inside another array, initialize the 
-         * counter for later recursive invocation. */
-        if (jo->type == U_JSON_TYPE_ARRAY)
-            jo->icur = 0;
     }
     else
         u_warn("Expecting an object, an array, or a top-level node.");
 
-    /* Insert node into the hmap. */
-    dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+    /* Insert node into the hmap, unless its name (hence the name of all its 
+     * descendants) is too long.  In case of duplicates the first one wins. */
+    if (rc == 0 && u_hmap_easy_put(idx->map, jo->fqn, 
+                (const void *) jo) == U_HMAP_ERR_FAIL)
+        idx->rc = ~0;
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-    jo->map = map;
+    jo->map = idx->map;
 
 #ifdef U_JSON_IDX_DEBUG
     u_con("%p => %s (%s) = %s", jo, jo->fqn, U_JSON_OBJ_NAME(jo), jo->val);
@@ -1938,7 +1985,8 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
 err:
     /* Copy out the lexer error string (if requested). */
     if (status)
-        (void) u_strlcpy(status, u_lexer_geterr(jl), U_LEXER_ERR_SZ);
+        (void) u_strlcpy(status, jl ? u_lexer_geterr(jl) : "no memory", 
+                U_LEXER_ERR_SZ);
 
     u_lexer_free(jl);
     u_json_free(jo);
diff --git a/srcs/toolbox/lexer.c b/srcs/toolbox/lexer.c
index 0203dfc..0d5bdfb 100644
--- a/srcs/toolbox/lexer.c
+++ b/srcs/toolbox/lexer.c
@@ -194,10 +194,10 @@ int u_lexer_eat_ws (u_lexer_t *l)
     dbg_return_if (u_lexer_eot(l), -1);
 
     while (isspace((int) l->s[l->pos]))
-    {
-        dbg_return_if (u_lexer_eot(l), -1);
         u_lexer_incr(l);
-    }
+
+    /* Nothing but white spaces left. */
+    dbg_return_if (u_lexer_eot(l), -1);
 
     return 0;
 }
-- 
2.43.0


From 79ba37f82f30d87053c97e78d7aaa728d0457a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 11/42] fix: json: keep the children counter when an object is
 turned into an array

---
 srcs/toolbox/json.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 88d240b..9b58cab 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -509,9 +509,8 @@ int u_json_add (u_json_t *head, u_json_t *jo)
     TAILQ_INSERT_TAIL(&head->children, jo, siblings);
     jo->parent = head;
 
-    /* Adjust children counter for array-type parents. */
-    if (head->type == U_JSON_TYPE_ARRAY)
-        head->count += 1;
+    /* Adjust children counter (an object could be turned into an array). */
+    head->count += 1;
 
     return 0;
 }
@@ -1026,9 +1025,8 @@ int u_json_remove (u_json_t *jo)
 
     if ((p = jo->parent))
     {            
-        /* Fix counters when parent is an array. */
-        if (p->type == U_JSON_TYPE_ARRAY)
-            p->count -= 1;
+        /* Fix counters. */
+        p->count -= 1;
 
         /* Evict from the parent container. */
         TAILQ_REMOVE(&p->children, jo, siblings);
-- 
2.43.0


From d5d64a6f513ea3eeeaef80edc000ae2439f4a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 12/42] fix: misc: number conversions depend on the text only,
 empty files can be loaded, pid file write errors are reported, u_tokenize
 stays within one-slot vectors, long sleeps

---
 srcs/toolbox/misc.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index ebf8d1d..956efe3 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -430,12 +430,15 @@ err:
 int u_savepid (const char *pf)
 {
     FILE *pfp = NULL;
+    int rc;
 
     dbg_return_if (pf == NULL, ~0);
 
     dbg_err_sif ((pfp = fopen(pf, "w")) == NULL);
-    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) == 0);
-    fclose(pfp);
+    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) < 0);
+    rc = fclose(pfp);
+    pfp = NULL;
+    dbg_err_sif (rc != 0);  /* buffered data could not be written out */
 
     return 0;
 err:
@@ -542,8 +545,8 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
     sz = sb.st_size;
     dbg_err_ifm (sz_max > 0 && sz > sz_max, 
             "file too big (%zu vs %zu bytes)", sz, sz_max);
-    dbg_err_sif ((buf = u_zalloc(sz)) == NULL);
-    dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    dbg_err_sif ((buf = u_zalloc(sz ? sz : 1)) == NULL);
+    dbg_err_sifm (sz > 0 && fread(buf, sz, 1, fp) != 1, "%s", path);
     
     U_FCLOSE(fp);
     
@@ -688,7 +691,7 @@ int u_sleep(unsigned int secs)
 #ifdef OS_WIN
     Sleep(secs * 1000);
 #else
-    int sleep_for, c;
+    unsigned int sleep_for, c;
 
     for (sleep_for = secs; sleep_for > 0; sleep_for = c)
     {
@@ -724,6 +727,8 @@ int u_atol (const char *nptr, long *pl)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
  
+    errno = 0;  /* don't be fooled by an old error */
+
     tmp = strtol(nptr, &endptr, 10);
     
     dbg_err_sif (tmp == 0 && errno == EINVAL);
@@ -798,15 +803,26 @@ err:
 int u_atoumax (const char *nptr, uintmax_t *pumax)
 {
     uintmax_t tmp; 
+    char *endptr;
     int saved_errno = errno;
 
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
  
-    tmp = strtoumax(nptr, (char **) NULL, 10);
+    errno = 0;  /* don't be fooled by an old error */
+
+    tmp = strtoumax(nptr, &endptr, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
     dbg_err_if (tmp == UINTMAX_MAX && errno == ERANGE);
+
+    /* no valid digit string was supplied */
+    dbg_err_ifm (nptr == endptr, "invalid base10 string: %s", nptr);
+
+    /* strtoumax(3) silently turns a negative number into a positive one */
+    while (isspace((unsigned char) *nptr))
+        ++nptr;
+    dbg_err_ifm (*nptr == '-' && tmp != 0, "negative value: %s", nptr);
         
     *pumax = tmp;
     
@@ -906,15 +922,14 @@ int u_tokenize (char *wlist, const char *delim, char **tokv, size_t tokv_sz)
 
     ap = tokv;
 
-    for ( ; (*ap = strsep(&wlist, delim)) != NULL; )
+    /* check bounds, and always leave room for the stopper */
+    while (ap < &tokv[tokv_sz - 1] && (*ap = strsep(&wlist, delim)) != NULL)
     {
         /* skip empty field */
         if (**ap == '\0')
             continue;
 
-        /* check bounds */
-        if (++ap >= &tokv[tokv_sz - 1])
-            break;
+        ++ap;
     }
 
     /* put an explicit stopper to tokv */
-- 
2.43.0


From ae8023c256d0097e9a9dedd04a90f21009e0ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 13/42] fix: misc, buf: don't take a special file which has no
 size for an empty one

---
 srcs/toolbox/buf.c  | 2 ++
 srcs/toolbox/misc.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index ff155ad..a44cd6d 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -126,6 +126,8 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
      * data is preserved in case anything goes wrong */
     dbg_err_sif ((nbuf = u_malloc(st.st_size + 1)) == NULL);
     dbg_err_if (st.st_size > 0 && fread(nbuf, st.st_size, 1, fp) != 1);
+    /* make sure it's really empty (special files have no size) */
+    dbg_err_if (st.st_size == 0 && (fgetc(fp) != EOF || ferror(fp)));
     nbuf[st.st_size] = '\0';
 
     (void) fclose(fp);
diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 956efe3..2dc7d11 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -547,6 +547,8 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
             "file too big (%zu vs %zu bytes)", sz, sz_max);
     dbg_err_sif ((buf = u_zalloc(sz ? sz : 1)) == NULL);
     dbg_err_sifm (sz > 0 && fread(buf, sz, 1, fp) != 1, "%s", path);
+    /* make sure it's really empty (special files have no size) */
+    dbg_err_ifm (sz == 0 && (fgetc(fp) != EOF || ferror(fp)), "%s", path);
     
     U_FCLOSE(fp);
     
-- 
2.43.0


From d0d4dd4c7f4f4a05ced95f52ecdcd2f2fafa007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 14/42] fix: b64: refuse malformed text, don't index the
 decoding table with negative values, don't write past an exactly sized output

---
 srcs/toolbox/b64.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index fb4246f..38088ac 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -36,7 +36,7 @@ static const size_t D[256] = {
 static inline size_t val (int c);
 static inline int is_base64 (int c);
 static inline void chunk_encode (uint8_t in[3], char out[4], int len);
-static inline void chunk_decode (char in[4], uint8_t out[3]);
+static inline void chunk_decode (char in[4], uint8_t *out, size_t len);
 
 /**
     \defgroup b64 Base64 codec
@@ -124,13 +124,16 @@ int u_b64_encode (const uint8_t *in, size_t in_sz, char *out, size_t out_sz)
 int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
-    size_t i, len, pad, tot_sz = *out_sz;
+    size_t i, len, pad, tot_sz;
     uint8_t *pout;
 
     dbg_return_if (in == NULL, ~0);
     dbg_return_if (in_sz == 0, ~0);
     dbg_return_if (out == NULL, ~0);
     dbg_return_if (out_sz == NULL, ~0);
+    dbg_return_if (in_sz % 4, ~0);
+
+    tot_sz = *out_sz;
 
     for (pout = out; in_sz; )
     {
@@ -141,8 +144,13 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
                 buf[i] = *in++;
 
                 if (buf[i] == '=')
+                {
+                    /* At most two, at the very end. */
+                    if (i < 2 || in_sz >= 4)
+                        return ~0;
                     ++pad;
-                else if (!is_base64(buf[i]))    
+                }
+                else if (pad || !is_base64(buf[i]))
                     return ~0;
 
                 ++len;
@@ -157,7 +165,7 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
             if (tot_sz >= nlen)
             {
-                chunk_decode(buf, pout);
+                chunk_decode(buf, pout, nlen);
                 tot_sz -= nlen; /* Take care of subtracting pad bytes. */
                 pout += nlen;
             } 
@@ -177,12 +185,12 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
 static inline int is_base64 (int c) 
 {
-    return D[c];
+    return D[(unsigned char) c];
 }
 
 static inline size_t val (int c) 
 {
-    return (D[c] - 1);
+    return (D[(unsigned char) c] - 1);
 }
 
 static inline void chunk_encode (uint8_t in[3], char out[4], int len)
@@ -193,10 +201,12 @@ static inline void chunk_encode (uint8_t in[3], char out[4], int len)
     out[3] = len > 2 ? E[in[2] & 0x3f] : '=';
 }
 
-static inline void chunk_decode (char in[4], uint8_t out[3])
+static inline void chunk_decode (char in[4], uint8_t *out, size_t len)
 {   
     out[0] = (val(in[0]) << 2) | (val(in[1]) >> 4);
-    out[1] = ((val(in[1]) & 0x0f) << 4) | (val(in[2]) >> 2);
-    out[2] = ((val(in[2]) & 0x03) << 6) | val(in[3]);
+    if (len > 1)
+        out[1] = ((val(in[1]) & 0x0f) << 4) | (val(in[2]) >> 2);
+    if (len > 2)
+        out[2] = ((val(in[2]) & 0x03) << 6) | val(in[3]);
 }
 
-- 
2.43.0


From 0439c8805e9f6eb29219dfbc9771f84ddd38eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 15/42] fix: uri: refuse over-long and partially parsed texts,
 userinfo only within the authority, single-slash paths, exact authority and
 recomposition

---
 srcs/toolbox/uri.c | 259 +++++++++++++++++++++++++++------------------
 1 file changed, 157 insertions(+), 102 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..dd7a5e3 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -19,7 +19,9 @@ struct u_uri_s
     char scheme[U_TOKEN_SZ];
     char userinfo[U_TOKEN_SZ];
     char user[U_TOKEN_SZ], pwd[U_TOKEN_SZ];
-    char authority[U_TOKEN_SZ];
+    char authority[4 * U_TOKEN_SZ]; /* [ userinfo "@" ] host [ ":" port ] */
+    int has_authority;  /* "//" was found by the parser. */
+    int cooked;         /* Authority comes from the parser. */
     char host[U_TOKEN_SZ];
     char port[U_TOKEN_SZ];
     char path[U_TOKEN_SZ];
@@ -37,7 +39,6 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u);
 static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u);
 static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u);
 static int u_uri_parse_ipliteral (u_lexer_t *l);
-static int u_uri_parse_ipv4address (u_lexer_t *l);
 static int u_uri_parse_regname (u_lexer_t *l);
 static int u_uri_expect_colon (u_lexer_t *l);
 static int u_uri_expect_pct_encoded (u_lexer_t *l);
@@ -47,7 +48,6 @@ static int u_uri_query_first (u_lexer_t *l);
 static int u_uri_fragment_first (u_lexer_t *l);
 static int u_uri_path_first (u_lexer_t *l);
 static int u_uri_ipliteral_first (u_lexer_t *l);
-static int u_uri_ipv4address_first (u_lexer_t *l);
 static int u_uri_regname_first (u_lexer_t *l);
 static int u_uri_port_first (u_lexer_t *l);
 static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u);
@@ -56,6 +56,7 @@ static int u_uri_match_pchar_minus_at_sign (u_lexer_t *l);
 static int u_uri_match_ups (u_lexer_t *l);
 static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ]);
 static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX]);
+static int u_uri_is_ipv4address (const char *s);
 static int u_uri_crumble_user_password (u_uri_t *u);
 
 /**
@@ -151,6 +152,8 @@ err:
  */ 
 int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
 {
+    int has_authority = 1;
+
     dbg_return_if (u == NULL, ~0);
     dbg_return_if (s == NULL, ~0);
 
@@ -169,8 +172,24 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
         dbg_err_if (u_strlcat(s, u->authority, U_URI_STRMAX));
     }
-    else /* try recompose authority through its atoms */
+    else if (strlen(u->host) || strlen(u->userinfo) || strlen(u->user) ||
+            strlen(u->pwd) || strlen(u->port))
+    {
+        /* try recompose authority through its atoms */
         dbg_err_if (u_uri_knead_authority(u, s));
+    }
+    else if (u->has_authority || !strncmp(u->path, "//", strlen("//")))
+    {
+        /* empty authority */
+        dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
+        has_authority = 1;
+    }
+    else
+        has_authority = 0;
+
+    /* a path following an authority component is either empty or absolute */
+    if (has_authority && strlen(u->path) && u->path[0] != '/')
+        dbg_err_if (u_strlcat(s, "/", U_URI_STRMAX));
 
     dbg_err_if (u_strlcat(s, u->path, U_URI_STRMAX));
 
@@ -304,8 +323,8 @@ int u_uri_is_absolute(const char *uri)
 
     /* hier-part is implicitly checked by u_uri_crumble(). */
 
-    /* fragment is not allowed. */
-    dbg_err_if ((p = u_uri_get_fragment(u)) != NULL && *p != '\0');
+    /* fragment (even if empty) is not allowed. */
+    dbg_err_if (strchr(uri, '#') != NULL);
 
     u_uri_free(u);
 
@@ -316,7 +335,30 @@ err:
     return 0;
 }
 
-#define U_URI_GETSET_F(field)                                       \
+/* The parsed authority is superseded as soon as one of its atoms is set. */
+static void u_uri_atom (u_uri_t *u)
+{
+    if (u->cooked)
+        u->authority[0] = '\0';
+    u->cooked = 0;
+}
+
+/* What the parser knew about the host does not apply to the new one. */
+static void u_uri_newhost (u_uri_t *u)
+{
+    u->flags = U_URI_FLAGS_NONE;
+    u_uri_atom(u);
+}
+
+/* Authority supplied by the user. */
+static void u_uri_auth (u_uri_t *u)
+{
+    u->cooked = u->has_authority = 0;
+}
+
+static void u_uri_other (u_uri_t *u) { u_unused_args(u); }
+
+#define U_URI_GETSET_F(field, touched)                              \
 const char *u_uri_get_##field (u_uri_t *uri)                        \
 {                                                                   \
     dbg_return_if (uri == NULL, NULL);                              \
@@ -328,23 +370,27 @@ int u_uri_set_##field (u_uri_t *uri, const char *val)               \
     dbg_return_if (uri == NULL, ~0);                                \
     dbg_return_if (val == NULL, ~0);                                \
                                                                     \
+    /* don't touch the current value if the new one doesn't fit */  \
+    dbg_err_if (strlen(val) >= sizeof uri->field);                  \
     dbg_err_if (u_strlcpy(uri->field, val, sizeof uri->field));     \
                                                                     \
+    u_uri_##touched(uri);                                           \
+                                                                    \
     return 0;                                                       \
 err:                                                                \
     return ~0;                                                      \
 }
 
-U_URI_GETSET_F(scheme)
-U_URI_GETSET_F(userinfo)
-U_URI_GETSET_F(user)
-U_URI_GETSET_F(pwd)
-U_URI_GETSET_F(host)
-U_URI_GETSET_F(port)
-U_URI_GETSET_F(authority)
-U_URI_GETSET_F(path)
-U_URI_GETSET_F(query)
-U_URI_GETSET_F(fragment)
+U_URI_GETSET_F(scheme, other)
+U_URI_GETSET_F(userinfo, atom)
+U_URI_GETSET_F(user, atom)
+U_URI_GETSET_F(pwd, atom)
+U_URI_GETSET_F(host, newhost)
+U_URI_GETSET_F(port, atom)
+U_URI_GETSET_F(authority, auth)
+U_URI_GETSET_F(path, other)
+U_URI_GETSET_F(query, other)
+U_URI_GETSET_F(fragment, other)
 
 u_uri_flags_t u_uri_get_flags (u_uri_t *uri) { return uri->flags; }
 
@@ -375,6 +421,10 @@ static int u_uri_parser (u_lexer_t *l, u_uri_opts_t opts, u_uri_t **pu)
     if (u_uri_fragment_first(l))
         warn_err_if (u_uri_parse_fragment(l, u));
 
+    /* Nothing must be left over. */
+    if (!u_lexer_eot(l))
+        U_LEXER_ERR(l, "Unexpected \'%c\'.", u_lexer_peek(l));
+
     *pu = u;
 
     return 0;
@@ -403,10 +453,10 @@ static int u_uri_port_first (u_lexer_t *l)
     return (u_lexer_peek(l) == ':');
 }
 
-/* Check for both absolute and rootless paths. */
+/* Check for both absolute and rootless paths.  Don't consume anything. */
 static int u_uri_path_first (u_lexer_t *l)
 {
-    return (u_lexer_peek(l) == '/' || u_uri_match_pchar(l));
+    return !(u_lexer_eot(l) || u_uri_query_first(l) || u_uri_fragment_first(l));
 }
 
 /* scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ) */
@@ -426,8 +476,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
-    u->scheme[strlen(u->scheme) - 1] = '\0';
+    warn_err_if (u_uri_adjust_greedy_match(l, u->scheme));
 
     return 0;
 err:
@@ -438,6 +487,7 @@ err:
 static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
 {
     char c, i = 0;
+    const char *begin, *p;
 
     /* Consume "//". */
     do {
@@ -446,8 +496,11 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, NULL);
     } while (++i < 2);
 
-    /* [userinfo "@"] */
-    if (strchr(u_lexer_lookahead(l), '@'))
+    u->has_authority = 1;
+    begin = u_lexer_lookahead(l);
+
+    /* [userinfo "@"]  The '@' must belong to the authority component. */
+    if ((p = strpbrk(begin, "@/?#")) != NULL && *p == '@')
         warn_err_if (u_uri_parse_userinfo(l, u));
     warn_err_if (u_uri_parse_host(l, u));
 
@@ -455,6 +508,13 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
     if (u_uri_port_first(l))
         warn_err_if (u_uri_parse_port(l, u));
 
+    /* Save the whole authority. */
+    p = u_lexer_lookahead(l);
+    warn_err_if ((size_t) (p - begin) >= sizeof u->authority);
+    memcpy(u->authority, begin, p - begin);
+    u->authority[p - begin] = '\0';
+    u->cooked = 1;
+
     /* path-abempty */
     warn_err_if (u_uri_parse_abempty(l, u));
 
@@ -481,7 +541,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -493,12 +553,8 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
     /* u_uri_parse_ipliteral() will override this. */
     u_lexer_record_lmatch(l);
 
-    if (u_uri_ipv4address_first(l))
-    {
-        warn_err_if (u_uri_parse_ipv4address(l));
-        u->flags |= U_URI_FLAGS_HOST_IS_IPADDRESS;
-    }
-    else if (u_uri_regname_first(l))
+    /* IPv4 addresses are a subset of reg-name's. */
+    if (u_uri_regname_first(l))
         warn_err_if (u_uri_parse_regname(l));
     else if (u_uri_ipliteral_first(l))
     {
@@ -512,7 +568,11 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
+
+    if (u_uri_is_ipv4address(u->host) && 
+            !(u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL))
+        u->flags |= U_URI_FLAGS_HOST_IS_IPADDRESS;
 
     return 0;
 err:
@@ -526,7 +586,7 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    dbg_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
     if (!u_lexer_eot(l))
@@ -561,8 +621,12 @@ static int u_uri_parse_ipliteral (u_lexer_t *l)
     U_LEXER_NEXT(l, &c);
     u_lexer_record_lmatch(l);
 
-    while (u_uri_match_pchar(l) && c != ']')
-        U_LEXER_NEXT(l, &c);
+    /* At least one char is needed. */
+    if (c == ']')
+        U_LEXER_ERR(l, "Empty IP literal.");
+
+    while (u_uri_match_pchar(l))
+        U_LEXER_NEXT(l, NULL);
 
     /* We need to reach here with lexer cursor over the ']' char. */
     if ((c = u_lexer_peek(l)) != ']')
@@ -576,22 +640,29 @@ err:
     return ~0;
 }
 
-static int u_uri_ipv4address_first (u_lexer_t *l)
+/* dec-octet "." dec-octet "." dec-octet "." dec-octet */
+static int u_uri_is_ipv4address (const char *s)
 {
-    return (isdigit(u_lexer_peek(l)));
-}
+    int i, n, ndigits;
 
-static int u_uri_parse_ipv4address (u_lexer_t *l)
-{
-    char c;
+    for (i = 0; i < 4; i++)
+    {
+        if (i && *s++ != '.')
+            return 0;
 
-    do {
-        U_LEXER_NEXT(l, &c); 
-    } while (isdigit(c) || c == '.');
+        for (n = ndigits = 0; isdigit((int) *s) && ndigits < 4; ndigits++)
+        {
+            /* No leading zeros. */
+            if (ndigits && n == 0)
+                return 0;
+            n = n * 10 + (*s++ - '0');
+        }
 
-    return 0;
-err:
-    return ~0;
+        if (ndigits == 0 || n > 255)
+            return 0;
+    }
+
+    return (*s == '\0');
 }
 
 static int u_uri_regname_first (u_lexer_t *l)
@@ -616,15 +687,14 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    do {
-        U_LEXER_NEXT(l, &c);
-    } while (u_uri_match_pchar_minus_at_sign(l));
+    while (u_uri_match_pchar_minus_at_sign(l))
+        U_LEXER_NEXT(l, NULL);
 
-    if (u_lexer_peek(l) != '@')
+    if ((c = u_lexer_peek(l)) != '@')
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -639,46 +709,23 @@ err:
     return ~0;
 }
 
-/* TODO: refine ! */
+/* Split userinfo at its first ':' (if any). */
 static int u_uri_crumble_user_password (u_uri_t *u)
 {
-    char c;
-    u_lexer_t *l = NULL;
+    size_t ulen = strcspn(u->userinfo, ":");
 
     dbg_return_if (!strlen(u->userinfo), ~0);
 
-    /* Create a disposable lexer. */
-    dbg_err_if (u_lexer_new(u->userinfo, &l));
-
     /* User name. */
-    u_lexer_record_lmatch(l);
-
-    /* Assume there is at least one char available. */
-    do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
-
-    u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
-
-    /* Check if we've exhausted the userinfo string. */
-    nop_goto_if (u_lexer_eot(l), end);
-
-    /* Skip ':'. */
-    U_LEXER_NEXT(l, NULL);
+    memcpy(u->user, u->userinfo, ulen);
+    u->user[ulen] = '\0';
 
     /* Password. */
-    u_lexer_record_lmatch(l);
+    if (u->userinfo[ulen] == ':')
+        dbg_return_if (u_strlcpy(u->pwd, u->userinfo + ulen + 1, 
+                    sizeof u->pwd), ~0);
 
-    do u_lexer_next(l, &c); while (!u_lexer_eot(l));
-
-    u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
-
-end:
-    u_lexer_free(l);
     return 0;
-err:
-    u_lexer_free(l);
-    return ~0;
 }
 
 static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
@@ -686,27 +733,35 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
     return ~0;
 }
 
-/* ['/'] segment-nz path-abempty 
+/* "/" [ segment-nz path-abempty ] / segment-nz path-abempty 
  * Absorbs both rootless and absolute paths. */
 static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
 {
     u_lexer_record_lmatch(l);
 
     if (u_lexer_peek(l) == '/')
+    {
         U_LEXER_NEXT(l, NULL);
-    
+
+        /* Could be "/" alone. */
+        if (!u_uri_path_first(l))
+            goto end;
+    }
+
     warn_err_if (u_uri_expect_segment_nz(l));
     warn_err_if (u_uri_expect_path_abempty(l));
 
+end:
+
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -745,7 +800,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -768,7 +823,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->fragment));
 
     return 0;
 err:
@@ -827,20 +882,18 @@ static int u_uri_match_pchar_minus_at_sign (u_lexer_t *l)
     }
 }
 
+/* On success the cursor is left on the last hex digit, on failure it's not
+ * moved. */
 static int u_uri_expect_pct_encoded (u_lexer_t *l)
 {
-    char i, c;
+    int i;
+    const char *p = u_lexer_lookahead(l);
 
-    if (u_lexer_peek(l) != '%')
-        U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", c);
+    if (p[0] != '%' || !isxdigit((int) p[1]) || !isxdigit((int) p[2]))
+        U_LEXER_ERR(l, "Bad percent encoding.");
 
     for (i = 0; i < 2; i++)
-    {
-        U_LEXER_NEXT(l, &c);
-
-        if (!isxdigit((int) c))
-            U_LEXER_ERR(l, "Non hex digit \'%c\' in percent encoding.", c);
-    }
+        U_LEXER_NEXT(l, NULL);
 
     return 0;
 err:
@@ -886,14 +939,16 @@ static int u_uri_expect_path_abempty (u_lexer_t *l)
 
 static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
 {
+    int ipliteral;
+
     dbg_return_if (u == NULL, ~0);
     dbg_return_if (strlen(u->host) == 0, ~0);
     dbg_return_if (s == NULL, ~0);
 
-    /* If host is IPv6 literal, automatically add the IPLITERAL flag.
+    /* If host is IPv6 literal, automatically add the square brackets.
      * XXX Lousy test, we'd better parse it through u_uri_parse_ipliteral() */
-    if (strchr(u->host, ':'))
-        u->flags |= U_URI_FLAGS_HOST_IS_IPLITERAL;
+    ipliteral = (u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL) || 
+        strchr(u->host, ':');
 
     dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
 
@@ -902,7 +957,7 @@ static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, u->userinfo, U_URI_STRMAX));
         dbg_err_if (u_strlcat(s, "@", U_URI_STRMAX));
     }
-    else if (strlen(u->user))
+    else if (strlen(u->user) || strlen(u->pwd))
     {
         dbg_err_if (u_strlcat(s, u->user, U_URI_STRMAX)); 
 
@@ -915,12 +970,12 @@ static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, "@", U_URI_STRMAX));
     }
 
-    if (u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL)
+    if (ipliteral)
         dbg_err_if (u_strlcat(s, "[", U_URI_STRMAX));
 
     dbg_err_if (u_strlcat(s, u->host, U_URI_STRMAX));
 
-    if (u->flags & U_URI_FLAGS_HOST_IS_IPLITERAL)
+    if (ipliteral)
         dbg_err_if (u_strlcat(s, "]", U_URI_STRMAX));
 
     if (strlen(u->port))
-- 
2.43.0


From 081a3bf1d88476559f706ba6dc1219db7a81be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:23 +0000
Subject: [PATCH 16/42] fix: config: a failed set leaves the tree as it was,
 dotted lookups honour n

---
 srcs/toolbox/config.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..9520986 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -324,6 +324,7 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    u_config_free(child);
     return ~0;
 }
 
@@ -406,7 +407,7 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         }
 
         if (child != NULL)
-            return u_config_get_subkey(child, ++p, pc);
+            return u_config_get_subkey_nth(child, ++p, n, pc);
     }
 
     return ~0; /* not found */
@@ -445,17 +446,11 @@ int u_config_set_value (u_config_t *c, const char *val)
 {
     u_config_t *root, *ignore;
     const char *varval, *vs, *ve, *p;
+    char *nval = NULL;
     u_string_t *var = NULL, *value = NULL;
 
     dbg_err_if(c == NULL);
 
-    /* free() previous value if any */
-    if(c->value)
-    {
-        U_FREE(c->value);
-        c->value = NULL;
-    } 
-
     if(val)
     {
         dbg_err_if(u_string_create(NULL, 0, &var));
@@ -482,7 +477,7 @@ int u_config_set_value (u_config_t *c, const char *val)
 
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
-            root = c->parent;
+            root = c->parent ? c->parent : c;
             if(u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
@@ -497,13 +492,17 @@ int u_config_set_value (u_config_t *c, const char *val)
 
         u_string_trim(value); /* remove leading and trailing spaces */
 
-        c->value = u_strdup(u_string_c(value));;
-        dbg_err_if(c->value == NULL);
+        nval = u_strdup(u_string_c(value));
+        dbg_err_if(nval == NULL);
 
         u_string_free(value);
         u_string_free(var);
     }
 
+    /* free() previous value if any */
+    U_FREE(c->value);
+    c->value = nval;
+
     return 0;
 err:
     if(value)
@@ -1046,15 +1045,16 @@ static u_config_t *u_config_get_root (u_config_t *c)
 static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
-    u_config_t *child = NULL;
-    char *p, *child_key;
+    u_config_t *child = NULL, *added = NULL;
+    char *p, *child_key = NULL;
 
     if((p = strchr(key, '.')) == NULL)
     {
         child = u_config_get_child(c, key);
         if(child == NULL || !overwrite)
         {   /* there's no such child, add a new child */
-            dbg_err_if(u_config_add_child(c, key, &child));
+            dbg_err_if(u_config_add_child(c, key, &added));
+            child = added;
         } 
         dbg_err_if(u_config_set_value(child, val));
 
@@ -1065,15 +1065,23 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         child_key = u_strndup(key, p-key);
         dbg_err_if(child_key == NULL);
         if((child = u_config_get_child(c, child_key)) == NULL)
-            dbg_err_if(u_config_add_child(c, child_key, &child));
+        {
+            dbg_err_if(u_config_add_child(c, child_key, &added));
+            child = added;
+        }
         U_FREE(child_key);
-        return u_config_do_set_key(child, ++p, val, overwrite, NULL);
+        dbg_err_if(u_config_do_set_key(child, ++p, val, overwrite, pchild));
     }
     return 0;
 err:
+    U_FREE(child_key);
+    /* undo */
+    if(added)
+        (void) u_config_del_child(c, added);
     return ~0;
 }
 
+/* 0: got a line, 1: eof, ~0: error */
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
 {
     enum { BUFSZ = 1024 };
-- 
2.43.0


From e3a5045c236c2458a23acc05aad4db58bd00dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 17/42] fix: config: refuse unmatched braces and include
 cycles, load every line, close each source once

---
 srcs/toolbox/config.c | 121 +++++++++++++++++++++++++++++++-----------
 1 file changed, 89 insertions(+), 32 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 9520986..6ecc0d5 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -38,6 +38,13 @@ struct u_config_buf_s
     size_t len;
 };
 
+/* a configuration source which is being loaded, linked to its includer */
+struct u_config_src_s
+{
+    const char *uri;            /* NULL when unknown */
+    struct u_config_src_s *up;
+};
+
 /* file system pre-defined driver */
 extern u_config_driver_t u_config_drv_fs;
 
@@ -46,13 +53,14 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        void *arg, int overwrite, struct u_config_src_s *src, int section);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite);
+        u_config_t *inckey, int overwrite, struct u_config_src_s *src);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
 static int u_config_remove_comment(u_string_t *line);
+static int u_config_is_include (const char *key);
 
 
 /**
@@ -567,8 +575,9 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
         int overwrite)
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
+    struct u_config_src_s src = { NULL, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, &src, 0));
 
     return 0;
 err:
@@ -594,12 +603,17 @@ err:
 int u_config_load (u_config_t *c, int fd, int overwrite)
 {
     FILE *file = NULL;
+    struct u_config_src_s src = { NULL, NULL };
 
     /* must dup because fclose() calls close(2) on fd */
     file = fdopen(dup(fd), "r");
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 
+                &src, 0));
+
+    /* not everything could be read */
+    dbg_err_sif(ferror(file));
 
     fclose(file);
 
@@ -887,6 +901,8 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
 {
     u_config_t *c = NULL;
     void *arg = NULL;
+    int rc, opened = 0;
+    struct u_config_src_s src = { uri, NULL };
 
     dbg_err_if (uri == NULL);
     dbg_err_if (pc == NULL);
@@ -897,18 +913,23 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     dbg_err_if (u_config_create(&c));
 
     if(drv->open)
+    {
         dbg_err_if (drv->open(uri, &arg));
+        opened = 1;
+    }
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, &src, 0));
 
-    if(drv->close)
-        dbg_err_if (drv->close(arg));
+    /* whatever the outcome don't close it again */
+    rc = (opened && drv->close) ? drv->close(arg) : 0;
+    opened = 0;
+    dbg_err_if (rc);
 
     *pc = c;
 
     return 0;
 err:
-    if(arg && drv->close)
+    if(opened && drv->close)
         drv->close(arg);
     if(c)
         u_config_free(c);
@@ -984,11 +1005,12 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 {
     u_config_driver_t drv = { NULL, NULL, u_config_buf_gets, NULL };
     struct u_config_buf_s arg = { buf, len };
+    struct u_config_src_s src = { NULL, NULL };
     u_config_t *c = NULL;
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, &src, 0));
 
     *pc = c;
 
@@ -1095,24 +1117,25 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         len = strlen(buf);
         if(len == 0)
             break; /* empty line */
+        if(buf[len - 1] != '\n')
+        {   /* line's longer the bufsz (or eof);get next line chunk */
+            dbg_err_if(u_string_append(ln, buf, len));
+            continue;
+        }
         dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
-            break;
+        break;
     }
 
-    nop_err_if(p == NULL); /* eof */
-
-    return 0;
+    /* eof (the last line may be unterminated) */
+    return (p == NULL && u_string_len(ln) == 0) ? 1 : 0;
 err:
     return ~0;
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        void *arg, int overwrite, struct u_config_src_s *src, int section)
 {
-    enum { MAX_NEST_LEV = 20 };
+    int rc, closed = 0;
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
@@ -1127,7 +1150,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(; (rc = cs_getline(drv->gets, arg, line)) == 0; 
+            u_string_clear(line), ++lineno)
     {
         dbg_err_if (u_config_remove_comment(line));
 
@@ -1163,16 +1187,17 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, src, 1));
 
             dbg_err_if(u_string_clear(lastkey));
 
             continue;
         } else if(ln[0] == '}') {
-            crit_err_ifm(c->parent == NULL,"config error: unmatched '}'");
+            crit_err_ifm(!section,"config error: unmatched '}'");
             if(!u_isblank_str(++ln))
                 dbg_err("config error [line %d]: { or } must be the "
                          "only not-blank char in a line", lineno);
+            closed = 1;
             break; /* exit */
         }
 
@@ -1186,8 +1211,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
         dbg_err_if(u_string_set(value, p, strlen(p)));
         dbg_err_if(u_string_trim(value));
 
-        if(!strcmp(u_string_c(key), "include") ||     /* forced dependency */
-                !strcmp(u_string_c(key), "-include")) /* optional dependency */
+        /* forced or optional dependency */
+        if(u_config_is_include(u_string_c(key)))
         {
             crit_err_ifm(u_string_len(value) == 0, "missing include filename");
 
@@ -1197,9 +1222,12 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
             /* load the included file */
             if (u_string_c(key)[0] == '-')  /* failure is not critical */
-                dbg_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_if(u_config_include(c, drv, subkey, overwrite, src));
             else                            /* failure is critical */
-                dbg_err_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite, src));
+
+            dbg_err_if(u_string_clear(lastkey));
+            continue;
         } 
 
         /* if the valus is empty an open bracket will follow, save the key */
@@ -1214,7 +1242,13 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_c(key), 
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
+
+        /* an open bracket can't follow */
+        dbg_err_if(u_string_clear(lastkey));
     }
+
+    dbg_err_if(rc < 0);
+    crit_err_ifm(section && !closed, "config error: unmatched '{'");
     
     u_string_free(lastkey);
     u_string_free(value);
@@ -1235,10 +1269,12 @@ err:
 }
 
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite)
+        u_config_t *inckey, int overwrite, struct u_config_src_s *up)
 {
+    enum { MAX_NEST_LEV = 20 };
     u_config_t *subkey;
-    int i;
+    int rc, i, opened = 0;
+    struct u_config_src_s *u, src;
     const char *p, *path;
     void *arg = NULL;
     char uri[U_FILENAME_MAX + 1];
@@ -1250,7 +1286,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 
     for(i = 0; u_config_get_subkey_nth(c, "include", i, &subkey) == 0; ++i)
     {
-        if(subkey != inckey && !strcmp(path, u_config_get_value(subkey)))
+        if(subkey != inckey && subkey->value && !strcmp(path, subkey->value))
             crit_err("circular dependency error loading %s", path);
     }
 
@@ -1270,20 +1306,35 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         p = uri;
     } 
 
+    /* a source can't be included while it is being loaded */
+    for(i = 0, u = up; u != NULL; u = u->up, ++i)
+    {
+        crit_err_ifm (u->uri && !strcmp(u->uri, p),
+            "circular dependency error loading %s", p);
+        crit_err_ifm (i == MAX_NEST_LEV,
+            "too many nested include's loading %s", p);
+    }
+    src.uri = p, src.up = up;
+
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
+    opened = 1;
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, &src, 0));
 
     if(drv->close)
-        crit_err_ifm (drv->close(arg),
-            "unable to close input file: %s", p);
+    {
+        /* whatever the outcome don't close it again */
+        rc = drv->close(arg);
+        opened = 0;
+        crit_err_ifm (rc, "unable to close input file: %s", p);
+    }
     else
         u_warn("the 'close' driver callback is not defined, not closing...");
 
     return 0;
 err:
-    if(arg && drv->close)
+    if(opened && drv->close)
         drv->close(arg);
     return ~0;
 }
@@ -1321,6 +1372,12 @@ err:
     return ~0;
 }
 
+/* include directives */
+static int u_config_is_include (const char *key)
+{
+    return (!strcmp(key, "include") || !strcmp(key, "-include"));
+}
+
 static char *u_config_buf_gets (void *arg, char *buf, size_t size)
 {
     struct u_config_buf_s *g = (struct u_config_buf_s*)arg;
-- 
2.43.0


From 069c0afcd8c5fc3f418688666143342a4bc2f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 18/42] fix: config: escape hash signs and leave out optional
 includes when saving

---
 srcs/toolbox/config.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 6ecc0d5..cbd5824 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -248,17 +248,22 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
     do { int i; for(i = 1; i < l; ++i) fputs("\t", fp); } while (0);
 
     u_config_t *item;
+    const char *p;
 
     U_CONFIG_INDENT(fp, lev);
 
     /* "include" directives are skipped since that wouldn't give semantical 
      * equivalence to the dumped object (included key/val's are already 
      * there) */
-    if (c->key && strcmp(c->key, "include"))
+    if (c->key && !u_config_is_include(c->key))
     {
         fprintf(fp, "%s", c->key);
         if (c->value != NULL) 
-            fprintf(fp, "\t%s", c->value);
+        {
+            fputs("\t", fp);
+            for (p = c->value; *p != '\0'; ++p)
+                fprintf(fp, *p == '#' ? "\\%c" : "%c", *p);
+        }
         fputs("\n", fp);
     }
 
@@ -1348,23 +1353,40 @@ static void u_config_del_key (u_config_t *c, u_config_t *child)
 static int u_config_to_str (u_config_t *c, u_string_t *s)
 {
     u_config_t *item;
+    const char *v;
+    size_t n;
 
     dbg_err_if(c == NULL);
     dbg_err_if(s == NULL);
 
-    if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+    if(c->key && !u_config_is_include(c->key))
+    {
+        dbg_err_if(u_string_aprintf(s, "%s ", c->key));
+
+        /* hash signs must be escaped */
+        for(v = c->value ? c->value : ""; *v != '\0'; v += n)
+        {
+            if((n = strcspn(v, "#")) == 0)
+            {
+                n = 1;
+                dbg_err_if(u_string_append(s, "\\", 1));
+            }
+            dbg_err_if(u_string_append(s, v, n));
+        }
+
+        dbg_err_if(u_string_append(s, "\n", 1));
+    }
     
     if(u_config_has_children(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "{\n"));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "}\n"));
     }
 
     return 0;
-- 
2.43.0


From 913c51fcdf00c50121eb6b4f555ff6fd86f8de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 19/42] fix: config: report read errors of the file system
 driver

---
 srcs/toolbox/config_fs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config_fs.c b/srcs/toolbox/config_fs.c
index fbd5d06..0db7497 100644
--- a/srcs/toolbox/config_fs.c
+++ b/srcs/toolbox/config_fs.c
@@ -48,15 +48,18 @@ err:
 
 static int drv_fs_close (void *arg)
 {
-    int rc;
+    int rc, err;
     FILE *file = (FILE *) arg;
 
     dbg_return_if (file == NULL, ~0);
 
+    /* in case of read errors not everything has been handed out */
+    err = ferror(file);
+
     if ((rc = fclose(file)) != 0)
         dbg_strerror(errno);
 
-    return (rc == 0) ? 0 : ~0;
+    return (rc == 0 && !err) ? 0 : ~0;
 }
 
 static char *drv_fs_gets (void *arg, char *buf, size_t size)
-- 
2.43.0


From c26055acf5c80866f50790ad6e1011a12070bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 20/42] fix: config: escape hash signs in the keys too when
 saving

---
 srcs/toolbox/config.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index cbd5824..7c2a8af 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -61,6 +61,7 @@ static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
 static int u_config_remove_comment(u_string_t *line);
 static int u_config_is_include (const char *key);
+static int u_config_escape (const char *v, u_string_t *s);
 
 
 /**
@@ -257,7 +258,8 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
      * there) */
     if (c->key && !u_config_is_include(c->key))
     {
-        fprintf(fp, "%s", c->key);
+        for (p = c->key; *p != '\0'; ++p)
+            fprintf(fp, *p == '#' ? "\\%c" : "%c", *p);
         if (c->value != NULL) 
         {
             fputs("\t", fp);
@@ -1353,27 +1355,15 @@ static void u_config_del_key (u_config_t *c, u_config_t *child)
 static int u_config_to_str (u_config_t *c, u_string_t *s)
 {
     u_config_t *item;
-    const char *v;
-    size_t n;
 
     dbg_err_if(c == NULL);
     dbg_err_if(s == NULL);
 
     if(c->key && !u_config_is_include(c->key))
     {
-        dbg_err_if(u_string_aprintf(s, "%s ", c->key));
-
-        /* hash signs must be escaped */
-        for(v = c->value ? c->value : ""; *v != '\0'; v += n)
-        {
-            if((n = strcspn(v, "#")) == 0)
-            {
-                n = 1;
-                dbg_err_if(u_string_append(s, "\\", 1));
-            }
-            dbg_err_if(u_string_append(s, v, n));
-        }
-
+        dbg_err_if(u_config_escape(c->key, s));
+        dbg_err_if(u_string_append(s, " ", 1));
+        dbg_err_if(u_config_escape(c->value ? c->value : "", s));
         dbg_err_if(u_string_append(s, "\n", 1));
     }
     
@@ -1394,6 +1384,26 @@ err:
     return ~0;
 }
 
+/* append 'v' to 's' escaping hash signs */
+static int u_config_escape (const char *v, u_string_t *s)
+{
+    size_t n;
+
+    for(; *v != '\0'; v += n)
+    {
+        if((n = strcspn(v, "#")) == 0)
+        {
+            n = 1;
+            dbg_err_if(u_string_append(s, "\\", 1));
+        }
+        dbg_err_if(u_string_append(s, v, n));
+    }
+
+    return 0;
+err:
+    return ~0;
+}
+
 /* include directives */
 static int u_config_is_include (const char *key)
 {
-- 
2.43.0


From 09c66a4f3759e9b7ebda07cf4ad113c1c1de3182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 21/42] fix: env: load settings of any length from any file
 name, report a failing settings file

---
 srcs/toolbox/env.c | 64 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index d95236b..7ca6414 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -12,6 +12,8 @@
 #include <toolbox/env.h>
 #include <toolbox/carpal.h>
 #include <toolbox/misc.h>
+#include <toolbox/str.h>
+#include <toolbox/memory.h>
 
 /**
     \defgroup env Environment
@@ -88,7 +90,11 @@ int u_env_init (const char *prefix, const char *cfile)
 {
     enum { BUFSZ = 1024 };
     struct stat sb;
-    char line[BUFSZ], pcmd[BUFSZ], *val;
+    int rc;
+    size_t len;
+    char buf[BUFSZ], *name, *val;
+    const char *p;
+    u_string_t *line = NULL, *pcmd = NULL;
     FILE *pi = NULL;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
@@ -96,27 +102,61 @@ int u_env_init (const char *prefix, const char *cfile)
     /* if 'cfile' does not exist bail out */
     dbg_err_sifm (stat(cfile, &sb) == -1, "%s", cfile);
 
-    dbg_err_if (u_snprintf(pcmd, BUFSZ, ". %s 2>/dev/null && env", cfile));
+    dbg_err_if (u_string_create(NULL, 0, &pcmd));
+    dbg_err_if (u_string_create(NULL, 0, &line));
 
-    dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
+    /* quote the file name and don't let the shell search the PATH for it */
+    dbg_err_if (u_string_sprintf(pcmd, ". %s'", 
+                strchr(cfile, '/') ? "" : "./"));
+    for (p = cfile; *p != '\0'; ++p)
+    {
+        if (*p == '\'')
+            dbg_err_if (u_string_cat(pcmd, "'\\''"));
+        else
+            dbg_err_if (u_string_append(pcmd, p, 1));
+    }
+    dbg_err_if (u_string_cat(pcmd, "' 2>/dev/null && env"));
 
-    while(fgets(line, BUFSZ-1, pi))
+    dbg_err_if ((pi = popen(u_string_c(pcmd), "r")) == NULL);
+
+    while(fgets(buf, sizeof buf, pi))
     {
-        if(strncmp(line, prefix, strlen(prefix)) == 0)
+        len = strlen(buf);
+        dbg_err_if (u_string_append(line, buf, len));
+        if(len && buf[len - 1] != '\n')
+            continue;   /* there's more on this line */
+
+        dbg_err_if ((name = u_strdup(u_string_c(line))) == NULL);
+        dbg_err_if (u_string_clear(line));
+
+        name[strlen(name)-1] = 0;
+        if((val = strchr(name, '=')) != NULL)
         {
-            line[strlen(line)-1] = 0;
-            val = strchr(line, '=');
-            if(!val)
-                continue; /* should never happen... */
             *val++ = 0;
-            /* line is the name and val the value */
-            dbg_err_if(setenv(line, val, 1));
+            if(strncmp(name, prefix, strlen(prefix)) == 0 &&
+                    setenv(name, val, 1))
+            {
+                u_free(name);
+                dbg_err("unable to set an environment variable");
+            }
         }
+        u_free(name);
     }
 
-    pclose(pi);
+    /* the file could not be evaluated */
+    rc = pclose(pi);
+    pi = NULL;
+    dbg_err_ifm (rc != 0, "%s", cfile);
+
+    u_string_free(line);
+    u_string_free(pcmd);
+
     return 0;
 err:
+    if(line)
+        u_string_free(line);
+    if(pcmd)
+        u_string_free(pcmd);
     U_PCLOSE(pi);
     return ~0;
 }
-- 
2.43.0


From e9b9a4c57660df21865731cb5be5f16be4dff01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:20 +0000
Subject: [PATCH 22/42] fix: fs: never copy a file onto itself, notice read
 errors and short writes, report a source that could not be removed

---
 srcs/toolbox/fs.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..5370dc8 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -35,7 +35,9 @@
 int u_copy (const char *src, const char *dst)
 {
     FILE *sfp = NULL, *dfp = NULL;
+    int rc;
     size_t c;
+    struct stat ss, ds;
     char buf[4096];
 
     dbg_return_if (src == NULL, ~0);
@@ -44,17 +46,26 @@ int u_copy (const char *src, const char *dst)
     sfp = fopen(src, "rb");
     dbg_err_sifm(sfp == NULL, "unable to open %s for reading", src);
 
+    /* opening the destination would wipe the source off */
+    dbg_err_sif(fstat(fileno(sfp), &ss) == -1);
+    dbg_err_ifm(stat(dst, &ds) == 0 && ss.st_dev == ds.st_dev &&
+            ss.st_ino == ds.st_ino, "%s and %s are the same file", src, dst);
+
     dfp = fopen(dst, "wb+");
     dbg_err_sifm(dfp == NULL, "unable to open %s for writing", dst);
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
+
+    rc = fclose(sfp); sfp = NULL;
+    dbg_err_sif(rc);
 
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    rc = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(rc, "error flushing %s", dst);
 
     return 0;
 err:
@@ -94,7 +105,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src) < 0);
 
     return 0;
 err:
-- 
2.43.0


From 54c265d51e7ac084f9eb8d216e9cd3d1f3f56e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 23/42] fix: pwd: room for the terminator of a password hash

---
 srcs/toolbox/pwd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..f187951 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -257,8 +257,9 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     /* hash if requested, otherwise do cleartext cmp */
     if (pwd->cb_hash)
     {
-        /* create a buffer that fits the specific hash function */
-        dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
+        /* create a buffer that fits the specific hash function (it will be
+         * NUL-terminated even if the hash function isn't that kind) */
+        dbg_err_if ((__p = u_zalloc(pwd->hash_len + 1)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
     }
     else
-- 
2.43.0


From 93eff853653cccd2a2bee83f7e6f5b97a7177da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 24/42] fix: pwd: keep the old snapshot when reloading fails,
 load without a notification callback

---
 srcs/toolbox/pwd.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index f187951..0024028 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -426,19 +426,27 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old_db;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
-    
+    /* keep the old snapshot until the new one is complete */
+    old_db = pwd->db;
+    pwd->db = NULL;
+
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old_db)
+        u_hmap_easy_free(old_db);
+
     return 0;
 err:
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old_db;
     return ~0;
 }
 
@@ -604,21 +612,28 @@ err:
 
 static int u_pwd_need_reload (u_pwd_t *pwd)
 {
-    time_t update_timestamp;
+    time_t update_timestamp = pwd->last_mod;
 
     /* if needed parameters are not set return immediately (no error) */
     nop_return_if (!pwd->in_memory, 0);
-    nop_return_if (pwd->cb_notify == NULL, 0);
 
-    /* in case no update has been notified return */
-    if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
-        return 0;
+    /* in case no update has been notified return (unless db has never been
+     * loaded) */
+    if (pwd->cb_notify == NULL ||
+            !pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
+    {
+        nop_return_if (pwd->db, 0);
+    }
+
+    /* reload db to memory */
+    dbg_err_if (u_pwd_load(pwd));
 
-    /* update notified: set .last_mod */
+    /* update notified: set .last_mod (on error we'll try again) */
     pwd->last_mod = update_timestamp;
-    
-    /* reload db to memory */
-    return u_pwd_load(pwd);
+
+    return 0;
+err:
+    return ~0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
-- 
2.43.0


From c6e107594b670fdb3730bb89d0ec7158ac5fa7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 25/42] fix: pwd: refuse malformed and over-long lines as
 records, match whole user names, records in memory are disposed once

---
 srcs/toolbox/pwd.c | 213 ++++++++++++++++++++++++---------------------
 1 file changed, 116 insertions(+), 97 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 0024028..98894c5 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -15,6 +15,8 @@ static int u_pwd_db_term (u_pwd_t *pwd);
 static int u_pwd_db_load (u_pwd_t *pwd);
 static int u_pwd_db_push (u_pwd_t *pwd, u_pwd_rec_t *rec);
 static void __hmap_pwd_rec_free (void *val);  /* hook hmap free */
+static void u_pwd_rec_dispose (u_pwd_rec_t *rec);
+static int u_pwd_rec_parse (char *ln, u_pwd_rec_t **prec);
 
 /* misc */
 static int u_pwd_load (u_pwd_t *pwd);
@@ -31,6 +33,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
 /* res ops */
 static int u_pwd_res_open (u_pwd_t *pwd);
 static void u_pwd_res_close (u_pwd_t *pwd);
+static int u_pwd_res_getln (u_pwd_t *pwd, char *ln, size_t ln_sz, size_t *plc);
 
 /* file specialization */
 static int __file_open (const char *path, void **pfp);
@@ -336,8 +339,9 @@ int u_pwd_init_file (const char *res_uri, u_pwd_hash_cb_t cb_hash,
  *  \brief  Dispose a ::u_pwd_rec_t object 
  *
  *  Dispose the supplied ::u_pwd_rec_t object \p rec.  It MUST be called
- *  on ::u_pwd_rec_t records returned from ::u_pwd_retr when using "in memory" 
- *  pwd instances (for non "in memory" pwd's the function is a NOP)
+ *  on ::u_pwd_rec_t records returned from ::u_pwd_retr when using non "in 
+ *  memory" pwd instances (for "in memory" pwd's, which own their records, the 
+ *  function is a NOP)
  *
  *  \param  pwd     the pwd instance which owns \p rec
  *  \param  rec     the pwd_rec record to be disposed
@@ -349,11 +353,10 @@ void u_pwd_rec_free (u_pwd_t *pwd, u_pwd_rec_t *rec)
     dbg_return_if (pwd == NULL, );
     dbg_return_if (rec == NULL, );
 
-    U_FREE(rec->user);
-    U_FREE(rec->pass);
-    U_FREE(rec->opaque);
+    /* the snapshot owns its records */
+    nop_return_if (pwd->in_memory, );
 
-    u_free(rec);
+    u_pwd_rec_dispose(rec);
 
     return;
 }
@@ -453,9 +456,8 @@ err:
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
-    size_t lc, got_it = 0, ntoks;
-    char ln[U_PWD_LINE_MAX], uu[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* expected line fmt is: "name:password[:opaque]\n" */
+    size_t lc = 0;
+    char ln[U_PWD_LINE_MAX];
     u_pwd_rec_t *rec = NULL;
 
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -465,44 +467,26 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    /* do suitable search string for strstr(3) */
-    u_snprintf(uu, sizeof uu, "%s:", user);
-    
-    /* read line by line */
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    /* read line by line: as with the in-memory version, the first good entry
+     * is taken in case an user has more than one */
+    while (u_pwd_res_getln(pwd, ln, sizeof ln, &lc) == 0)
     {
-        /* skip comments */
-        if (ln[0] == '#')
+        if (u_pwd_rec_parse(ln, &rec))
+        {
+            u_info("bad entry at line %zu", lc);
             continue;
+        }
 
-        /* check if we're on user line, in case break the read loop... 
-         * this is different from using the in-memory version in case an 
-         * entry is duplicated: in-memory matches the last entry, here
-         * we would get the first one */
-        if (strstr(ln, uu) == ln)
-        {
-            got_it = 1;
+        /* comments give no record */
+        if (rec && !strcmp(rec->user, user))
             break;
-        }
+
+        if (rec)
+            u_pwd_rec_dispose(rec), rec = NULL;
     }
 
     /* check if we've reached here due to simple loop exhaustion */
-    dbg_err_ifm (!got_it, "user %s not found", user);
-
-    /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
-
-    /* tokenize line: expect at least 2 fields: user and password */
-    dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
-            "bad syntax at line %zu (%s)", lc, ln);
-
-    /* create new record */
-    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                &rec));
-
-    /* dispose u_strtok rubbish */
-    u_strtok_cleanup(toks, ntoks);
+    dbg_err_ifm (rec == NULL, "user %s not found", user);
 
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
@@ -512,12 +496,6 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
 
     return 0;
 err:
-    if (rec)
-        u_pwd_rec_free(pwd, rec);
-
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
-
     u_pwd_res_close(pwd);
 
     return ~0;
@@ -538,14 +516,87 @@ static int u_pwd_res_open (u_pwd_t *pwd)
 static void u_pwd_res_close (u_pwd_t *pwd)
 {
     nop_return_if (pwd->res_handler == NULL, );
-    nop_return_if (pwd->cb_close == NULL, );
 
-    pwd->cb_close(pwd->res_handler);
+    if (pwd->cb_close)
+        pwd->cb_close(pwd->res_handler);
+
     pwd->res_handler = NULL;
     
     return;
 }
 
+/* get next line, without its terminator: lines which don't fit are skipped as
+ * a whole */
+static int u_pwd_res_getln (u_pwd_t *pwd, char *ln, size_t ln_sz, size_t *plc)
+{
+    size_t len;
+    int more = 0;
+
+    while (pwd->cb_load(ln, (int) ln_sz, pwd->res_handler) != NULL)
+    {
+        len = strlen(ln);
+
+        if (!more)
+            ++*plc;
+
+        if (len > 0 && ln[len - 1] == '\n')
+        {
+            ln[len - 1] = '\0';
+
+            if (!more)
+                return 0;
+
+            more = 0;   /* tail of a line which does not fit */
+        }
+        else if (len + 1 >= ln_sz)
+        {
+            if (!more)
+                u_info("line %zu is too long", *plc);
+
+            more = 1;
+        }
+        else if (!more) /* last line, or loader which strips terminators */
+            return 0;
+        else
+            more = 0;
+    }
+
+    return ~0;
+}
+
+/* tokenize line, expecting at least two (non empty) fields: user and password,
+ * and create the corresponding record (NULL in case of comment) */
+static int u_pwd_rec_parse (char *ln, u_pwd_rec_t **prec)
+{
+    char *user, *pass, *opaque;
+
+    *prec = NULL;
+
+    /* skip comment lines */
+    if (ln[0] == '#')
+        return 0;
+
+    user = strsep(&ln, ":");
+    pass = strsep(&ln, ":");
+    opaque = strsep(&ln, ":");
+
+    dbg_return_if (*user == '\0' || pass == NULL || *pass == '\0', ~0);
+
+    return u_pwd_rec_new(user, pass, 
+            (opaque == NULL || *opaque == '\0') ? NULL : opaque, prec);
+}
+
+static void u_pwd_rec_dispose (u_pwd_rec_t *rec)
+{
+    U_FREE(rec->user);
+    U_FREE(rec->pass);
+    U_FREE(rec->opaque);
+
+    u_free(rec);
+
+    return;
+}
+
 static int u_pwd_rec_new (const char *user, const char *pass, 
         const char *opaque, u_pwd_rec_t **prec)
 {
@@ -666,9 +717,8 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
-    size_t lc, ntoks;
+    size_t lc = 0;
     char ln[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
     u_pwd_rec_t *rec = NULL;
     
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -678,64 +728,37 @@ static int u_pwd_db_load (u_pwd_t *pwd)
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    while (u_pwd_res_getln(pwd, ln, sizeof ln, &lc) == 0)
     {
-        /* cleanup strtok rubbish from the previous loop */
-        if (toks)
+        /* create u_pwd_rec_t from line */
+        dbg_ifb (u_pwd_rec_parse(ln, &rec))
         {
-            u_strtok_cleanup(toks, ntoks);
-            toks = NULL;
-        }
-
-        /* skip comment lines */
-        if (ln[0] == '#')
-            continue;
-
-        /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
-
-        /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
-        {
-            u_info("bad syntax at line %zu (%s)", lc, ln);
+            u_info("could not create record for entry at line %zu", lc);
             continue;
         }
 
-        /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
-        {
-            u_info("could not create record for entry at line %zu", lc);
+        if (rec == NULL)
             continue;
-        }
 
         /* push rec to db */
-        dbg_ifb (u_pwd_db_push(pwd, rec))
+        switch (u_pwd_db_push(pwd, rec))
         {
-            u_info("could not push record for entry at line %zu", lc);
-            u_pwd_rec_free(pwd, rec), rec = NULL;
+            case U_HMAP_ERR_NONE:
+                break;
+            case U_HMAP_ERR_EXISTS: /* the map has already disposed it */
+                u_info("duplicate entry at line %zu", lc);
+                break;
+            default:
+                u_info("could not push record for entry at line %zu", lc);
+                u_pwd_rec_dispose(rec);
+                break;
         }
-
-        rec = NULL;
     }
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
-    if (rec)
-        u_pwd_rec_free(pwd, rec);
-
     u_pwd_res_close(pwd);
 
     return 0;
 err:
-    if (rec)
-        u_pwd_rec_free(pwd, rec);
-
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
     u_pwd_res_close(pwd);
 
     return ~0;
@@ -801,11 +824,7 @@ err:
 /* hmap glue */
 static void __hmap_pwd_rec_free (void *val)
 {
-    u_pwd_t fake_pwd;
-
-    fake_pwd.in_memory = 1;
-
-    u_pwd_rec_free(&fake_pwd, (u_pwd_rec_t *) val);
+    u_pwd_rec_dispose((u_pwd_rec_t *) val);
 
     return;
 }
-- 
2.43.0


From 15d2eeced832d89f7d5ba701c1505b2f8b9a8104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 26/42] fix: log: report messages that were not delivered,
 never deliver a cut one

---
 srcs/toolbox/log.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..62ee763 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -99,6 +99,7 @@ static inline const char* u_log_label(int lev)
 static int u_log(int fac, int level, const char *fmt, ...)
 {
     va_list ap;
+    int rc;
     char buf[U_MAX_LOG_LENGTH];
 
     va_start(ap, fmt); 
@@ -107,7 +108,8 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
@@ -157,8 +159,8 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
-        goto err; /* message too long */
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
+        goto err; /* bad message or message too long */
 
     /* init empty strings */
     errmsg[0] = strerr[0] = 0;
@@ -172,12 +174,15 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
 
     /* ok, send the msg to the logger */
     if(flags & LOG_WRITE_FLAG_CTX)
-        u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
                u_log_label(lev), getpid(), file, line, func, msg, errmsg);
     else
-        u_log(fac, lev, "[%s][%d:::] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:::] %s %s", 
                u_log_label(lev), getpid(), msg, errmsg);
 
+    if(rc)
+        goto err; /* not delivered */
+
     restore_errno(savederr);
     return 0;
 err:
-- 
2.43.0


From 86019e1b039b2fb8047a3a10366d4008269c537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 27/42] fix: net: no double free on resolver failure, no
 undefined SCTP events, bounded UNIX names, -1 for a missing address,
 can_accept before first use

---
 srcs/toolbox/net.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..488ee5f 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -277,7 +277,7 @@ err:
  */ 
 int u_net_sd_by_addr_ex (u_net_addr_t *a, struct timeval *timeout)
 {
-    dbg_return_if (a == NULL, ~1);
+    dbg_return_if (a == NULL, -1);
 
     switch (a->mode)
     {
@@ -360,10 +360,15 @@ int u_net_sd (const char *uri, u_net_mode_t mode, int opts)
  */
 int u_net_addr_can_accept (u_net_addr_t *a)
 {
+    u_addrinfo_t *ai;
+
     dbg_return_if (a == NULL, 0);
-    dbg_return_if (a->cur == NULL, 0);
 
-    switch (a->cur->ai_socktype)
+    /* before any socket has been created, consider the first choice */
+    ai = a->cur ? a->cur : a->addr;
+    dbg_return_if (ai == NULL, 0);
+
+    switch (ai->ai_socktype)
     {
         case SOCK_STREAM:
         case SOCK_SEQPACKET:
@@ -794,7 +799,10 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         case AF_UNIX:
         {
             const struct sockaddr_un *su = (const struct sockaddr_un *) sa;
-            dbg_if (u_strlcpy(d, su->sun_path, dlen));
+            /* 'sun_path' may not be NUL-terminated */
+            memcpy(a, su->sun_path, sizeof su->sun_path);
+            a[sizeof su->sun_path] = '\0';
+            dbg_if (u_strlcpy(d, a, dlen));
             break;
         }
 #endif  /* !NO_UNIXSOCK */
@@ -969,6 +977,9 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    /* don't subscribe anything but what the caller has asked for */
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
@@ -1150,7 +1161,7 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
 
     u_unused_args(dummy1, dummy2);
 
-    dbg_return_if (path == NULL, ~0);
+    dbg_return_if (path == NULL || *path == '\0', ~0);
     dbg_return_if (ai == NULL, ~0);
 
     dbg_err_sif ((sunix = u_zalloc(sizeof *sunix)) == NULL);
@@ -1170,6 +1181,7 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
 
     return 0;
 err:
+    ai->ai_addr = NULL;
     U_FREE(sunix);
     U_FREE(cname);
     return ~0;
@@ -1329,6 +1341,7 @@ static int resolv_sin (const char *host, const char *port,
 
     return 0;
 err:
+    ai->ai_addr = NULL;
     U_FREE(sin);
     U_FREE(cname);
     return ~0;
@@ -1402,6 +1415,7 @@ static int resolv_sin6 (const char *host, const char *port,
 
     return 0;
 err:
+    ai->ai_addr = NULL;
     U_FREE(sin6);
     U_FREE(cname);
     return ~0;
-- 
2.43.0


From 71b4a8ab24d9bad04c0a09aead9db166cc59f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:02 +0000
Subject: [PATCH 28/42] fix: net: timed connect restores the mode of the
 socket, works on any descriptor and tells timeouts from other errors

---
 srcs/toolbox/net.c | 87 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 13 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 488ee5f..0de494d 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -13,6 +13,11 @@
 #include <toolbox/net.h>
 #include <toolbox/misc.h>
 
+#ifdef OS_UNIX
+#include <poll.h>
+#include <limits.h>
+#endif  /* OS_UNIX */
+
 #ifndef HAVE_GETADDRINFO
 /* Duplicate addrinfo layout in case struct addrinfo and related
  * methods were not available on the platform. */
@@ -96,6 +101,8 @@ static int scheme_mapper (const char *scheme, u_net_scheme_map_t *map);
 static int uri2addr (u_uri_t *u, u_net_scheme_map_t *m, u_net_addr_t *a);
 static inline int update_timeout (struct timeval *timeout, 
         struct timeval *tstart);
+static int wait_connect (int sd, struct timeval *timeout);
+static int set_flags (int sd, int flags);
 
 /**
     \defgroup net Networking
@@ -501,18 +508,23 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
 int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         struct timeval *timeout)
 {
-    int rc;
+    int rc, saved_errno, flags = -1, nonblock = 0;
     u_socklen_t rc_len = sizeof rc;
     struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
-    fd_set writefds;
 
     dbg_return_if (sd < 0, -1);
     dbg_return_if (addr == NULL, -1);
     dbg_return_if (addrlen == 0, -1);
 
+    errno = 0;
+
     if (timeout)
     {
+#ifdef HAVE_FCNTL
+        dbg_err_sif ((flags = fcntl(sd, F_GETFL, 0)) == -1);
+#endif  /* HAVE_FCNTL */
         dbg_err_if (u_net_set_nonblocking(sd));
+        nonblock = 1;
         dbg_err_sif (gettimeofday(&tstart, NULL) == -1);
     }
    
@@ -522,18 +534,16 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      *   connect() to [EINTR], but the connection request shall not be aborted, 
      *   and the connection shall be established asynchronously." 
      * That's why we can't just simply 'goto again' here when errno==EINTR,
-     * instead a rather convoluted select() based machinery must be put in
+     * instead a rather convoluted poll() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    if ((rc = connect(sd, addr, addrlen)) == 0)
+        goto end;
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
-    FD_ZERO(&writefds);
-    FD_SET(sd, &writefds);
-
     for (;;)
     {
         /* On Linux, select() also modifies timeout if the call is 
@@ -544,9 +554,9 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         if (timeout)
             tcopy = *timeout;
 
-        /* Try repeatedly to select the socket descriptor for a write 
+        /* Try repeatedly to wait on the socket descriptor for a write 
          * condition to happen. */
-        if ((rc = select(sd + 1, NULL, &writefds, NULL, ptcopy)) > 0)
+        if ((rc = wait_connect(sd, ptcopy)) > 0)
             break;
 
         /* Timeout: jump to err. */
@@ -556,7 +566,7 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
             dbg_err("connection timeouted on socket %d", sd);
         }
 
-        /* Unless interrupted by a cought signal (in which case select() is
+        /* Unless interrupted by a cought signal (in which case the wait is
          * re-entered), bail out. */
         dbg_err_sif (rc == -1 && errno != EINTR);
 
@@ -583,13 +593,19 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         warn_err("error detected on socket %d: %s", sd, strerror(errno));
     }
 
+end:
     if (timeout)
-        (void) u_net_unset_nonblocking(sd);
+        (void) set_flags(sd, flags);
 
     return 0;
 err:
-    if (timeout)
-        (void) u_net_unset_nonblocking(sd);
+    saved_errno = errno;
+
+    /* leave the socket in the same mode it had on entry */
+    if (nonblock)
+        (void) set_flags(sd, flags);
+
+    errno = saved_errno;
 
     return (errno == ETIMEDOUT) ? -2 : -1;
 }
@@ -1478,3 +1494,48 @@ static inline int update_timeout (struct timeval *timeout,
 err:
     return ~0;
 }
+
+static int set_flags (int sd, int flags)
+{
+#ifdef HAVE_FCNTL
+    dbg_err_sif (fcntl(sd, F_SETFL, flags) == -1);
+
+    return 0;
+err:
+    return ~0;
+#else
+    u_unused_args(flags);
+    return u_net_unset_nonblocking(sd);
+#endif  /* HAVE_FCNTL */
+}
+
+/* Wait until 'sd' is ready for writing or 'timeout' (if any) expires.  The
+ * return code is that of select(2), which can't be used on UNIX because it is
+ * limited to descriptors lower than FD_SETSIZE. */
+static int wait_connect (int sd, struct timeval *timeout)
+{
+#ifdef OS_UNIX
+    int ms = -1;
+    struct pollfd pfd;
+
+    if (timeout)
+    {
+        /* round up, so that we never give up too early */
+        ms = (timeout->tv_sec >= INT_MAX / 1000) ? INT_MAX :
+            timeout->tv_sec * 1000 + (timeout->tv_usec + 999) / 1000;
+    }
+
+    pfd.fd = sd;
+    pfd.events = POLLOUT;
+    pfd.revents = 0;
+
+    return poll(&pfd, 1, ms);
+#else
+    fd_set writefds;
+
+    FD_ZERO(&writefds);
+    FD_SET(sd, &writefds);
+
+    return select(sd + 1, NULL, &writefds, NULL, timeout);
+#endif  /* OS_UNIX */
+}
-- 
2.43.0


From 427390c90265bdb4b84615ca7e0ffdd2c457e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 29/42] fix: net, uri: accept the documented wildcard port,
 refuse missing ports and ports over 65535

---
 srcs/toolbox/net.c | 20 +++++++++++++++++++-
 srcs/toolbox/uri.c |  7 +++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 0de494d..af3743c 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -103,6 +103,7 @@ static inline int update_timeout (struct timeval *timeout,
         struct timeval *tstart);
 static int wait_connect (int sd, struct timeval *timeout);
 static int set_flags (int sd, int flags);
+static int check_port (const char *port);
 
 /**
     \defgroup net Networking
@@ -1248,11 +1249,13 @@ static int ai_resolv (const char *host, const char *port, const char *path,
     dbg_return_if (host == NULL, ~0);
     dbg_return_if (port == NULL, ~0);
 
+    dbg_return_ifm (check_port(port), ~0, "invalid port: \'%s\'", port);
+
     /* 
      * Handle '*' for both host and port.
      */
     hostname = !strcmp(host, "*") ? NULL : host;
-    servname = !strcmp(port, "*") ? NULL : port;
+    servname = !strcmp(port, "*") ? "0" : port;
 
     memset(&hints, 0, sizeof hints);
 
@@ -1495,6 +1498,21 @@ err:
     return ~0;
 }
 
+/* Numeric ports must not exceed the 16-bit range: the resolver would silently
+ * truncate them.  Anything else must be a non-empty service name. */
+static int check_port (const char *port)
+{
+    unsigned long n = 0;
+
+    dbg_return_if (*port == '\0', ~0);
+    nop_return_if (port[strspn(port, "0123456789")] != '\0', 0);
+
+    for ( ; *port != '\0'; ++port)
+        dbg_return_if ((n = n * 10 + (*port - '0')) > 65535, ~0);
+
+    return 0;
+}
+
 static int set_flags (int sd, int flags)
 {
 #ifdef HAVE_FCNTL
diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index dd7a5e3..ed40468 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -524,7 +524,7 @@ err:
 }
 
 /* Much more relaxed than requested: we want to let service names, not just
- * port numbers.  See /etc/services. */
+ * port numbers (see /etc/services), and the '*' wildcard of the net module. */
 static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 {
     char c;
@@ -537,8 +537,11 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+    if (c == '*')
         U_LEXER_NEXT(l, &c);
+    else
+        while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+            U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
     warn_err_if (u_uri_adjust_greedy_match(l, u->port));
-- 
2.43.0


From 896d59911b10ae429ef23773f89b7f9940204acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 30/42] fix: test: look for the dependency being added when
 checking for duplicates

---
 srcs/toolbox/test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 237ce56..e06baf2 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -984,7 +984,7 @@ static int u_test_obj_dep_add (u_test_dep_t *td, u_test_obj_t *to)
 
     /* See if the dependency isn't already recorded, in which case
      * insert it into the dependency list for this test case/suite. */
-    if (u_test_dep_search(&to->deps, to->id) == NULL)
+    if (u_test_dep_search(&to->deps, td->id) == NULL)
     {
         LIST_INSERT_HEAD(&to->deps, td, links);
     }
-- 
2.43.0


From 39964c5dbb3259d5d7f3900d1fe8b301c526145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:17 +0000
Subject: [PATCH 31/42] fix: test: start every chunk with a fresh count of
 parallel test cases

---
 srcs/toolbox/test.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index e06baf2..60c31d2 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1295,13 +1295,11 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
 
         reap:
             dbg_err_if (u_test_cases_reap(h));
+            parallel = 0;       /* Reset parallel counter. */
 
             /* If 'tptr' was set, it means that we need to restart. */
             if (tptr != NULL)
-            {
-                parallel = 0;       /* Reset parallel counter. */
                 goto resched;       /* Go to sched again. */
-            }
         }
     }
 
-- 
2.43.0


From 30085dab4794976b26a49e74056abbaade33457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 32/42] fix: test: report the totals of skipped test suites

---
 srcs/toolbox/test.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 60c31d2..5f240b4 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1506,7 +1506,8 @@ static int u_test_suite_update_all_status (u_test_suite_t *ts, int status)
     LIST_FOREACH (to, &ts->u_test_cases.objs, links)
         to->status = status;
 
-    return 0;
+    /* The suite won't be scheduled: collect its synoptical stats here. */
+    return u_test_syn_update(&ts->syn, &ts->u_test_cases);
 }
 
 static int u_test_case_scheduler (u_test_obj_t *to)
-- 
2.43.0


From 2c0bba1bbcd19848406299b96de857b9ba660005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 33/42] fix: test: a test case that could not be spawned did
 not pass

---
 srcs/toolbox/test.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 5f240b4..b761b1e 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1550,6 +1550,7 @@ static int u_test_case_exec (u_test_case_t *tc)
     {
         case -1:
             u_warn("test case %s spawn failed: %s", tc->o.id, strerror(errno));
+            tc->o.status = U_TEST_ABORTED;
             return ~0;
         case 0:
             exit(tc->func(tc));
-- 
2.43.0


From d650b68811dba6f57b28fbf9008663f0c5832376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:56 +0000
Subject: [PATCH 34/42] fix: test: don't lose test cases when waiting for them
 is interrupted or fails

---
 srcs/toolbox/test.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index b761b1e..53064cf 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1313,6 +1313,7 @@ static int u_test_cases_reap (TO *h)
 #ifdef U_TEST_SANDBOX_ENABLED
     int status;
     pid_t child;
+    u_test_obj_t *to;
     u_test_case_t *tc;
 #ifdef HAVE_STRUCT_RUSAGE
     struct rusage rusage;
@@ -1328,8 +1329,11 @@ static int u_test_cases_reap (TO *h)
         if ((child = wait(&status)) == -1)
 #endif
         {
-            /* Interrupted (should be by user interaction) or no more child 
-             * processes */
+            /* Interrupted: go out only if it was by user interaction. */
+            if (errno == EINTR && !g_interrupted)
+                continue;
+
+            /* Interrupted by the user or no more child processes */
             if (errno == EINTR || errno == ECHILD)
                 break;
             else    /* THIS IS BAD */
@@ -1381,7 +1385,22 @@ static int u_test_cases_reap (TO *h)
     if (h->nchildren != 0)
     {
         CHAT("%u child(ren) still in wait !\n", h->nchildren);
-        goto err;
+
+        /* If interrupted by the user, the children are going to be killed. */
+        if (g_interrupted)
+            goto err;
+
+        /* Children are gone with no exit status: can't say they passed. */
+        LIST_FOREACH (to, &h->objs, links)
+        {
+            if (tc = TC_HANDLE(to), tc->pid != U_TEST_CASE_PID_INITIALIZER)
+            {
+                tc->pid = U_TEST_CASE_PID_INITIALIZER;
+                tc->o.status = U_TEST_ABORTED;
+            }
+        }
+
+        h->nchildren = 0;
     }
 
     return 0;
-- 
2.43.0


From c923b870ccdd861cc4a24a76c0591cc639038828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 35/42] fix: test: escape names in the XML report

---
 srcs/toolbox/test.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 53064cf..af28601 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -199,6 +199,7 @@ static int u_test_syn_update (u_test_syn_t *syn, TO *h);
 
 /* Misc routines. */
 static const char *u_test_status_str (int status);
+static void u_test_xml_puts (FILE *fp, const char *s);
 static int u_test_init (u_test_t *t);
 static int u_test_signals (void);
 static void u_test_interrupted (int signo);
@@ -1735,7 +1736,9 @@ static int u_test_report_xml (FILE *fp, u_test_t *t, u_test_rep_tag_t tag)
     if (tag == U_TEST_REP_HEAD)
     {
         (void) fprintf(fp, "<?xml version=\"1.0\"?>\n");
-        (void) fprintf(fp, "<test id=\"%s\">\n", t->id);
+        (void) fprintf(fp, "<test id=\"");
+        u_test_xml_puts(fp, t->id);
+        (void) fprintf(fp, "\">\n");
 
         /* Add synoptical info. */
         (void) fprintf(fp, "\t<total>%u</total>\n", syn->total);
@@ -1745,7 +1748,9 @@ static int u_test_report_xml (FILE *fp, u_test_t *t, u_test_rep_tag_t tag)
         (void) fprintf(fp, "\t<skipped>%u</skipped>\n", syn->skip);
 
         /* Host info. */
-        (void) fprintf(fp, "\t<host>%s</host>\n", t->host);
+        (void) fprintf(fp, "\t<host>");
+        u_test_xml_puts(fp, t->host);
+        (void) fprintf(fp, "</host>\n");
     }
 
     if (tag == U_TEST_REP_TAIL)
@@ -1769,7 +1774,9 @@ static int u_test_suite_report_xml (FILE *fp, u_test_suite_t *ts,
     {
         status = ts->o.status;
 
-        (void) fprintf(fp, "\t<test_suite id=\"%s\">\n", ts->o.id);
+        (void) fprintf(fp, "\t<test_suite id=\"");
+        u_test_xml_puts(fp, ts->o.id);
+        (void) fprintf(fp, "\">\n");
 
         /* Status first. */
         (void) fprintf(fp, "\t\t<status>%s</status>\n", 
@@ -1810,7 +1817,9 @@ static int u_test_case_report_xml (FILE *fp, u_test_case_t *tc)
 
     status = tc->o.status;
 
-    (void) fprintf(fp, "\t\t<test_case id=\"%s\">\n", tc->o.id);
+    (void) fprintf(fp, "\t\t<test_case id=\"");
+    u_test_xml_puts(fp, tc->o.id);
+    (void) fprintf(fp, "\">\n");
 
     (void) fprintf(fp, "\t\t\t<status>%s</status>\n", 
             u_test_status_str(status));
@@ -1841,6 +1850,24 @@ static int u_test_case_report_xml (FILE *fp, u_test_case_t *tc)
     return 0;
 }
 
+/* Write 's' replacing the characters which are special to XML. */
+static void u_test_xml_puts (FILE *fp, const char *s)
+{
+    for (; *s != '\0'; ++s)
+    {
+        switch (*s)
+        {
+            case '&': (void) fputs("&amp;", fp); break;
+            case '<': (void) fputs("&lt;", fp); break;
+            case '>': (void) fputs("&gt;", fp); break;
+            case '"': (void) fputs("&quot;", fp); break;
+            default:  (void) fputc(*s, fp);
+        }
+    }
+
+    return;
+}
+
 static const char *u_test_status_str (int status)
 {
     switch (status)
-- 
2.43.0


From 4116092f09056a3b78542ed325b23e968a1c2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 36/42] fix: pwd: release the map options after creating the
 in-memory db

---
 srcs/toolbox/pwd.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 98894c5..825d3a4 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -695,8 +695,12 @@ static int u_pwd_db_new (u_pwd_t *pwd)
 
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
-            
-    return u_hmap_easy_new(hopts, &pwd->db);
+    dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
+
+    /* the map has its own copy */
+    u_hmap_opts_free(hopts);
+
+    return 0;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From 706220fbee846e69faee0b6c4052f6512ce993ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 37/42] fix: pwd: a lookup or a reload which runs out of memory
 fails instead of skipping the entry

---
 srcs/toolbox/pwd.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 825d3a4..a0037e9 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -16,7 +16,7 @@ static int u_pwd_db_load (u_pwd_t *pwd);
 static int u_pwd_db_push (u_pwd_t *pwd, u_pwd_rec_t *rec);
 static void __hmap_pwd_rec_free (void *val);  /* hook hmap free */
 static void u_pwd_rec_dispose (u_pwd_rec_t *rec);
-static int u_pwd_rec_parse (char *ln, u_pwd_rec_t **prec);
+static int u_pwd_rec_parse (char *ln, size_t lc, u_pwd_rec_t **prec);
 
 /* misc */
 static int u_pwd_load (u_pwd_t *pwd);
@@ -471,13 +471,9 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
      * is taken in case an user has more than one */
     while (u_pwd_res_getln(pwd, ln, sizeof ln, &lc) == 0)
     {
-        if (u_pwd_rec_parse(ln, &rec))
-        {
-            u_info("bad entry at line %zu", lc);
-            continue;
-        }
+        dbg_err_if (u_pwd_rec_parse(ln, lc, &rec));
 
-        /* comments give no record */
+        /* comments and bad entries give no record */
         if (rec && !strcmp(rec->user, user))
             break;
 
@@ -565,8 +561,8 @@ static int u_pwd_res_getln (u_pwd_t *pwd, char *ln, size_t ln_sz, size_t *plc)
 }
 
 /* tokenize line, expecting at least two (non empty) fields: user and password,
- * and create the corresponding record (NULL in case of comment) */
-static int u_pwd_rec_parse (char *ln, u_pwd_rec_t **prec)
+ * and create the corresponding record (NULL in case of comment or bad entry) */
+static int u_pwd_rec_parse (char *ln, size_t lc, u_pwd_rec_t **prec)
 {
     char *user, *pass, *opaque;
 
@@ -580,7 +576,11 @@ static int u_pwd_rec_parse (char *ln, u_pwd_rec_t **prec)
     pass = strsep(&ln, ":");
     opaque = strsep(&ln, ":");
 
-    dbg_return_if (*user == '\0' || pass == NULL || *pass == '\0', ~0);
+    if (*user == '\0' || pass == NULL || *pass == '\0')
+    {
+        u_info("bad entry at line %zu", lc);
+        return 0;
+    }
 
     return u_pwd_rec_new(user, pass, 
             (opaque == NULL || *opaque == '\0') ? NULL : opaque, prec);
@@ -735,11 +735,7 @@ static int u_pwd_db_load (u_pwd_t *pwd)
     while (u_pwd_res_getln(pwd, ln, sizeof ln, &lc) == 0)
     {
         /* create u_pwd_rec_t from line */
-        dbg_ifb (u_pwd_rec_parse(ln, &rec))
-        {
-            u_info("could not create record for entry at line %zu", lc);
-            continue;
-        }
+        dbg_err_if (u_pwd_rec_parse(ln, lc, &rec));
 
         if (rec == NULL)
             continue;
@@ -752,10 +748,9 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             case U_HMAP_ERR_EXISTS: /* the map has already disposed it */
                 u_info("duplicate entry at line %zu", lc);
                 break;
-            default:
-                u_info("could not push record for entry at line %zu", lc);
+            default: /* an incomplete snapshot must not be used */
                 u_pwd_rec_dispose(rec);
-                break;
+                dbg_err("could not push record for entry at line %zu", lc);
         }
     }
 
-- 
2.43.0


From c37be1bc5177479995ef41c276cb61b96aeb4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 38/42] fix: bst: a push which runs out of memory leaves the
 tree and the caller's key alone

---
 srcs/toolbox/bst.c | 100 +++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 57 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index f6d208e..db14c89 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -39,13 +39,13 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -200,15 +200,20 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Create the new node before touching the tree. */
+    warn_return_if (u_bst_node_new(bst, key, val, &newnode), ~0);
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
     return bst->root ? 0 : ~0;
 }
@@ -598,6 +603,9 @@ static int u_bst_node_new (u_bst_t *bst, const void *key, const void *val,
 
     return 0;
 err:
+    /* Only the key can have been set: if it isn't our copy, leave it alone. */
+    if (node && bst->keytype == U_BST_TYPE_PTR)
+        node->key = NULL;
     u_bst_node_do_free(bst, node);
     return ~0;
 }
@@ -702,76 +710,66 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
     u_bst_node_t *parent, *node;
 
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
     {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
+        bst->root = newnode;
         return bst->root;
     }
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -781,53 +779,41 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
     dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    dbg_return_if (newnode == NULL, NULL);
 
-    /* External node reached: create the node. */
+    /* External node reached: attach the node. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From 19b21f10499008533ae56d773b8e4899e4e2929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 39/42] fix: hmap: printing a map copes with long elements,
 maps without a string representation and lack of memory

---
 srcs/toolbox/hmap.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index cf9292f..71f69cd 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -445,8 +445,6 @@ static int __f_comp (const void *k1, const void *k2)
 /* Default string representation of objects */
 static u_string_t *__f_str (u_hmap_o_t *obj)
 {
-    enum { MAX_OBJ_STR = 256 };
-    char buf[MAX_OBJ_STR];
     u_string_t *s = NULL;
     const char *key, *val;
 
@@ -457,13 +455,13 @@ static u_string_t *__f_str (u_hmap_o_t *obj)
     val = (obj->hmap->opts->val_type == U_HMAP_OPTS_DATATYPE_STRING) ?
         (const char *) obj->val : "";
 
-    dbg_err_if (u_snprintf(buf, MAX_OBJ_STR, "[%s:%s]", key, val));
-    dbg_err_if (u_string_create(buf, strlen(buf)+1, &s));
+    dbg_err_if (u_string_create("", 1, &s));
+    dbg_err_if (u_string_sprintf(s, "[%s:%s]", key, val));
 
     return s;
 
 err:
-    U_FREE(s);
+    U_FREEF(s, u_string_free);
     return NULL;
 }
 
@@ -1986,7 +1984,6 @@ err:
  */
 void u_hmap_dbg (u_hmap_t *hmap)
 {
-    enum { MAX_LINE = 255 };
     u_string_t *s = NULL, *st = NULL;
     u_hmap_o_t *obj;
     size_t i;
@@ -2000,7 +1997,7 @@ void u_hmap_dbg (u_hmap_t *hmap)
 
         dbg_ifb (u_string_create("", 1, &s)) return;
         dbg_err_if (u_string_clear(s));
-        dbg_err_if (u_string_aprintf(s, "%5d ", i));
+        dbg_err_if (u_string_aprintf(s, "%5u ", (unsigned int) i));
 
         LIST_FOREACH(obj, &hmap->hmap[i], next)
         {
@@ -2010,13 +2007,13 @@ void u_hmap_dbg (u_hmap_t *hmap)
             }
             else
             {
-                st = hmap->opts->f_str(obj);
+                dbg_err_if ((st = hmap->opts->f_str(obj)) == NULL);
                 dbg_err_if (u_string_cat(s, u_string_c(st)));
                 u_string_free(st), st = NULL;
             }
         }
-        u_dbg(u_string_c(s));
-        u_string_free(s);
+        u_dbg("%s", u_string_c(s));
+        u_string_free(s), s = NULL;
     }
 
     return;
@@ -2046,14 +2043,21 @@ void u_hmap_pcy_dbg (u_hmap_t *hmap)
 
     TAILQ_FOREACH(q, &hmap->pcy.queue, next)
     {
-        s2 = hmap->opts->f_str(q->ho);
-        dbg_err_if (u_string_cat(s, u_string_c(s2)));
+        if (hmap->opts->f_str == NULL)
+        {
+            dbg_err_if (u_string_cat(s, "[]"));
+        }
+        else
+        {
+            dbg_err_if ((s2 = hmap->opts->f_str(q->ho)) == NULL);
+            dbg_err_if (u_string_cat(s, u_string_c(s2)));
+            u_string_free(s2), s2 = NULL;
+        }
         if (hmap->opts->policy == U_HMAP_PCY_LFU)  /* print count */
             dbg_err_if (u_string_aprintf(s, "-%d", *((int *)q->data)));
-        u_string_free(s2);
     }
 
-    u_dbg(u_string_c(s));
+    u_dbg("%s", u_string_c(s));
     u_string_free(s);
 
     return;
-- 
2.43.0


From 285ac7f94f7ae9548be2c75a929a80dec1c474bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:46 +0000
Subject: [PATCH 40/42] fix: missing: timegm leaves the time zone of the
 program as it found it

---
 srcs/missing/timegm.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/srcs/missing/timegm.c b/srcs/missing/timegm.c
index 2a2f59a..53ac25f 100644
--- a/srcs/missing/timegm.c
+++ b/srcs/missing/timegm.c
@@ -7,26 +7,38 @@
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
+
+static void set_tz(const char *tz)
+{
+#ifdef OS_WIN
+    char buf[256];
+
+    snprintf(buf, sizeof(buf), "TZ=%s", tz ? tz : "");
+    putenv(buf);    /* makes its own copy here */
+#else
+    if(tz)
+        setenv("TZ", tz, 1);
+    else
+        unsetenv("TZ");
+#endif
+    tzset();
+}
 
 time_t timegm(struct tm *tm)
 {
     time_t ret;
-    char *tz;
-    
-    /* save current timezone and set UTC */
-    tz = getenv("TZ");
-    putenv("TZ=UTC");   /* use Coordinated Universal Time (i.e. zero offset) */
-    tzset();
+    char *tz, *old = NULL;
     
+    /* save current timezone (setting a new one may invalidate it) */
+    if((tz = getenv("TZ")) != NULL && (old = strdup(tz)) == NULL)
+        return (time_t) -1;
+
+    set_tz("UTC");  /* use Coordinated Universal Time (i.e. zero offset) */
     ret = mktime(tm);
-    if(tz)
-    {
-        char buf[256];
-        snprintf(buf, sizeof(buf), "TZ=%s", tz);
-        putenv(buf);
-    } else
-        putenv("TZ=");
-    tzset();
+    set_tz(old);
+
+    free(old);
     
     return ret;
 }
-- 
2.43.0


From 2d07222051377ad9b78848fd21ec9db16c42e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 41/42] fix: missing: fnmatch handles 8-bit characters, ']' as
 the first of a list and FNM_PERIOD

---
 srcs/missing/fnmatch.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 4c0bf06..58f0f29 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -44,6 +44,7 @@
 
 #define	EOS	'\0'
 
+static int fnmatch1(const char *, const char *, const char *, int);
 static const char *rangematch(const char *, int, int);
 
 static inline int foldcase(int ch, int flags)
@@ -58,10 +59,15 @@ static inline int foldcase(int ch, int flags)
 
 int fnmatch (const char *pattern, const char *string, int flags)
 {
-	const char *stringstart;
-	char c, test;
+	return (fnmatch1(pattern, string, string, flags));
+}
+
+static int fnmatch1 (const char *pattern, const char *string,
+    const char *stringstart, int flags)
+{
+	int c, test;
 
-	for (stringstart = string;;)
+	for (;;)
 		switch (c = FOLDCASE(*pattern++, flags)) {
 		case EOS:
 			if ((flags & FNM_LEADING_DIR) && *string == '/')
@@ -105,8 +111,8 @@ int fnmatch (const char *pattern, const char *string, int flags)
 
 			/* General case, use recursion. */
 			while ((test = FOLDCASE(*string, flags)) != EOS) {
-				if (!fnmatch(pattern, string,
-					     flags & ~FNM_PERIOD))
+				if (!fnmatch1(pattern, string, stringstart,
+					      flags))
 					return (0);
 				if (test == '/' && flags & FNM_PATHNAME)
 					break;
@@ -118,6 +124,10 @@ int fnmatch (const char *pattern, const char *string, int flags)
 				return (FNM_NOMATCH);
 			if (*string == '/' && flags & FNM_PATHNAME)
 				return (FNM_NOMATCH);
+			if (*string == '.' && (flags & FNM_PERIOD) &&
+			    (string == stringstart ||
+			    ((flags & FNM_PATHNAME) && *(string - 1) == '/')))
+				return (FNM_NOMATCH);
 			if ((pattern =
 			    rangematch(pattern, FOLDCASE(*string, flags),
 				       flags)) == NULL)
@@ -142,8 +152,8 @@ int fnmatch (const char *pattern, const char *string, int flags)
 
 static const char *rangematch (const char *pattern, int test, int flags)
 {
-	int negate, ok;
-	char c, c2;
+	int negate, ok, first;
+	int c, c2;
 
 	/*
 	 * A bracket expression starting with an unquoted circumflex
@@ -155,7 +165,9 @@ static const char *rangematch (const char *pattern, int test, int flags)
 	if ((negate = (*pattern == '!' || *pattern == '^')) != 0)
 		++pattern;
 	
-	for (ok = 0; (c = FOLDCASE(*pattern++, flags)) != ']';) {
+	/* a ']' which comes first stands for itself */
+	for (ok = 0, first = 1;
+	    (c = FOLDCASE(*pattern++, flags)) != ']' || first; first = 0) {
 		if (c == '\\' && !(flags & FNM_NOESCAPE))
 			c = FOLDCASE(*pattern++, flags);
 		if (c == EOS)
-- 
2.43.0


From 090942aa4e1d1a0a1b5487e40b568c20b22a8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:21 +0000
Subject: [PATCH 42/42] fix: carpal: macros are single statements,
 crit_goto_if, crit_strerror and the timers build, strerror shows the given
 code

---
 include/toolbox/carpal.h | 26 +++++++++++++-------------
 include/toolbox/log.h    |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/toolbox/carpal.h b/include/toolbox/carpal.h
index de65df5..587c0c5 100644
--- a/include/toolbox/carpal.h
+++ b/include/toolbox/carpal.h
@@ -139,7 +139,7 @@ extern "C" {
  *  \endcode
  */
 #define msg_ifm(label, expr, ...)   \
-    do { if(expr) { msg(label, 0, __VA_ARGS__); } } while(0);
+    do { if(expr) { msg(label, 0, __VA_ARGS__); } } while(0)
 
 /** 
  *  \brief  Log a message if \p expr is true and enter the if-block
@@ -173,7 +173,7 @@ extern "C" {
  *  \endcode
  */
 #define msg_return_if(label, expr, err) \
-    msg_ifb(label, expr) { return err; }
+    do { msg_ifb(label, expr) { return err; } } while(0)
 
 /** 
  *  \brief  Log the given message if \p expr is true and return \p err.
@@ -186,7 +186,7 @@ extern "C" {
  *  \endcode
  */
 #define msg_return_ifm(label, expr, err, ...)   \
-    if(expr) { msg(label, 0, __VA_ARGS__); return err; }
+    do { if(expr) { msg(label, 0, __VA_ARGS__); return err; } } while(0)
 
 /** 
  *  \brief  Log the given message plus \c strerror(errno) if \p expr is true,
@@ -201,7 +201,7 @@ extern "C" {
  *  \endcode
  */
 #define msg_return_sifm(label, expr, err, ...)  \
-    if(expr) { msg(label, errno, __VA_ARGS__); return err; }
+    do { if(expr) { msg(label, errno, __VA_ARGS__); return err; } } while(0)
 
 /** 
  *  \brief  Log a message plus \c strerror(errno) if \p expr is true, and 
@@ -235,7 +235,7 @@ extern "C" {
  *  \endcode
  */
 #define msg_goto_if(label, expr, gt)    \
-    msg_ifb(label, expr) goto gt
+    do { msg_ifb(label, expr) { goto gt; } } while(0)
 
 /** 
  *  \brief  Log a message if \p expr is true and \c goto to the label \c err
@@ -368,7 +368,7 @@ extern "C" {
         if(u_strerror_r(en, _eb, _DBG_BUFSZ)) {                     \
             msg(label, 0, "strerror_r(%d, ...) failed", en);        \
         } else {                                                    \
-            msg(label, 0, "errno: %d (%s)", errno, _eb);            \
+            msg(label, 0, "errno: %d (%s)", en, _eb);               \
         }                                                           \
     } while(0)  
 #endif /* OS_WIN */
@@ -471,8 +471,8 @@ extern "C" {
 #define crit_err_sifm(expr, ...)        msg_err_sifm(crit_, expr, __VA_ARGS__)
 #define crit_err_rcif(expr, ...)        msg_err_rcif(crit_, expr, __VA_ARGS__)
 
-#define crit_goto_if(expr, gt)          msg_goto_if(crit, expr, gt)
-#define crit_strerror(err)              msg_strerror(crit, err)
+#define crit_goto_if(expr, gt)          msg_goto_if(crit_, expr, gt)
+#define crit_strerror(err)              msg_strerror(crit_, err)
 
 /* err_ macros */
 #define u_err(...)                      msg(err_, 0, __VA_ARGS__)
@@ -600,11 +600,11 @@ extern "C" {
     #define TIMER_STEP                                                      \
         do {                                                                \
         _t_now = time(0);                                                   \
-        dbg("  step %u: %u s (delta: %u s)",                                \
-            _t_step++, _t_now - _t_beg, _t_now - _t_prev);                  \
+        u_dbg("  step %d: %ld s (delta: %ld s)", _t_step++,                 \
+            (long) (_t_now - _t_beg), (long) (_t_now - _t_prev));           \
             _t_prev = _t_now;                                               \
        } while(0)
-    #define TIMER_OFF  dbg("elapsed: %u s", (time(0) - _t_beg))
+    #define TIMER_OFF  u_dbg("elapsed: %ld s", (long) (time(0) - _t_beg))
 #else /* disable debugging */
     #include <ctype.h>
     /* this will be used just to avoid empty-if (and similar) warnings */
@@ -619,9 +619,9 @@ extern "C" {
     #define dbg_return_if(expr, err)    do { if( (expr) ) return err; } while(0)
     #define dbg_return_sif(expr, err)   dbg_return_if(expr, err)
     #define dbg_return_ifm(expr, err, ...)      \
-        dbg_return_if(expr, err);
+        dbg_return_if(expr, err)
     #define dbg_return_sifm(expr, err, ...)     \
-        dbg_return_if(expr, err);
+        dbg_return_if(expr, err)
 
     #define dbg_err_if(expr)            do { if( (expr) ) goto err; } while(0)
     #define dbg_err_sif(expr)           do { if( (expr) ) goto err; } while(0)
diff --git a/include/toolbox/log.h b/include/toolbox/log.h
index 6e2dbb8..5d36107 100644
--- a/include/toolbox/log.h
+++ b/include/toolbox/log.h
@@ -246,7 +246,7 @@ int u_log_set_hook(u_log_hook_t hook, void *arg, u_log_hook_t *old, void**parg);
 #define die(ecode, ...) u_log_die(ecode, facility, 1, 0, __VA_ARGS__)
 
 /** \brief calls die() if \e expr is true */
-#define die_if(expr) if(expr) die(EXIT_FAILURE, #expr)
+#define die_if(expr) do { if(expr) die(EXIT_FAILURE, "%s", #expr); } while(0)
 
 /** \brief same as u_log_emerg but using the facility global variable */
 #define emerg_( err, ...) u_log_emerg(facility, 1, err, __VA_ARGS__)
-- 
2.43.0

