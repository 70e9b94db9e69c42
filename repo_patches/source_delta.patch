From f0d2571928a7f74e7e49ec31d91dc75e32905d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 01/66] fix: bpak_del_meta destroyed neighbouring values and
 parts[0]

The vacated source range was cleared after an overlapping memmove, which
wiped the value that had just been moved. With a full table the entry past
the table (the first part header) was cleared instead of the last one, and
offsets smaller than the removed size underflowed.
---
 lib/bpak.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..250da39 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -80,30 +80,30 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
                                struct bpak_meta_header *meta)
 {
-    struct bpak_meta_header *next_meta = meta + 1;
-    uint16_t offset_adjust = meta->size;
-
-    offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
-
-    while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
-            memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
-                    &(hdr->metadata[next_meta->offset]),
-                    next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
-
-            next_meta->offset -= offset_adjust;
-        }
-
-        memcpy(meta, next_meta, sizeof(*meta));
-
-        if (!meta->id)
-            break;
-
-        meta = next_meta++;
+    struct bpak_meta_header *last_meta = &(hdr->meta[BPAK_MAX_META - 1]);
+    uint16_t offset = meta->offset;
+    uint16_t size = meta->size;
+    uint16_t offset_adjust = BPAK_META_ALIGN_SIZE(size);
+
+    if ((offset + size) <= BPAK_METADATA_BYTES)
+        memset(&(hdr->metadata[offset]), 0, size);
+
+    /* Close the gap, both in the table and in the metadata area */
+    for (; meta != last_meta && meta[1].id != 0; meta++) {
+        memcpy(meta, meta + 1, sizeof(*meta));
+
+        if (meta->offset < (offset + offset_adjust) ||
+            (meta->offset + meta->size) > BPAK_METADATA_BYTES)
+            continue;
+
+        meta->offset -= offset_adjust;
+        memmove(&(hdr->metadata[meta->offset]),
+                &(hdr->metadata[meta->offset + offset_adjust]),
+                meta->size);
+        memset(&(hdr->metadata[meta->offset + meta->size]), 0, offset_adjust);
     }
 
-    memset(next_meta, 0, sizeof(*next_meta));
+    memset(meta, 0, sizeof(*meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From e8cdb4a33755dbf5aa744719bdd5d9f6822b644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 02/66] fix: bpak_add_meta left an invalid entry behind when
 out of space

---
 lib/bpak.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 250da39..9b9a34e 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,13 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
-
             *meta = m;
             return BPAK_OK;
         } else if (m->id == id && m->part_id_ref == part_ref_id) {
-- 
2.43.0


From 3167fe91c11a70c836dadd9d801db295dd27e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 03/66] fix: validate header entries behind an unused slot

bpak_get_meta and bpak_get_part look at every slot, so an entry behind an
unused one must be checked as well.
---
 lib/bpak.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 9b9a34e..a4ae76f 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -238,7 +238,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
-            break;
+            continue;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
@@ -247,7 +247,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check for out-of-bounds metadata */
     bpak_foreach_meta (hdr, m) {
         if (!m->id)
-            break;
+            continue;
 
         if ((m->size + m->offset) > BPAK_METADATA_BYTES) {
             return -BPAK_SIZE_ERROR;
-- 
2.43.0


From 20867c60c284d62433467bf05ec2db0789d41b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 04/66] fix: opening a file that can't be read overwrote it
 with an empty header

Only a file that is empty is initialised. A short or failed read of the
header of an existing file is reported as an error and leaves it alone.
---
 lib/pkg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..bfff2a3 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -26,6 +26,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
                               const char *mode)
 {
     int rc;
+    struct stat statbuf;
 
     if (!mode)
         return -BPAK_FAILED;
@@ -46,8 +47,14 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
-    /* Initialize and write BPAK header when new files are created */
+    /* Initialize and write BPAK header when new files are created, but never
+     * touch a file which has content that couldn't be read */
     if (read_bytes != sizeof(pkg->header)) {
+        if (fstat(fileno(pkg->fp), &statbuf) != 0 || statbuf.st_size != 0) {
+            rc = -BPAK_READ_ERROR;
+            goto err_close_io;
+        }
+
         rc = bpak_init_header(&pkg->header);
         if (rc != BPAK_OK) {
             goto err_close_io;
@@ -86,6 +93,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
 err_close_io:
     fclose(pkg->fp);
+    pkg->fp = NULL;
     return rc;
 }
 
-- 
2.43.0


From c480b2949f42a838ff889a7d95cb35b12622c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 05/66] fix: report errors when buffered data can't be written

bpak_pkg_write_header flushes and bpak_pkg_close returns the result of fclose.
---
 lib/pkg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index bfff2a3..5a258c9 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -99,11 +99,14 @@ err_close_io:
 
 BPAK_EXPORT int bpak_pkg_close(struct bpak_package *pkg)
 {
+    int rc = BPAK_OK;
+
     if (pkg->fp != NULL) {
-        fclose(pkg->fp);
+        if (fclose(pkg->fp) != 0)
+            rc = -BPAK_WRITE_ERROR;
         pkg->fp = NULL;
     }
-    return BPAK_OK;
+    return rc;
 }
 
 static ssize_t pkg_read_payload(off_t offset, uint8_t *buf, size_t length,
@@ -189,7 +192,7 @@ BPAK_EXPORT int bpak_pkg_write_header(struct bpak_package *pkg)
     size_t bytes_written =
         fwrite(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
-    if (bytes_written != sizeof(pkg->header)) {
+    if (bytes_written != sizeof(pkg->header) || fflush(pkg->fp) != 0) {
         bpak_printf(0, "%s: Write failed\n", __func__);
         return -BPAK_WRITE_ERROR;
     }
-- 
2.43.0


From 5fc55b5c276685437e35d581b751016216a55e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 06/66] fix: bpak_pkg_write_raw_signature did not check the
 signature size

An oversized signature overwrote memory behind the header.
---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 5a258c9..a19fbf4 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -204,6 +204,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size == 0 || size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-- 
2.43.0


From 54958674130a43df7141fdf56759b3ccedb4259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 07/66] fix: bpak_pkg_extract_file reported success for
 incomplete output

Errors of the final flush were ignored and a transport encoded part, which
has no padding, was cut by the padding of the decoded part.
---
 lib/pkg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index a19fbf4..e13182b 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -459,7 +459,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
@@ -486,8 +486,11 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
 err_close_fp_out:
-    if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+    if (fp == stdout) {
+        if (fflush(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
+    } else if (fclose(fp) != 0 && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
-- 
2.43.0


From 58701ce735fa727d8d50193d78280317de3ee716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 08/66] fix: bpak_pkg_delete_part never ended on a short file

More than what is left of the parts was read, so that data behind the last
part wrapped the counter, and reading past the end of the file looped.
---
 lib/pkg.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index e13182b..4553954 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -555,15 +555,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
-            rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
-- 
2.43.0


From dea9b4a6e8aceffd95e1ce3a77cb7093649be518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 09/66] fix: bpak_pkg_add_file looped forever when the input
 couldn't be read

A read error or a file that shrank was not noticed and a file that grew
wrapped the counter.
---
 lib/pkg_create.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..2d5da95 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -255,7 +255,12 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     }
 
     while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
+        size_t chunk_length = BPAK_MIN(bytes_to_write, sizeof(chunk_buffer));
+        size_t read_bytes = fread(chunk_buffer, 1, chunk_length, in_fp);
+        if (read_bytes != chunk_length) {
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
-- 
2.43.0


From f1e5e65248cbf83d404efb3fa06aba9185bacae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 10/66] fix: bpak_pkg_add_key wrote stack memory as padding

The padding was read from behind a single zero byte. The key is also
returned to the allocator it came from.
---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 2d5da95..bed9adc 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -346,8 +346,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    uint8_t zero[BPAK_PART_ALIGN] = { 0 };
+    if (fwrite(zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
@@ -365,6 +365,6 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
-    free(key);
+    bpak_free(key);
     return rc;
 }
-- 
2.43.0


From de607098a10c382802a2330635218fad69a182ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 11/66] fix: new parts were placed with a gap in transport
 encoded packages

The space a part takes is its transport size once it has been encoded.
---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index bed9adc..55c3111 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -120,7 +120,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     /* Write tree to bpak file */
 
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     /* Add salt */
@@ -218,7 +218,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
@@ -311,7 +311,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
 
     /* Write header */
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
-- 
2.43.0


From a9cf506b72cdbba0bab358d932e490df7f168fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 12/66] fix: a failed add left the new part in the in-memory
 header

The part that could not be added was written to the file by the next
successful operation on the same handle.
---
 lib/pkg_create.c | 56 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 55c3111..c55e8c5 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -21,6 +21,10 @@
 #include <bpak/crc.h>
 #include <bpak/crypto.h>
 
+static int add_file_data(struct bpak_package *pkg, const char *filename,
+                         const char *part_name, uint8_t flags);
+static int commit_header(struct bpak_package *pkg);
+
 #if BPAK_CONFIG_MERKLE == 1
 static ssize_t merkle_wr(off_t offset, uint8_t *buf, size_t size, void *priv)
 {
@@ -197,9 +201,9 @@ err_free_buf_out:
 
 #endif // BPAK_CONFIG_MERKLE
 
-BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
-                                  const char *filename, const char *part_name,
-                                  uint8_t flags)
+/* Adds a part and its data, the header is not written to the package */
+static int add_file_data(struct bpak_package *pkg, const char *filename,
+                         const char *part_name, uint8_t flags)
 {
     int rc;
     struct bpak_header *h = bpak_pkg_header(pkg);
@@ -281,17 +285,38 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
         }
     }
 
-    rc = bpak_pkg_update_hash(pkg, NULL, NULL);
+err_close_fp:
+    fclose(in_fp);
+    return rc;
+}
+
+static int commit_header(struct bpak_package *pkg)
+{
+    int rc = bpak_pkg_update_hash(pkg, NULL, NULL);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Error: Could not update payload hash\n");
-        goto err_close_fp;
+        return rc;
     }
 
-    rc = bpak_pkg_write_header(pkg);
+    return bpak_pkg_write_header(pkg);
+}
+
+BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
+                                  const char *filename, const char *part_name,
+                                  uint8_t flags)
+{
+    int rc;
+    struct bpak_header saved_header = pkg->header;
+
+    rc = add_file_data(pkg, filename, part_name, flags);
+
+    if (rc == BPAK_OK)
+        rc = commit_header(pkg);
+
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
 
-err_close_fp:
-    fclose(in_fp);
     return rc;
 }
 
@@ -302,6 +327,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_key *key = NULL;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *p = NULL;
+    struct bpak_header saved_header = pkg->header;
     uint64_t new_offset = sizeof(struct bpak_header);
 
     rc = bpak_crypto_load_public_key(filename, &key);
@@ -352,19 +378,11 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
     }
 
-    rc = bpak_pkg_update_hash(pkg, NULL, NULL);
-
-    if (rc != BPAK_OK) {
-        bpak_printf(0, "Error: Could not update payload hash\n");
-        goto err_free_key_out;
-    }
-
-    rc = bpak_pkg_write_header(pkg);
-
-    if (rc != BPAK_OK)
-        goto err_free_key_out;
+    rc = commit_header(pkg);
 
 err_free_key_out:
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
     bpak_free(key);
     return rc;
 }
-- 
2.43.0


From abbfab38d190192d3d9f2e722f659ba91f40ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 13/66] fix: adding a hash tree part could leave a part without
 its tree

Data, tree and metadata are now committed with one header write, an
unsuitable size or a failing read, allocation or tree init fails the
operation, and the tree is built from the data in the package.
---
 lib/pkg_create.c | 82 +++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index c55e8c5..ab2052a 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -48,27 +48,37 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     int rc;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_merkle_context ctx;
-    struct stat statbuf;
+    struct bpak_header saved_header = pkg->header;
+    struct bpak_part_header *data_part = NULL;
     uint8_t block_buf[BPAK_CHUNK_BUFFER_LENGTH];
     size_t chunk_sz;
     uint64_t new_offset = sizeof(*h);
 
-    if (stat(filename, &statbuf) != 0) {
-        bpak_printf(0, "Error: Can't open file '%s'\n", filename);
-        return -BPAK_FILE_NOT_FOUND;
-    }
+    char *merkle_buf = NULL;
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+    rc = add_file_data(pkg, filename, part_name, flags);
 
     if (rc != 0)
-        return rc;
+        goto err_free_buf_out;
 
-    ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
+    rc = bpak_get_part(h, bpak_id(part_name), &data_part);
 
-    if (merkle_sz < 0)
-        return merkle_sz;
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
 
-    char *merkle_buf = bpak_calloc(merkle_sz, 1);
+    ssize_t merkle_sz = bpak_merkle_compute_size(data_part->size);
+
+    if (merkle_sz < 0) {
+        rc = merkle_sz;
+        goto err_free_buf_out;
+    }
+
+    merkle_buf = bpak_calloc(merkle_sz, 1);
+
+    if (merkle_buf == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_buf_out;
+    }
 
     memset(merkle_buf, 0, merkle_sz);
 
@@ -85,7 +95,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     }
 
     rc = bpak_merkle_init(&ctx,
-                          statbuf.st_size,
+                          data_part->size,
                           salt,
                           32,
                           merkle_wr,
@@ -94,24 +104,30 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
-    FILE *fp = fopen(filename, "rb");
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
 
-    if (fp == NULL) {
-        rc = -BPAK_FILE_NOT_FOUND;
+    /* Build the tree from the data that was written to the package */
+    if (fseek(pkg->fp, bpak_part_offset(h, data_part), SEEK_SET) != 0) {
+        rc = -BPAK_SEEK_ERROR;
         goto err_free_buf_out;
     }
 
-    rc = BPAK_OK;
-    while (true) {
-        chunk_sz = fread(block_buf, 1, sizeof(block_buf), fp);
+    uint64_t bytes_to_process = data_part->size;
 
-        if (chunk_sz == 0)
-            break;
+    while (bytes_to_process) {
+        chunk_sz = BPAK_MIN(bytes_to_process, sizeof(block_buf));
+
+        if (fread(block_buf, 1, chunk_sz, pkg->fp) != chunk_sz) {
+            rc = -BPAK_READ_ERROR;
+            goto err_free_buf_out;
+        }
 
+        bytes_to_process -= chunk_sz;
         rc = bpak_merkle_write_chunk(&ctx, block_buf, chunk_sz);
 
         if (rc != BPAK_OK)
-            goto err_close_fp_out;
+            goto err_free_buf_out;
     }
 
     bpak_merkle_hash_t hash;
@@ -119,7 +135,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     rc = bpak_merkle_finish(&ctx, hash);
 
     if (rc != BPAK_OK)
-        goto err_close_fp_out;
+        goto err_free_buf_out;
 
     /* Write tree to bpak file */
 
@@ -138,7 +154,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                        &meta);
 
     if (rc != BPAK_OK)
-        goto err_close_fp_out;
+        goto err_free_buf_out;
 
     m = bpak_get_meta_ptr(h, meta, uint8_t);
     memcpy(m, salt, sizeof(bpak_merkle_hash_t));
@@ -150,7 +166,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                        &meta);
 
     if (rc != BPAK_OK)
-        goto err_close_fp_out;
+        goto err_free_buf_out;
 
     m = bpak_get_meta_ptr(h, meta, uint8_t);
     memcpy(m, hash, sizeof(bpak_merkle_hash_t));
@@ -163,7 +179,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Error: Could not add part\n");
-        goto err_close_fp_out;
+        goto err_free_buf_out;
     }
 
     p->offset = new_offset;
@@ -176,25 +192,19 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Could not seek to new pos\n");
-        goto err_close_fp_out;
+        goto err_free_buf_out;
     }
 
     if (fwrite(merkle_buf, 1, merkle_sz, pkg->fp) != (size_t)merkle_sz) {
         rc = -BPAK_WRITE_ERROR;
-        goto err_close_fp_out;
+        goto err_free_buf_out;
     }
 
-    rc = bpak_pkg_update_hash(pkg, NULL, NULL);
-
-    if (rc != BPAK_OK) {
-        bpak_printf(0, "Error: Could not update payload hash\n");
-        goto err_close_fp_out;
-    }
+    rc = commit_header(pkg);
 
-    rc = bpak_pkg_write_header(pkg);
-err_close_fp_out:
-    fclose(fp);
 err_free_buf_out:
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
     bpak_free(merkle_buf);
     return rc;
 }
-- 
2.43.0


From 0148b4037e8c454f652038b7916a33e12ca9fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 14/66] fix: bpak_verify_compute_header_hash ignored hash
 errors

---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From 1d5f3eb87eaed46b52f4ae29fdb91e3f494257cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 15/66] fix: bpak_pkg_verify read past the header with a bad
 signature size

---
 lib/pkg_verify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg_verify.c b/lib/pkg_verify.c
index 944040c..206a6bd 100644
--- a/lib/pkg_verify.c
+++ b/lib/pkg_verify.c
@@ -41,6 +41,9 @@ BPAK_EXPORT int bpak_pkg_verify(struct bpak_package *pkg,
     size_t hash_size = sizeof(hash_output);
     bool header_verified = false;
 
+    if (pkg->header.signature_sz > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     rc = bpak_verify_compute_header_hash(&pkg->header, hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-- 
2.43.0


From be85db8a4dcfe5bd1d4932bc38b322d293f7352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 16/66] fix: a failed bpak_pkg_sign cleared the signature in
 the open package

The next successful operation on the handle wrote the package unsigned.
---
 lib/pkg_sign.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/pkg_sign.c b/lib/pkg_sign.c
index 9cd2002..b099a7a 100644
--- a/lib/pkg_sign.c
+++ b/lib/pkg_sign.c
@@ -24,17 +24,17 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
     struct bpak_key *sign_key = NULL;
     uint8_t hash_output[BPAK_HASH_MAX_LENGTH];
     size_t hash_size = sizeof(hash_output);
+    struct bpak_header saved_header = pkg->header;
 
     rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-        return rc;
+        goto err_restore_out;
 
     rc = bpak_crypto_load_private_key(key_filename, &sign_key);
 
-    if (rc != BPAK_OK) {
-        return rc;
-    }
+    if (rc != BPAK_OK)
+        goto err_restore_out;
 
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
 
@@ -59,5 +59,8 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
 
 err_free_key_out:
     bpak_free(sign_key);
+err_restore_out:
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
     return rc;
 }
-- 
2.43.0


From 7677fe3eff9cd4fedd83e1caaaf2445ba1374b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 17/66] fix: keep the old signature when writing a raw
 signature fails

---
 lib/pkg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 4553954..4f4cb63 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -204,13 +204,21 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    struct bpak_header saved_header = pkg->header;
+
     if (size == 0 || size > sizeof(pkg->header.signature))
         return -BPAK_SIZE_ERROR;
 
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-    return bpak_pkg_write_header(pkg);
+
+    int rc = bpak_pkg_write_header(pkg);
+
+    if (rc != BPAK_OK)
+        pkg->header = saved_header;
+
+    return rc;
 }
 
 struct decode_private {
-- 
2.43.0


From 4a260fcc4d4511ac144fc06370a43c70c233a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 18/66] fix: loading a public key ignored errors and leaked the
 key context

---
 lib/mbedtls_wrapper.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..9d10ea4 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -175,6 +175,7 @@ int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
     rc = mbedtls_pk_parse_public_key(&ctx, key->data, key->size);
 
     if (rc != 0) {
+        mbedtls_pk_free(&ctx);
         return -BPAK_KEY_DECODE;
     }
 
@@ -279,7 +280,11 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     unsigned char tmp[1024];
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-    mbedtls_pk_parse_public_keyfile(&ctx, filename);
+
+    if (mbedtls_pk_parse_public_keyfile(&ctx, filename) != 0) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx;
+    }
 
     int len = mbedtls_pk_write_pubkey_der(&ctx, tmp, sizeof(tmp));
 
@@ -289,6 +294,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
@@ -320,6 +331,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
+    mbedtls_pk_free(&ctx);
     return BPAK_OK;
 
 err_free_key_out:
-- 
2.43.0


From d4292127ac4fd9ccc4e43a64ef7e9eb6f86fc844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 19/66] fix: keystore key buffer was too small for RSA-4096
 keys and not bounded

A longer part was read past the end of the buffer on the stack.
---
 lib/keystore_load_from_file.c | 7 ++++++-
 lib/mbedtls_wrapper.c         | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..8f56160 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -61,6 +61,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 9d10ea4..dc8d493 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -447,7 +447,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From 1d6e32f22f77cb3b980d8a43d75808640786bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 20/66] fix: the id zero named an unused entry of the part and
 metadata tables

Adding a part or value with an empty name reported success without any
effect, and deleting the part with that name removed all package metadata.
---
 lib/bpak.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index a4ae76f..f719523 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -19,7 +19,7 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
                              struct bpak_meta_header **meta)
 {
     bpak_foreach_meta (hdr, m) {
-        if (m->id == id) {
+        if (m->id == id && id != 0) {
             if (match_partref) {
                 if (m->part_id_ref != part_id_ref)
                     continue;
@@ -54,6 +54,10 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 {
     uint16_t new_offset = 0;
 
+    /* Zero marks an unused entry */
+    if (id == 0)
+        return -BPAK_FAILED;
+
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
             if ((new_offset + size) > BPAK_METADATA_BYTES)
@@ -110,7 +114,7 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
     bpak_foreach_part (hdr, p) {
-        if (p->id == id) {
+        if (p->id == id && id != 0) {
             (*part) = p;
             return BPAK_OK;
         }
@@ -122,6 +126,10 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT int bpak_add_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Zero marks an unused entry */
+    if (id == 0)
+        return -BPAK_FAILED;
+
     bpak_foreach_part (hdr, p) {
         if (!p->id) {
             p->id = id;
-- 
2.43.0


From c7eded3686eb049f96a5dd5d026bdde0be665686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 21/66] fix: the identity of origin and patch package was not
 compared

The decoder looked up the identity of the patch in the origin header, so any
origin was accepted, and the encoder crashed when an identity was missing.
---
 lib/transport_decode.c |  7 +++++--
 lib/transport_encode.c | 13 ++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..2a51fa8 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -160,6 +160,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     struct bpak_meta_header *meta;
     uint8_t *origin_package_uuid;
     uint8_t *patch_package_uuid;
+    uint16_t origin_uuid_length;
 
     ctx->origin_header = origin_header;
     ctx->read_origin = read_origin;
@@ -175,6 +176,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
         return rc;
 
     origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    origin_uuid_length = meta->size;
 
     rc = bpak_get_meta(ctx->patch_header,
                        BPAK_ID_BPAK_PACKAGE,
@@ -184,9 +186,10 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
-    if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
+    if (meta->size != origin_uuid_length ||
+        memcmp(origin_package_uuid, patch_package_uuid, meta->size) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
 
     return BPAK_OK;
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..a91daa3 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -361,6 +361,7 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
     if ((origin_fp != NULL) && (origin_header != NULL)) {
         uint8_t *origin_package_uuid;
         uint8_t *patch_package_uuid;
+        uint16_t origin_uuid_length;
 
         /* Origin and input package should have the same package-uuid */
         rc = bpak_get_meta(origin_header,
@@ -368,22 +369,24 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+        origin_uuid_length = meta->size;
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
-        if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
+        if (meta->size != origin_uuid_length ||
+            memcmp(origin_package_uuid, patch_package_uuid, meta->size) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
 
-- 
2.43.0


From cd2d46ff02eb350d99d3ea7514877fa907b3f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 22/66] fix: packages with parts that the origin doesn't have
 could not be updated

Only parts that are encoded as a difference need their origin part.
---
 lib/pkg.c              | 13 -------------
 lib/transport_decode.c | 12 +++++++++++-
 lib/transport_encode.c | 31 +++++++++----------------------
 3 files changed, 20 insertions(+), 36 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 4f4cb63..ed12c3f 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -285,7 +285,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     int rc;
 
     struct bpak_header *patch_header = bpak_pkg_header(input);
-    struct bpak_part_header *origin_part = NULL;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -343,18 +342,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         if (part->id == 0)
             break;
 
-        /* Compute origin and output offsets */
-        if (origin != NULL) {
-            rc = bpak_get_part(&origin->header, part->id, &origin_part);
-
-            if (rc != BPAK_OK) {
-                bpak_printf(0,
-                            "Error could not get part with ref %x\n",
-                            part->id);
-                goto err_out;
-            }
-        }
-
         rc = bpak_transport_decode_start(&decode_ctx, part);
 
         if (rc != BPAK_OK) {
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 2a51fa8..d945b03 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -200,6 +200,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
 {
     int rc;
     struct bpak_meta_header *meta = NULL;
+    struct bpak_part_header *origin_part = NULL;
     ssize_t bytes_written;
 
     bytes_written = ctx->write_output_header(0,
@@ -236,6 +237,15 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
             return -BPAK_PATCH_READ_ORIGIN_ERROR;
         }
 
+        rc = bpak_get_part(ctx->origin_header, part->id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part->id);
+            return rc;
+        }
+
         size_t patch_input_length = bpak_part_size(part);
         bpak_printf(2, "Patch input length: %zu\n", patch_input_length);
 
@@ -254,7 +264,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
         off_t output_offset = bpak_part_offset(ctx->patch_header, part) -
                               sizeof(struct bpak_header) + ctx->output_offset;
 
-        off_t origin_offset = bpak_part_offset(ctx->origin_header, part) -
+        off_t origin_offset = bpak_part_offset(ctx->origin_header, origin_part) -
                               sizeof(struct bpak_header) + ctx->origin_offset;
 
         rc = bpak_bspatch_init(&ctx->decoders.bspatch,
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index a91daa3..b673fb6 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -241,17 +241,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
         return rc;
     }
 
-    if (origin_header != NULL) {
-        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
-
-        if (rc != BPAK_OK) {
-            bpak_printf(0,
-                        "Error could not get part with ref %x\n",
-                        part_ref_id);
-            return rc;
-        }
-    }
-
     alg_id = tm->alg_id_encode;
     bpak_printf(2,
                 "Encoding part 0x%x using encoder 0x%x\n",
@@ -266,17 +255,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 "Initializing alg, input size %li bytes\n",
                 bpak_part_size(input_part));
 
-    if (origin_header != NULL && origin_fp != NULL) {
-        rc = fseek(origin_fp,
-                   bpak_part_offset(origin_header, origin_part),
-                   SEEK_SET);
-
-        if (rc != 0) {
-            bpak_printf(0, "%s: Error, could not seek origin stream", __func__);
-            return rc;
-        }
-    }
-
     rc = fseek(input_fp, bpak_part_offset(input_header, input_part), SEEK_SET);
 
     if (rc != BPAK_OK) {
@@ -303,6 +281,15 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
             goto err_out;
         }
 
+        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part_ref_id);
+            goto err_out;
+        }
+
         enum bpak_compression compression = BPAK_COMPRESSION_NONE;
 
         if (alg_id == BPAK_ID_BSDIFF)
-- 
2.43.0


From e258cb300c9441974629246bea82a6f11159d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 23/66] fix: encoding an encoded package dropped the data of
 its parts

---
 lib/transport_encode.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b673fb6..75c4b39 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -247,10 +247,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 part_ref_id,
                 alg_id);
 
-    /* Already processed for transport ?*/
-    if ((output_part->flags & BPAK_FLAG_TRANSPORT))
-        return BPAK_OK;
-
     bpak_printf(1,
                 "Initializing alg, input size %li bytes\n",
                 bpak_part_size(input_part));
@@ -384,7 +380,9 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
         if (ph->id == 0)
             break;
 
-        if (bpak_get_meta(input_header,
+        /* Parts that already are encoded for transport are copied */
+        if (!(ph->flags & BPAK_FLAG_TRANSPORT) &&
+            bpak_get_meta(input_header,
                           BPAK_ID_BPAK_TRANSPORT,
                           ph->id,
                           &meta) == BPAK_OK) {
-- 
2.43.0


From 4cf5cde53a2b0f90c7a63731c5fcdefbaa2fb89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 24/66] fix: encoding a truncated package read past the end of
 the mapped file

---
 lib/transport_encode.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 75c4b39..4b54f05 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -102,7 +102,7 @@ static ssize_t bsdiff_write_output(off_t offset, uint8_t *buffer, size_t length,
     ssize_t bytes_written = write(priv->fd, buffer, length);
 
     if (bytes_written < 0) {
-        return bytes_written;
+        return -BPAK_WRITE_ERROR;
     }
 
     if (bytes_written != (ssize_t)length) {
@@ -152,6 +152,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         return -BPAK_FAILED;
     }
 
+    if (target_offset > target_file_sz ||
+        target_length > (size_t)(target_file_sz - target_offset)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     /* Calculate pointer to where the needed data starts */
     target_data = target_data_mmap + target_offset;
 
@@ -178,6 +184,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
+    if (origin_offset > origin_file_sz ||
+        origin_length > (size_t)(origin_file_sz - origin_offset)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_origin;
+    }
+
     /* Calculate pointer to where the needed data starts */
     origin_data = origin_data_mmap + origin_offset;
 
-- 
2.43.0


From cb7f4da6b250e87167840488d78ec613782b47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 25/66] fix: transport encode and decode report errors of the
 final flush

---
 lib/pkg.c              | 9 +++++++--
 lib/transport_encode.c | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index ed12c3f..357cc20 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -335,7 +335,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     if (fseek(input->fp, sizeof(struct bpak_header), SEEK_SET) != 0) {
         bpak_printf(0, "%s: Error, could not seek input stream", __func__);
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_out;
     }
 
     bpak_foreach_part (patch_header, part) {
@@ -362,7 +363,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
             if (bytes_read != chunk_length) {
                 bpak_printf(0, "%s: bytes_read != chunk_length\n", __func__);
-                return -BPAK_READ_ERROR;
+                rc = -BPAK_READ_ERROR;
+                goto err_out;
             }
 
             rc = bpak_transport_decode_write_chunk(&decode_ctx,
@@ -392,6 +394,9 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         }
     }
 
+    if (fflush(output->fp) != 0)
+        rc = -BPAK_WRITE_ERROR;
+
 err_out:
     bpak_transport_decode_free(&decode_ctx);
     return rc;
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 4b54f05..74be144 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -441,9 +441,9 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
 
     written = fwrite(output_header, 1, sizeof(*output_header), output_fp);
 
-    if (written != sizeof(*output_header)) {
+    if (written != sizeof(*output_header) || fflush(output_fp) != 0) {
         bpak_printf(0, "Error: could not write header");
-        rc = -1;
+        rc = -BPAK_WRITE_ERROR;
     }
 
 err_out:
-- 
2.43.0


From b3bf5903105c2ff1930386599bbcbf1e580465d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 26/66] fix: the decompressor leaked when decoding failed

---
 lib/transport_decode.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index d945b03..e206d80 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -213,8 +213,11 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
     if (bytes_written != sizeof(struct bpak_header))
         return -BPAK_WRITE_ERROR;
 
+    /* Release what's left of a part that wasn't finished */
+    bpak_transport_decode_free(ctx);
+    memset(&ctx->decoders, 0, sizeof(ctx->decoders));
+
     ctx->part = part;
-    ctx->decoder_id = 0;
 
     /* Check if there is any transport meta data for this part in the header */
     if (part->flags & BPAK_FLAG_TRANSPORT) {
@@ -390,6 +393,15 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
 
 BPAK_EXPORT void bpak_transport_decode_free(struct bpak_transport_decode *ctx)
 {
-    /* Nothing to implement so far */
-    (void)ctx;
+    switch (ctx->decoder_id) {
+    case BPAK_ID_BSPATCH_NO_COMP:
+    case BPAK_ID_BSPATCH_LZMA:
+    case BPAK_ID_BSPATCH:
+        bpak_bspatch_free(&ctx->decoders.bspatch);
+        break;
+    default:
+        break;
+    }
+
+    ctx->decoder_id = 0;
 }
-- 
2.43.0


From 920fbabd4a8aa9978fc3e037957e2e9d5cdc41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 27/66] fix: decoding a copied part accepted too much or too
 little data

---
 lib/transport_decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index e206d80..9b138b6 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -315,6 +315,9 @@ bpak_transport_decode_write_chunk(struct bpak_transport_decode *ctx,
     } break;
     case 0: /* Copy data */
     {
+        if (length > bpak_part_size(ctx->part) - ctx->copy_offset)
+            return -BPAK_SIZE_ERROR;
+
         off_t write_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
                              sizeof(struct bpak_header) + ctx->output_offset +
                              ctx->copy_offset;
@@ -355,7 +358,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
         break;
 #endif
     case 0: /* Copy data */
-        output_length = bpak_part_size(ctx->part);
+        output_length = ctx->copy_offset;
         break;
     default:
         return -BPAK_NOT_SUPPORTED;
-- 
2.43.0


From 39a4c5dbf6ba37dcd64f84b13019dc184f74db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 28/66] fix: a damaged patch could read and write outside of
 its part

The patch decoder trusts the control data, which could move reads to other
parts of the origin and writes behind the part being decoded.
---
 include/bpak/transport.h |  4 ++++
 lib/transport_decode.c   | 51 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/include/bpak/transport.h b/include/bpak/transport.h
index 0146361..ab3ed4c 100644
--- a/include/bpak/transport.h
+++ b/include/bpak/transport.h
@@ -39,6 +39,10 @@ struct bpak_transport_decode {
     off_t copy_offset;
     off_t output_offset;
     off_t origin_offset;
+    off_t part_output_offset; /*!< Output region of the current part */
+    size_t part_output_length;
+    off_t part_origin_offset; /*!< Origin region of the current part */
+    size_t part_origin_length;
     union {
 #if BPAK_CONFIG_MERKLE == 1
         struct bpak_merkle_context merkle;
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 9b138b6..10738ce 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -195,6 +195,46 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     return BPAK_OK;
 }
 
+static bool in_region(off_t offset, size_t length, off_t region_offset,
+                      size_t region_length)
+{
+    if (offset < region_offset ||
+        (size_t)(offset - region_offset) > region_length)
+        return false;
+
+    return length <= region_length - (size_t)(offset - region_offset);
+}
+
+/* A patch may only read the origin part and write the output part that
+ * belong to it */
+static ssize_t part_read_origin(off_t offset, uint8_t *buffer, size_t length,
+                                void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+
+    if (!in_region(offset,
+                   length,
+                   ctx->part_origin_offset,
+                   ctx->part_origin_length))
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+
+    return ctx->read_origin(offset, buffer, length, ctx->user);
+}
+
+static ssize_t part_write_output(off_t offset, uint8_t *buffer, size_t length,
+                                 void *user)
+{
+    struct bpak_transport_decode *ctx = (struct bpak_transport_decode *)user;
+
+    if (!in_region(offset,
+                   length,
+                   ctx->part_output_offset,
+                   ctx->part_output_length))
+        return -BPAK_PATCH_WRITE_ERROR;
+
+    return ctx->write_output(offset, buffer, length, ctx->user);
+}
+
 BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                             struct bpak_part_header *part)
 {
@@ -270,16 +310,21 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
         off_t origin_offset = bpak_part_offset(ctx->origin_header, origin_part) -
                               sizeof(struct bpak_header) + ctx->origin_offset;
 
+        ctx->part_output_offset = output_offset;
+        ctx->part_output_length = part->size + part->pad_bytes;
+        ctx->part_origin_offset = origin_offset;
+        ctx->part_origin_length = bpak_part_size(origin_part);
+
         rc = bpak_bspatch_init(&ctx->decoders.bspatch,
                                ctx->buffer,
                                ctx->buffer_length,
                                patch_input_length,
-                               ctx->read_origin,
+                               part_read_origin,
                                origin_offset,
-                               ctx->write_output,
+                               part_write_output,
                                output_offset,
                                compression,
-                               ctx->user);
+                               ctx);
 
     } break;
 #if BPAK_CONFIG_MERKLE == 1
-- 
2.43.0


From 559a7bf87a8ef152a3ed802e0d06a482d58758d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 29/66] fix: a hash tree could be generated from data not
 decoded yet

Data behind the hash tree isn't available when the tree is generated and the
size of the tree wasn't known to match before it was written.
---
 lib/transport_decode.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 10738ce..99aaaa1 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -60,6 +60,22 @@ static ssize_t merkle_generate(struct bpak_transport_decode *ctx)
         return rc;
     }
 
+    /* The filesystem must be decoded before its hash tree */
+    if (fs_part >= ctx->part || (fs_part->flags & BPAK_FLAG_TRANSPORT)) {
+        bpak_printf(0, "Error: Hash tree is located before its data\n");
+        return -BPAK_NOT_SUPPORTED;
+    }
+
+    ssize_t tree_size = bpak_merkle_compute_size(bpak_part_size(fs_part));
+
+    if (tree_size < 0)
+        return tree_size;
+
+    if ((uint64_t)tree_size != ctx->part->size + ctx->part->pad_bytes) {
+        bpak_printf(0, "Error: Hash tree size doesn't match its data\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
     off_t output_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
                           sizeof(struct bpak_header) + ctx->output_offset;
 
-- 
2.43.0


From 104994ac36d266c301c6a4947e9401d3b32afe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 30/66] fix: bspatch accepted negative lengths and positions
 from a patch

A negative length was used as a huge read and never ended.
---
 lib/bspatch.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..996f214 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -89,6 +89,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if (ctx->diff_count < 0 || ctx->extra_count < 0) {
+            bpak_printf(0, "Error: Corrupt patch control data\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_SIZE_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
@@ -102,6 +109,12 @@ process_more:
         ctx->diff_count -= data_to_process;
         bytes_available -= data_to_process;
 
+        if (ctx->origin_position < 0) {
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_PATCH_READ_ORIGIN_ERROR;
+            break;
+        }
+
         ssize_t nread =
             ctx->read_origin(ctx->origin_offset + ctx->origin_position,
                              ctx->patch_buffer,
@@ -387,7 +400,7 @@ BPAK_EXPORT int bpak_bspatch_init(struct bpak_bspatch_context *ctx,
 
     memset(ctx, 0, sizeof(*ctx));
 
-    if (buffer_length % 2 != 0)
+    if (buffer_length < 2 || buffer_length % 2 != 0)
         return -BPAK_SIZE_ERROR;
 
     ctx->patch_buffer = &buffer[0];
-- 
2.43.0


From 1a056d2ac03340c1212f7b97c303b65b7d02cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 31/66] fix: LZMA streams mixed up allocators and leaked on
 errors

Memory was allocated with malloc and released with the replaceable allocator,
and a failed allocation of the stream was used before it was checked.
---
 lib/bsdiff.c  | 18 +++++++++++-------
 lib/bspatch.c |  4 ++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..87e7cf5 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -326,6 +326,8 @@ static int hs_compressor_final(struct bpak_bsdiff_context *ctx)
     return BPAK_OK;
 }
 
+static void compressor_free(struct bpak_bsdiff_context *ctx);
+
 static int compressor_init(struct bpak_bsdiff_context *ctx)
 {
     switch (ctx->compression) {
@@ -343,11 +345,16 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *stream;
         stream = bpak_calloc(sizeof(lzma_stream), 1);
+
+        if (stream == NULL)
+            return -BPAK_FAILED;
+
+        stream->allocator = &lzma_alloc;
         ctx->compressor_priv = stream;
 
         lzma_options_lzma opt_lzma2;
         if (lzma_lzma_preset(&opt_lzma2, LZMA_PRESET_DEFAULT)) {
-            bpak_free(stream);
+            compressor_free(ctx);
             return -BPAK_COMPRESSOR_ERROR;
         }
 
@@ -359,13 +366,10 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
 
         lzma_ret ret = lzma_stream_encoder(stream, filters, LZMA_CHECK_CRC64);
 
-        if (ret != LZMA_OK)
+        if (ret != LZMA_OK) {
+            compressor_free(ctx);
             return -BPAK_COMPRESSOR_ERROR;
-
-        if (stream == NULL)
-            return -BPAK_FAILED;
-
-        stream->allocator = &lzma_alloc;
+        }
     } break;
 #endif
     default:
diff --git a/lib/bspatch.c b/lib/bspatch.c
index 996f214..023ab3b 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -233,14 +233,14 @@ static int decompressor_init(struct bpak_bspatch_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *strm = &ctx->decompressor.lzma_stream;
 
+        strm->allocator = &lzma_alloc;
+
         lzma_ret ret = lzma_stream_decoder(strm, UINT64_MAX, LZMA_CONCATENATED);
 
         if (ret != LZMA_OK) {
             bpak_printf(0, "lzma init error (%u)\n", ret);
             return -BPAK_DECOMPRESSOR_ERROR;
         }
-
-        strm->allocator = &lzma_alloc;
     } break;
 #endif
     default:
-- 
2.43.0


From d8499611b7fe9f98410017833c92cc2876232bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 32/66] fix: bsdiff read past the end of the suffix array

---
 lib/bsdiff.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index 87e7cf5..f3250dc 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -629,7 +629,8 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    ctx->suffix_array = bpak_calloc(origin_length, sizeof(int64_t));
+    /* The search uses the empty suffix, after the last one, as a limit */
+    ctx->suffix_array = bpak_calloc(origin_length + 1, sizeof(int64_t));
 
     if (!ctx->suffix_array) {
         rc = -BPAK_FAILED;
@@ -650,6 +651,8 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
         goto err_free_suffix_array_out;
     }
 
+    ctx->suffix_array[origin_length] = origin_length;
+
     bpak_printf(2, "Init done\n");
     return BPAK_OK;
 
-- 
2.43.0


From c54dc0d0ba2da19c2e300d4a002afce2aeaf71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 33/66] fix: bpak set ignored errors when writing the package

An unknown encoder was reported but the header was still written, the
result of fclose was ignored and so was the result of malloc.
---
 src/set.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/set.c b/src/set.c
index b6adc80..c8befb7 100644
--- a/src/set.c
+++ b/src/set.c
@@ -110,6 +110,9 @@ int action_set(int argc, char **argv)
     FILE *fp = NULL;
     struct bpak_header *h = malloc(sizeof(struct bpak_header));
 
+    if (h == NULL)
+        return -BPAK_FAILED;
+
     fp = fopen(filename, "r+");
 
     if (fp == NULL) {
@@ -159,6 +162,12 @@ int action_set(int argc, char **argv)
                 }
 
                 struct bpak_header *tmp_header = malloc(sizeof(struct bpak_header));
+
+                if (tmp_header == NULL) {
+                    rc = -BPAK_FAILED;
+                    goto err_close_fp_out;
+                }
+
                 memcpy(tmp_header, h, sizeof(struct bpak_header));
 
                 struct bpak_meta_header *meta_tmp = NULL;
@@ -169,6 +178,7 @@ int action_set(int argc, char **argv)
                      * internal bugs
                      */
                     fprintf(stderr, "FATAL ERROR");
+                    free(tmp_header);
                     goto err_close_fp_out;
                 }
 
@@ -227,6 +237,7 @@ int action_set(int argc, char **argv)
         } else {
             rc = -BPAK_FAILED;
             fprintf(stderr, "Error: Unknown encoder\n");
+            goto err_close_fp_out;
         }
     } else if (key_id_flag || keystore_id_flag) {
 
@@ -261,7 +272,8 @@ int action_set(int argc, char **argv)
     }
 
 err_close_fp_out:
-    fclose(fp);
+    if (fclose(fp) != 0 && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
 err_free_header_out:
     free(h);
     return rc;
-- 
2.43.0


From 34fd0107c2dd1cb9f2f2e2c6ffca712727bd6144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 34/66] fix: bpak add truncated metadata and ignored read
 errors

Metadata from a file was silently cut at 1920 bytes, read errors were
ignored and the encoders could read past the end of the buffer. Adding a
part without --from-file passed NULL as filename, and errors from closing
the package were ignored.
---
 src/add.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/add.c b/src/add.c
index f920938..8f2bdc1 100644
--- a/src/add.c
+++ b/src/add.c
@@ -28,7 +28,7 @@ int action_add(int argc, char **argv)
     int opt;
     int long_index = 0;
     uint32_t flags = 0;
-    char metadata_input[BPAK_METADATA_BYTES] = { 0 };
+    char metadata_input[BPAK_METADATA_BYTES + 1] = { 0 };
     size_t metadata_input_length = 0;
     const char *filename = NULL;
     const char *part_name = NULL;
@@ -122,6 +122,11 @@ int action_add(int argc, char **argv)
         return -1;
     }
 
+    if (!meta_name && !from_file) {
+        fprintf(stderr, "Error: A part can only be added with --from-file\n");
+        return -1;
+    }
+
     struct bpak_package pkg;
 
     rc = bpak_pkg_open(&pkg, filename, "r+");
@@ -143,7 +148,7 @@ int action_add(int argc, char **argv)
 
         if (from_string) {
             metadata_input_length = strlen(from_string) + 1;
-            if (metadata_input_length > sizeof(metadata_input)) {
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
                 rc = -BPAK_NO_SPACE_LEFT;
                 goto err_close_pkg_out;
             }
@@ -159,8 +164,21 @@ int action_add(int argc, char **argv)
             metadata_input_length = fread(metadata_input, 1,
                                     sizeof(metadata_input), meta_in_fp);
 
+            if (ferror(meta_in_fp)) {
+                fclose(meta_in_fp);
+                fprintf(stderr, "Error: Could not read '%s'\n", from_file);
+                rc = -BPAK_READ_ERROR;
+                goto err_close_pkg_out;
+            }
+
             fclose(meta_in_fp);
 
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
+                fprintf(stderr, "Error: '%s' is too big\n", from_file);
+                rc = -BPAK_NO_SPACE_LEFT;
+                goto err_close_pkg_out;
+            }
+
             if (metadata_input_length == 0) {
                 fprintf(stderr, "Error: Read zero bytes\n");
                 rc = -BPAK_FAILED;
@@ -168,6 +186,9 @@ int action_add(int argc, char **argv)
             }
         }
 
+        /* The encoders expect a string */
+        metadata_input[BPAK_METADATA_BYTES] = '\0';
+
         if (encoder) {
             if (strcmp(encoder, "uuid") == 0) {
                 uuid_t uu;
@@ -195,7 +216,7 @@ int action_add(int argc, char **argv)
                 memcpy(meta_data, uu, 16);
 
                 if (bpak_get_verbosity()) {
-                    printf("Adding %s <%s>\n", meta_name, from_string);
+                    printf("Adding %s <%s>\n", meta_name, metadata_input);
                 }
             } else if (strcmp(encoder, "integer") == 0) {
                 char *endptr = NULL;
@@ -302,6 +323,8 @@ int action_add(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
+
     return rc;
 }
-- 
2.43.0


From 301369a4e4c0e6b49f72dfc1b9aea152bda450f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 35/66] fix: bpak sign ignored errors

Errors when reading the signature file and when closing the package were
ignored and a missing key argument was passed on as NULL.
---
 src/sign.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sign.c b/src/sign.c
index e09c8c9..76ca1b1 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -75,6 +75,11 @@ int action_sign(int argc, char **argv)
         return -1;
     }
 
+    if (!signature_file && !key_source) {
+        fprintf(stderr, "Error: Either a key or a signature is needed\n");
+        return -1;
+    }
+
     rc = bpak_pkg_open(&pkg, filename, "r+");
 
     if (rc != BPAK_OK) {
@@ -94,6 +99,12 @@ int action_sign(int argc, char **argv)
         }
         size = fread(sig, 1, sizeof(sig), sig_fp);
 
+        if (ferror(sig_fp)) {
+            fclose(sig_fp);
+            rc = -BPAK_READ_ERROR;
+            goto err_out;
+        }
+
         fclose(sig_fp);
         if (bpak_get_verbosity()) {
             printf("Loaded signature %zu bytes\n", size);
@@ -111,7 +122,9 @@ int action_sign(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
+
     return rc;
 }
 
-- 
2.43.0


From 191f4da469cf5305b5fbb0d1961f43b9a70d5897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 36/66] fix: bpak create, delete and extract ignored errors
 from close

---
 src/create.c  | 4 +++-
 src/delete.c  | 4 +++-
 src/extract.c | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/create.c b/src/create.c
index 32ead64..3189b8e 100644
--- a/src/create.c
+++ b/src/create.c
@@ -148,6 +148,8 @@ int action_create(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
+
     return rc;
 }
diff --git a/src/delete.c b/src/delete.c
index 88d917e..ab323e1 100644
--- a/src/delete.c
+++ b/src/delete.c
@@ -100,7 +100,9 @@ int action_delete(int argc, char **argv)
         rc = bpak_pkg_delete_part(&pkg, part_id, !keep_metadata);
     }
 
-    bpak_pkg_close(&pkg);
+    if (bpak_pkg_close(&pkg) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
+
     return rc;
 
 }
diff --git a/src/extract.c b/src/extract.c
index 12923f8..8c22214 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -149,7 +149,10 @@ int action_extract(int argc, char **argv)
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK) {
+            fprintf(stderr, "Error: write error\n");
+            rc = -BPAK_WRITE_ERROR;
+        }
     }
 err_close_pkg_out:
     bpak_pkg_close(&pkg);
-- 
2.43.0


From fc0739e7c4cb3a30596055a0ee6279202a002313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 37/66] fix: bpak transport used an uninitialised origin and
 never closed output

Without --origin an uninitialised struct was passed to the library. The
output was not closed, so that errors of the last write were lost.
---
 src/transport.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 8b1a6c2..052cfc7 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -114,6 +114,7 @@ int action_transport(int argc, char **argv)
     struct bpak_package input;
     struct bpak_package output;
     struct bpak_package origin;
+    bool output_open = false;
 
     rc = bpak_pkg_open(&input, filename, "rb+");
 
@@ -127,6 +128,7 @@ int action_transport(int argc, char **argv)
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
+            bpak_pkg_close(&input);
             return rc;
         }
     }
@@ -146,15 +148,20 @@ int action_transport(int argc, char **argv)
                     output_file);
             goto err_out;
         }
+
+        output_open = true;
     }
 
     if (encode_flag) {
-        rc = bpak_pkg_transport_encode(&input, &output, &origin);
+        rc = bpak_pkg_transport_encode(&input,
+                                       &output,
+                                       origin_file ? &origin : NULL);
     } else if (decode_flag) {
         rc = bpak_pkg_transport_decode(
             &input, /* Input package or 'patch' */
             &output,
-            &origin); /* Origin data to use for patch operation*/
+            origin_file ? &origin : NULL); /* Origin data to use for patch
+                                              operation*/
     } else if (add_flag && encoder_alg && decoder_alg) {
         rc = bpak_add_transport_meta(&input.header,
                                      part_ref,
@@ -177,7 +184,13 @@ int action_transport(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&input);
+    if (output_open) {
+        if (bpak_pkg_close(&output) != BPAK_OK && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
+    }
+
+    if (bpak_pkg_close(&input) != BPAK_OK && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
 
     if (origin_file) {
         bpak_pkg_close(&origin);
-- 
2.43.0


From 3a45bc3109c3707450bd18686a879cb0b056922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 38/66] fix: report when the output of a command could not be
 written

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index e2ebaab..a2cc234 100644
--- a/src/main.c
+++ b/src/main.c
@@ -124,6 +124,10 @@ int main(int argc, char **argv)
         return -1;
     }
 
+    /* What could not be printed must not be reported as success */
+    if ((fflush(stdout) != 0 || ferror(stdout)) && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
+
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: %s (%i)\n", bpak_error_string(rc), rc);
     }
-- 
2.43.0


From e592a076124dbd337ed013a877894c847376198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 39/66] fix: bpak_bin2hex wrote past the end of the buffer

The terminating NUL was not accounted for, and the size was checked after
writing. The hash of a SHA-512 package overflowed in bpak show and salts
and root hashes of hash trees did in bpak compare.
---
 lib/utils.c   | 10 ++++------
 src/compare.c |  2 +-
 src/show.c    |  2 +-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..8ad75e3 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,20 +25,18 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two digits per byte and a terminating NUL */
+    if (buf_sz == 0 || data_sz > (buf_sz - 1) / 2)
+        return -1;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-
-        if (n > buf_sz)
-            return -1;
     }
 
     buf[n] = 0;
diff --git a/src/compare.c b/src/compare.c
index b550cd3..0220143 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -120,7 +120,7 @@ int action_compare(int argc, char **argv)
     printf("-   : Exists in file 1 but not in file 2\n");
     printf("*   : Exists in both but data differs\n\n");
 
-    char string_output[64];
+    char string_output[128];
     struct bpak_header *h1p = &h1;
     struct bpak_header *h2p = &h2;
     struct bpak_meta_header *meta = NULL;
diff --git a/src/show.c b/src/show.c
index 4a6b859..765ef3c 100644
--- a/src/show.c
+++ b/src/show.c
@@ -37,7 +37,7 @@ int action_show(int argc, char **argv)
     bpak_id_t part_id = 0;
     bpak_id_t part_hash_id = 0;
     bpak_id_t meta_id = 0;
-    char hash_str[128];
+    char hash_str[2 * BPAK_HASH_MAX_LENGTH + 1];
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
-- 
2.43.0


From 9b95868194af53a6fb6bdd886e7ec9583d7b3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 40/66] fix: bpak_meta_to_string read past short values

Values were read without looking at their size, a version string was not
terminated, and on errors the text of the previous value was left in the
buffer and shown again.
---
 lib/utils.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index 8ad75e3..a00fd15 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -54,6 +54,28 @@ BPAK_EXPORT int bpak_uuid_to_string(const uint8_t *data, char *buf, size_t size)
     return BPAK_OK;
 }
 
+/* The least a value must contain to be shown as what its id stands for */
+static size_t meta_min_size(bpak_id_t id)
+{
+    switch (id) {
+    case BPAK_ID_BPAK_KEY_ID:
+    case BPAK_ID_BPAK_KEY_STORE:
+    case BPAK_ID_KEYSTORE_PROVIDER_ID:
+        return sizeof(bpak_id_t);
+    case BPAK_ID_BPAK_PACKAGE:
+        return 16;
+    case BPAK_ID_BPAK_TRANSPORT:
+        return sizeof(struct bpak_transport_meta);
+    case BPAK_ID_MERKLE_SALT:
+    case BPAK_ID_MERKLE_ROOT_HASH:
+        return 32;
+    case BPAK_ID_PB_LOAD_ADDR:
+        return sizeof(uint64_t);
+    default:
+        return 0;
+    }
+}
+
 BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                                     struct bpak_meta_header *m, char *buf,
                                     size_t size)
@@ -61,6 +83,14 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
 
+    if (size == 0)
+        return -BPAK_SIZE_ERROR;
+
+    *buf = 0;
+
+    if (m->size < meta_min_size(m->id))
+        return -BPAK_SIZE_ERROR;
+
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "%" PRIx32, *id_ptr);
@@ -91,10 +121,11 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
 
-        if (m->size > size)
+        if (m->size >= size)
             return -BPAK_SIZE_ERROR;
 
         memcpy(buf, byte_ptr, m->size);
+        buf[m->size] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-- 
2.43.0


From c9892a88fe891c4df50fe2078aa20fa729aabb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 41/66] fix: bpak show printed garbage when the hash could not
 be computed

---
 src/show.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/show.c b/src/show.c
index 765ef3c..10fe3a9 100644
--- a/src/show.c
+++ b/src/show.c
@@ -113,7 +113,7 @@ int action_show(int argc, char **argv)
     rc = bpak_valid_header(h);
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Invalid BPAK header\n");
-        return rc;
+        goto err_pkg_close;
     }
 
     memset(string_output, 0, sizeof(string_output));
@@ -137,7 +137,7 @@ int action_show(int argc, char **argv)
         }
 
         if (rc != BPAK_OK) {
-            printf("Error: Could not find meta '%s'\n", meta_name);
+            fprintf(stderr, "Error: Could not find meta '%s'\n", meta_name);
         }
 
         goto err_pkg_close;
@@ -189,7 +189,10 @@ int action_show(int argc, char **argv)
         goto err_pkg_close;
     } else if (text_hash_output) {
         hash_size = sizeof(hash_output);
-        bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+        rc = bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+
+        if (rc != BPAK_OK)
+            goto err_pkg_close;
 
         for (unsigned int i = 0; i < hash_size; i++)
             printf("%2.2x", hash_output[i] & 0xFF);
-- 
2.43.0


From ebfca57ea39145eb44e00bd788c96ccc5d2553e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 42/66] fix: bpak compare crashed on and misreported
 differences

A value missing in the second file dereferenced NULL, sizes of values were
not compared, parts of different size aborted the comparison, parts only
in the second file were shown as removed and the exit status depended on
what was missing last. Errors from seeking ended only one of the loops.
---
 src/compare.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index 0220143..8fc16ba 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -154,15 +154,16 @@ int action_compare(int argc, char **argv)
         if (rc != BPAK_OK)
             removed = true;
 
-        data2 = bpak_get_meta_ptr(h2p, meta, char);
+        if (rc == BPAK_OK) {
+            data2 = bpak_get_meta_ptr(h2p, meta, char);
 
-        if (!data1 || !data2) {
-            removed = true;
-        } else if (rc == BPAK_OK) {
-            if (memcmp(data1, data2, m->size) != 0)
+            if (meta->size != m->size ||
+                memcmp(data1, data2, m->size) != 0)
                 change = true;
         }
 
+        rc = BPAK_OK;
+
         if (change) {
             printf(RED_CLR);
             printf("*");
@@ -207,6 +208,8 @@ int action_compare(int argc, char **argv)
                    string_output);
             printf(NO_CLR);
         }
+
+        rc = BPAK_OK;
     }
 
     /* Compare parts */
@@ -228,6 +231,7 @@ int action_compare(int argc, char **argv)
 
             if (rc != BPAK_OK) {
                 removed = true;
+                rc = BPAK_OK;
             } else {
                 /* Check if metadata is the same */
                 if (memcmp(p2, p, sizeof(*p)) != 0)
@@ -239,7 +243,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 rc = fseek(fp2, bpak_part_offset(h2p, p2), SEEK_SET);
@@ -247,11 +251,16 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 size_t data_to_compare = bpak_part_size(p);
 
+                if (bpak_part_size(p2) != data_to_compare) {
+                    change = true;
+                    data_to_compare = 0;
+                }
+
                 while (data_to_compare) {
                     size_t chunk = (data_to_compare > sizeof(chunk1))
                                        ? sizeof(chunk1)
@@ -317,8 +326,9 @@ int action_compare(int argc, char **argv)
             rc = bpak_get_part(h1p, p->id, &p1);
 
             if (rc != BPAK_OK) {
+                rc = BPAK_OK;
                 printf(RED_YL);
-                printf("-");
+                printf("+");
 
                 if (p->flags & BPAK_FLAG_EXCLUDE_FROM_HASH)
                     flags_str[0] = 'h';
-- 
2.43.0


From 2d163fe1b96ada65f3f6b1b6abe81ec5e12b1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 43/66] fix: bpak generate keystore did not check its input

The size of the provider id and the result of strdup were not checked.
Keys are read from where the rest of the code reads parts.
---
 src/generate.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 44da58f..f838a99 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -149,6 +149,12 @@ int action_generate(int argc, char **argv)
             goto err_free_io_out;
         }
 
+        if (meta->size < sizeof(*keystore_provider_id)) {
+            fprintf(stderr, "Error: Invalid keystore-provider-id meta\n");
+            rc = -BPAK_SIZE_ERROR;
+            goto err_free_io_out;
+        }
+
         keystore_provider_id = bpak_get_meta_ptr(h, meta, uint32_t);
 
         int key_index = 0;
@@ -163,6 +169,11 @@ int action_generate(int argc, char **argv)
 
         char *keystore_name_copy = strdup(keystore_name);
 
+        if (keystore_name_copy == NULL) {
+            rc = -BPAK_FAILED;
+            goto err_free_io_out;
+        }
+
         for (unsigned int i = 0; i < strlen(keystore_name); i++) {
             if (keystore_name[i] == '-')
                 keystore_name_copy[i] = '_';
@@ -184,7 +195,7 @@ int action_generate(int argc, char **argv)
             printf("    .id = 0x%x,\n", p->id);
             printf("    .size = %"PRIu64",\n", p->size);
 
-            if (fseek(fp, p->offset, SEEK_SET) != 0) {
+            if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
                 rc = -BPAK_SEEK_ERROR;
                 goto err_free_keystore_name;
             }
-- 
2.43.0


From e4c90f4dc44aedf86b7327a1c8f978e154af2350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 44/66] fix: keys on unsupported 256-bit curves passed as
 prime256v1

Only the size of an EC key was looked at, so that e.g. a secp256k1 key was
accepted as, and stored and signed with as, a prime256v1 key.
---
 lib/mbedtls_wrapper.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index dc8d493..9bf644c 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -274,6 +274,26 @@ err_free_crypto_ctx_out:
     return rc;
 }
 
+#ifndef MBEDTLS_PRIVATE
+#define MBEDTLS_PRIVATE(member) member
+#endif
+
+/* The size alone does not tell which curve a key belongs to */
+static bool is_supported_curve(const mbedtls_pk_context *ctx)
+{
+    if (strcmp(mbedtls_pk_get_name(ctx), "EC") != 0)
+        return false;
+
+    switch (mbedtls_pk_ec(*ctx)->MBEDTLS_PRIVATE(grp).id) {
+    case MBEDTLS_ECP_DP_SECP256R1:
+    case MBEDTLS_ECP_DP_SECP384R1:
+    case MBEDTLS_ECP_DP_SECP521R1:
+        return true;
+    default:
+        return false;
+    }
+}
+
 int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 {
     int rc = BPAK_OK;
@@ -302,7 +322,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     key->size = len;
 
-    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
+    if (is_supported_curve(&ctx)) {
         switch (mbedtls_pk_get_bitlen(&ctx)) {
         case 256:
             key->kind = BPAK_KEY_PUB_PRIME256v1;
@@ -395,7 +415,7 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
 
     key->size = len;
 
-    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
+    if (is_supported_curve(&ctx)) {
         switch (mbedtls_pk_get_bitlen(&ctx)) {
         case 256:
             key->kind = BPAK_KEY_PRI_PRIME256v1;
@@ -459,7 +479,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
         goto err_free_ctx_out;
     }
 
-    if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
+    if (is_supported_curve(&ctx)) {
         switch (mbedtls_pk_get_bitlen(&ctx)) {
         case 256:
             kind = BPAK_KEY_PUB_PRIME256v1;
-- 
2.43.0


From af8dc363a10b276c76b1e7ac92c5b93b6ee5820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 45/66] fix: decoding a package without parts lost its header

Nothing was written for a package without parts, so that the result was the
empty header from opening the output instead of the one of the input.
---
 lib/pkg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 357cc20..7941fd5 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -339,6 +339,18 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         goto err_out;
     }
 
+    /* The decoder writes the header together with the first part */
+    if (patch_header->parts[0].id == 0) {
+        if (decode_write_output_header(0,
+                                       (uint8_t *)patch_header,
+                                       sizeof(*patch_header),
+                                       &decode_private) !=
+            sizeof(*patch_header)) {
+            rc = -BPAK_WRITE_ERROR;
+            goto err_out;
+        }
+    }
+
     bpak_foreach_part (patch_header, part) {
         if (part->id == 0)
             break;
-- 
2.43.0


From 17ee8d6a5c16ed218c71ad6220cc1a9fb8b9baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 46/66] fix: bsdiff output: a partial write is not an error

---
 lib/transport_encode.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 74be144..765d50e 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -99,15 +99,22 @@ static ssize_t bsdiff_write_output(off_t offset, uint8_t *buffer, size_t length,
         return -BPAK_SEEK_ERROR;
     }
 
-    ssize_t bytes_written = write(priv->fd, buffer, length);
+    size_t bytes_written = 0;
 
-    if (bytes_written < 0) {
-        return -BPAK_WRITE_ERROR;
-    }
+    /* write() may legally transfer less than requested */
+    while (bytes_written < length) {
+        ssize_t rc =
+            write(priv->fd, &buffer[bytes_written], length - bytes_written);
+
+        if (rc < 0 && errno == EINTR)
+            continue;
+
+        if (rc <= 0) {
+            bpak_printf(0, "Error: bsdiff_write_output write\n");
+            return -BPAK_WRITE_ERROR;
+        }
 
-    if (bytes_written != (ssize_t)length) {
-        bpak_printf(0, "Error: bsdiff_write_output write\n");
-        return -BPAK_WRITE_ERROR;
+        bytes_written += rc;
     }
 
     return bytes_written;
-- 
2.43.0


From c65553350d26b548f6eed636985f7533c9a0f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 47/66] fix: reading commands opened packages for writing

---
 src/extract.c   | 2 +-
 src/sign.c      | 2 +-
 src/transport.c | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 8c22214..6a33092 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -95,7 +95,7 @@ int action_extract(int argc, char **argv)
 
     struct bpak_package pkg;
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/sign.c b/src/sign.c
index 76ca1b1..36983eb 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -183,7 +183,7 @@ int action_verify(int argc, char **argv)
         return -1;
     }
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/transport.c b/src/transport.c
index 052cfc7..bf92721 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -116,7 +116,8 @@ int action_transport(int argc, char **argv)
     struct bpak_package origin;
     bool output_open = false;
 
-    rc = bpak_pkg_open(&input, filename, "rb+");
+    /* Only adding meta data modifies the input package */
+    rc = bpak_pkg_open(&input, filename, add_flag ? "rb+" : "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package %s\n", filename);
@@ -124,7 +125,7 @@ int action_transport(int argc, char **argv)
     }
 
     if (origin_file) {
-        rc = bpak_pkg_open(&origin, origin_file, "rb+");
+        rc = bpak_pkg_open(&origin, origin_file, "rb");
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
-- 
2.43.0


From 5bb911c5e2528a3992b2d1a4804ff14cafe8cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 48/66] fix: using a closed package through the Python binding
 crashed

---
 python/meta.c           |  32 +++++++++++++
 python/package.c        | 102 ++++++++++++++++++++++++++++++++++++++++
 python/part.c           |  28 +++++++++++
 python/python_wrapper.c |  10 ++++
 python/python_wrapper.h |   2 +
 5 files changed, 174 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index 21f34cd..4a00cd7 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -38,6 +38,10 @@ static PyObject *meta_repr(PyObject *self)
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (package_check_open(meta->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -65,6 +69,10 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
+    if (package_check_open(meta->package) < 0) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -116,6 +124,10 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
+    if (package_check_open(meta->package) < 0) {
+        return -1;
+    }
+
     if (value != Py_None) {
         if (!PyLong_Check(value)) {
             PyErr_SetString(PyExc_TypeError, "type mismatch");
@@ -160,6 +172,10 @@ static PyObject *meta_get_size(PyObject *self, void* closure)
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (package_check_open(meta->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -177,6 +193,10 @@ static PyObject *meta_get_rawdata(PyObject *self, void* closure)
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (package_check_open(meta->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -194,6 +214,10 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (package_check_open(meta->package) < 0) {
+        return -1;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -290,6 +314,10 @@ static PyObject *meta_as_string(PyObject *self, PyObject *Py_UNUSED(ignored))
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (package_check_open(meta->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -312,6 +340,10 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (package_check_open(meta->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
diff --git a/python/package.c b/python/package.c
index c30fbcd..b1786f0 100644
--- a/python/package.c
+++ b/python/package.c
@@ -9,6 +9,16 @@
 
 #include "python_wrapper.h"
 
+int package_check_open(BPAKPackage *package)
+{
+    if (package->pkg.fp == NULL) {
+        PyErr_SetString(BPAKPackageError, "package is closed");
+        return -1;
+    }
+
+    return 0;
+}
+
 int package_write_header(BPAKPackage *package, bool update_hash)
 {
     int rc = 0;
@@ -111,6 +121,10 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
+    if (package_check_open(self) < 0) {
+        return NULL;
+    }
+
     PyObject *filename_ascii = PyUnicode_AsASCIIString(verify_key_filename);
     if (!filename_ascii) {
         return NULL;
@@ -154,6 +168,10 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     PyObject *filename_ascii = PyUnicode_AsASCIIString(sign_key_filename);
     if (!filename_ascii) {
         return NULL;
@@ -195,6 +213,10 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
     if (!filename_ascii) {
         return NULL;
@@ -246,6 +268,10 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
     if (!filename_ascii) {
         return NULL;
@@ -295,6 +321,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     if (!data && size < 0) {
         return PyErr_Format(PyExc_TypeError, "must specify either initial data or size");
     }
@@ -389,6 +419,10 @@ static PyObject *package_get_part(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part_id, &part);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get part: %s",
@@ -419,6 +453,10 @@ static PyObject *package_get_meta(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta_id, part_ref, &meta);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -430,6 +468,10 @@ static PyObject *package_get_meta(PyObject *self, PyObject *args, PyObject *kwds
 
 static PyObject *package_enter(PyObject *self, PyObject *Py_UNUSED(args))
 {
+    if (package_check_open((BPAKPackage *)self) < 0) {
+        return NULL;
+    }
+
     Py_INCREF(self);
 
     return self;
@@ -450,6 +492,10 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
     char digest_data[128];
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     size_t hash_size = sizeof(digest_data);
 
     if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
@@ -464,6 +510,10 @@ static PyObject *package_get_hash_kind(PyObject *self, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return PyLong_FromLong(h->hash_kind);
 }
 
@@ -475,6 +525,10 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -504,6 +558,10 @@ static PyObject *package_get_key_id(PyObject *self, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return PyLong_FromLong(h->key_id);
 }
 
@@ -515,6 +573,10 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -544,6 +606,10 @@ static PyObject *package_get_keystore_id(PyObject *self, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return PyLong_FromLong(h->keystore_id);
 }
 
@@ -555,6 +621,10 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -583,6 +653,10 @@ static PyObject *package_get_signature(PyObject *self, void *closure)
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return Py_BuildValue("y#",
                          package->pkg.header.signature,
                          package->pkg.header.signature_sz);
@@ -599,6 +673,10 @@ static int package_set_signature(PyObject *self, PyObject *value,
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (package_check_open(package) < 0) {
+        return -1;
+    }
+
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
         bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
@@ -633,6 +711,10 @@ static PyObject *package_get_signature_kind(PyObject *self, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return PyLong_FromLong(h->signature_kind);
 }
 
@@ -644,6 +726,10 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (package_check_open(package) < 0) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -671,6 +757,10 @@ static PyObject *package_get_size(PyObject *self, void *closure)
 {
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return PyLong_FromLong(bpak_pkg_size(&package->pkg));
 }
 
@@ -678,6 +768,10 @@ static PyObject *package_get_installed_size(PyObject *self, void *closure)
 {
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     return PyLong_FromLong(bpak_pkg_installed_size(&package->pkg));
 }
 
@@ -691,6 +785,10 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
     PyObject *part = NULL;
     int rc;
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     list = PyList_New(0);
     if (!list) {
         return NULL;
@@ -732,6 +830,10 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
     PyObject *meta = NULL;
     int rc;
 
+    if (package_check_open(package) < 0) {
+        return NULL;
+    }
+
     list = PyList_New(0);
     if (!list) {
         return NULL;
diff --git a/python/part.c b/python/part.c
index 0a30d97..f5f28f0 100644
--- a/python/part.c
+++ b/python/part.c
@@ -37,6 +37,10 @@ static PyObject *part_repr(PyObject *self)
     struct bpak_part_header *p;
     int rc = 0;
 
+    if (package_check_open(part->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -64,6 +68,10 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
 
+    if (package_check_open(part->package) < 0) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -105,6 +113,10 @@ static PyObject *part_get_size(PyObject *self, void *closure)
     struct bpak_part_header *p;
     int rc = 0;
 
+    if (package_check_open(part->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -122,6 +134,10 @@ static PyObject *part_get_offset(PyObject *self, void *closure)
     struct bpak_part_header *p;
     int rc = 0;
 
+    if (package_check_open(part->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -139,6 +155,10 @@ static PyObject *part_is_transport_encoded(PyObject *self, void *closure)
     struct bpak_part_header *p;
     int rc = 0;
 
+    if (package_check_open(part->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -160,6 +180,10 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     PyObject *bytes;
     int rc = 0;
 
+    if (package_check_open(part->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -196,6 +220,10 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     BPAKPart *part = (BPAKPart *)self;
     int rc;
 
+    if (package_check_open(part->package) < 0) {
+        return NULL;
+    }
+
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 161b48e..cf0d9f7 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -83,6 +83,11 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (package_check_open(input) < 0 || package_check_open(output) < 0 ||
+        (origin && package_check_open(origin) < 0)) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
@@ -119,6 +124,11 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (package_check_open(input) < 0 || package_check_open(output) < 0 ||
+        (origin && package_check_open(origin) < 0)) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 641ac16..6167099 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -29,6 +29,8 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
+/* Raises an exception and returns -1 if the package isn't open */
+int package_check_open(BPAKPackage *package);
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
-- 
2.43.0


From eec358f09556cf5d48e4cb7514ce5035f1ee8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 49/66] fix: Package of the Python binding leaked files and
 strings and hid errors from close

---
 python/package.c | 57 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/python/package.c b/python/package.c
index b1786f0..bb4be7f 100644
--- a/python/package.c
+++ b/python/package.c
@@ -36,6 +36,15 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     return rc;
 }
 
+/* Steals the reference to 'filename', which comes from PyUnicode_FSDecoder */
+static PyObject *filename_as_ascii(PyObject *filename)
+{
+    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+
+    Py_DECREF(filename);
+    return filename_ascii;
+}
+
 static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
     (void)args;
@@ -75,18 +84,21 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
+    PyObject *filename_ascii = filename_as_ascii(filename);
     if (!filename_ascii) {
         return -1;
     }
 
+    /* The object may be initialized more than once */
+    bpak_pkg_close(&self->pkg);
+
     rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename_ascii), mode);
 
     Py_DECREF(filename_ascii);
 
     if (rc != BPAK_OK) {
         PyErr_SetString(BPAKPackageError, "could not open package");
-        return rc;
+        return -1;
     }
 
     return 0;
@@ -95,10 +107,16 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
 static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
 {
     BPAKPackage *package = (BPAKPackage *)self;
+    int rc;
 
-    bpak_pkg_close(&package->pkg);
+    rc = bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
+    if (rc != BPAK_OK) {
+        return PyErr_Format(PyExc_IOError, "could not close package: %s",
+                bpak_error_string(rc));
+    }
+
     Py_RETURN_NONE;
 }
 
@@ -121,12 +139,13 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
-    if (package_check_open(self) < 0) {
+    PyObject *filename_ascii = filename_as_ascii(verify_key_filename);
+    if (!filename_ascii) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(verify_key_filename);
-    if (!filename_ascii) {
+    if (package_check_open(self) < 0) {
+        Py_DECREF(filename_ascii);
         return NULL;
     }
 
@@ -168,12 +187,13 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
-    if (package_check_open(package) < 0) {
+    PyObject *filename_ascii = filename_as_ascii(sign_key_filename);
+    if (!filename_ascii) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(sign_key_filename);
-    if (!filename_ascii) {
+    if (package_check_open(package) < 0) {
+        Py_DECREF(filename_ascii);
         return NULL;
     }
 
@@ -213,12 +233,13 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
-    if (package_check_open(package) < 0) {
+    PyObject *filename_ascii = filename_as_ascii(filename);
+    if (!filename_ascii) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
+    if (package_check_open(package) < 0) {
+        Py_DECREF(filename_ascii);
         return NULL;
     }
 
@@ -268,16 +289,16 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
-    if (package_check_open(package) < 0) {
+    PyObject *filename_ascii = filename_as_ascii(filename);
+    if (!filename_ascii) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
+    if (package_check_open(package) < 0) {
+        Py_DECREF(filename_ascii);
         return NULL;
     }
 
-
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename_ascii), part_name, 0);
 
     Py_DECREF(filename_ascii);
@@ -479,9 +500,7 @@ static PyObject *package_enter(PyObject *self, PyObject *Py_UNUSED(args))
 
 static PyObject *package_exit(PyObject *self, PyObject *args)
 {
-    package_close(self, args);
-
-    Py_RETURN_NONE;
+    return package_close(self, args);
 }
 
 /* Getters and setters */
-- 
2.43.0


From 2617bc024a2a83461a0017737e42781d030c38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 50/66] fix: attributes and metadata set through the Python
 binding crashed, were truncated or outlived a failed write

---
 python/meta.c           | 120 +++++++++++-----------------
 python/package.c        | 172 +++++++++++++++++-----------------------
 python/part.c           |  29 +++----
 python/python_wrapper.h |  10 ++-
 4 files changed, 141 insertions(+), 190 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 4a00cd7..1dac6b7 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -60,51 +60,58 @@ static PyObject *meta_get_id(PyObject *self, void *closure)
     return PyLong_FromLong(meta->meta_id);
 }
 
-static int meta_set_id(PyObject *self, PyObject *value, void *closure)
+/* Change what a metadata value is known as */
+static int meta_rename(BPAKMeta *meta, bpak_id_t meta_id, bpak_id_t part_ref)
 {
-    (void)closure;
-    int rc = 0;
-    unsigned int meta_id;
-    BPAKMeta *meta = (BPAKMeta *)self;
+    int rc;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
+    struct bpak_header previous = *h;
     struct bpak_meta_header *m;
+    struct bpak_meta_header *other;
 
-    if (package_check_open(meta->package) < 0) {
+    rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
+    if (rc != BPAK_OK) {
+        PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
+                bpak_error_string(rc));
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    meta_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)meta_id) != meta_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (meta_id == 0 ||
+        (bpak_get_meta(h, meta_id, part_ref, &other) == BPAK_OK &&
+         other != m)) {
+        PyErr_SetString(PyExc_ValueError,
+                        "metadata id is zero or already in use");
         return -1;
     }
 
-    rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
-                bpak_error_string(rc));
+    m->id = meta_id;
+    m->part_id_ref = part_ref;
+
+    if (package_write_header(meta->package, &previous) < 0) {
         return -1;
     }
 
-    m->id = meta_id;
     meta->meta_id = meta_id;
+    meta->part_ref = part_ref;
 
-    rc = package_write_header(meta->package, false);
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
+    return 0;
+}
+
+static int meta_set_id(PyObject *self, PyObject *value, void *closure)
+{
+    (void)closure;
+    unsigned long meta_id;
+    BPAKMeta *meta = (BPAKMeta *)self;
+
+    if (package_check_open(meta->package) < 0) {
         return -1;
     }
 
-    return 0;
+    if (package_get_uint(value, UINT32_MAX, &meta_id) < 0) {
+        return -1;
+    }
+
+    return meta_rename(meta, meta_id, meta->part_ref);
 }
 
 static PyObject *meta_get_part_id_ref(PyObject *self, void *closure)
@@ -118,50 +125,19 @@ static PyObject *meta_get_part_id_ref(PyObject *self, void *closure)
 static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
-    int rc = 0;
-    unsigned int part_ref = 0;
+    unsigned long part_ref = 0;
     BPAKMeta *meta = (BPAKMeta *)self;
-    struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
-    struct bpak_meta_header *m;
 
     if (package_check_open(meta->package) < 0) {
         return -1;
     }
 
-    if (value != Py_None) {
-        if (!PyLong_Check(value)) {
-            PyErr_SetString(PyExc_TypeError, "type mismatch");
-            return -1;
-        }
-
-        part_ref = PyLong_AsUnsignedLong(value);
-        if (PyErr_Occurred()) {
-            return -1;
-        }
-        if (((uint32_t)part_ref) != part_ref) {
-            PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
-            return -1;
-        }
-    }
-
-    rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
-                bpak_error_string(rc));
-        return -1;
-    }
-
-    m->part_id_ref = part_ref;
-    meta->part_ref = part_ref;
-
-    rc = package_write_header(meta->package, false);
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
+    if (value != Py_None &&
+        package_get_uint(value, UINT32_MAX, &part_ref) < 0) {
         return -1;
     }
 
-    return 0;
+    return meta_rename(meta, meta->meta_id, part_ref);
 }
 
 static PyObject *meta_get_size(PyObject *self, void* closure)
@@ -211,6 +187,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     (void)closure;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
+    struct bpak_header previous = *h;
     struct bpak_meta_header *m;
     int rc = 0;
 
@@ -218,6 +195,11 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
         return -1;
     }
 
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "attribute can't be deleted");
+        return -1;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -266,12 +248,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
         goto return_out;
     }
 
-    rc = package_write_header(meta->package, false);
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
-        rc = -1;
-    }
+    rc = package_write_header(meta->package, &previous);
 
 return_out:
     if (was_unicode) {
@@ -337,6 +314,7 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
 {
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
+    struct bpak_header previous = *h;
     struct bpak_meta_header *m;
     int rc = 0;
 
@@ -352,10 +330,8 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
 
     bpak_del_meta(h, m);
 
-    rc = package_write_header(meta->package, false);
-    if (rc != BPAK_OK) {
-        return PyErr_Format(PyExc_IOError, "could not write header: %s",
-            bpak_error_string(rc));
+    if (package_write_header(meta->package, &previous) < 0) {
+        return NULL;
     }
 
     Py_RETURN_NONE;
diff --git a/python/package.c b/python/package.c
index bb4be7f..b73b141 100644
--- a/python/package.c
+++ b/python/package.c
@@ -19,21 +19,47 @@ int package_check_open(BPAKPackage *package)
     return 0;
 }
 
-int package_write_header(BPAKPackage *package, bool update_hash)
+int package_write_header(BPAKPackage *package,
+                         const struct bpak_header *previous)
 {
-    int rc = 0;
+    int rc;
 
-    if (update_hash) {
-        rc = bpak_pkg_update_hash(&package->pkg, NULL, NULL);
-        if (rc < 0) {
-            return rc;
-        }
+    rc = bpak_pkg_write_header(&package->pkg);
+
+    if (rc != BPAK_OK) {
+        /* A change that failed must not reach the file later on */
+        package->pkg.header = *previous;
+        PyErr_Format(PyExc_IOError, "could not write header: %s",
+                bpak_error_string(rc));
+        return -1;
     }
 
-    rc = bpak_pkg_write_header(&package->pkg);
-    fflush(package->pkg.fp);
+    return 0;
+}
+
+int package_get_uint(PyObject *value, unsigned long max, unsigned long *result)
+{
+    if (value == NULL) {
+        PyErr_SetString(PyExc_TypeError, "attribute can't be deleted");
+        return -1;
+    }
 
-    return rc;
+    if (!PyLong_Check(value)) {
+        PyErr_SetString(PyExc_TypeError, "type mismatch");
+        return -1;
+    }
+
+    *result = PyLong_AsUnsignedLong(value);
+    if (PyErr_Occurred()) {
+        return -1;
+    }
+
+    if (*result > max) {
+        PyErr_Format(PyExc_OverflowError, "value is larger than %lu", max);
+        return -1;
+    }
+
+    return 0;
 }
 
 /* Steals the reference to 'filename', which comes from PyUnicode_FSDecoder */
@@ -322,6 +348,7 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
     static char *kwlist[] = {"id", "part_id_ref", "data", "size", NULL};
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
+    struct bpak_header previous = *h;
     struct bpak_meta_header *meta;
     int rc;
     bpak_id_t meta_id;
@@ -382,36 +409,35 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         }
     }
 
-    rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
+    if (size > BPAK_METADATA_BYTES) {
+        rc = -BPAK_NO_SPACE_LEFT;
+    } else {
+        rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
+    }
+
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
                 bpak_error_string(rc));
         goto err_out;
     }
 
-    size_t to_copy = new_size;
-    if ((ssize_t)to_copy > size) {
-        to_copy = size;
+    if (new_size > size) {
+        new_size = size;
     }
 
-    uint8_t *meta_ptr = bpak_get_meta_ptr(h, meta, uint8_t);
+    if (new_size > 0) {
+        memcpy(bpak_get_meta_ptr(h, meta, uint8_t), new_data, new_size);
+    }
 
-    if (to_copy > 0) {
-        memcpy(meta_ptr, new_data, to_copy);
+    if (package_write_header(package, &previous) < 0) {
+        goto err_out;
     }
 
     if (was_unicode) {
         Py_DECREF(data);
     }
 
-    rc = package_write_header(package, false);
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
-        goto err_out;
-    }
-
-    return meta_allocate(package, meta->id, meta->part_id_ref);
+    return meta_allocate(package, meta_id, part_ref);
 
 err_out:
     if (was_unicode) {
@@ -539,36 +565,22 @@ static PyObject *package_get_hash_kind(PyObject *self, void *closure)
 static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
-    int rc;
-    int hash_kind;
+    unsigned long hash_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
+    struct bpak_header previous = *h;
 
     if (package_check_open(package) < 0) {
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    hash_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (package_get_uint(value, UINT8_MAX, &hash_kind) < 0) {
         return -1;
     }
 
-    h->hash_kind = (uint32_t)hash_kind;
+    h->hash_kind = hash_kind;
 
-    rc = package_write_header(package, false);
-
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
-        return -1;
-    }
-
-    return 0;
+    return package_write_header(package, &previous);
 }
 
 static PyObject *package_get_key_id(PyObject *self, void *closure)
@@ -587,36 +599,22 @@ static PyObject *package_get_key_id(PyObject *self, void *closure)
 static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
-    int rc;
-    int key_id;
+    unsigned long key_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
+    struct bpak_header previous = *h;
 
     if (package_check_open(package) < 0) {
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    key_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (package_get_uint(value, UINT32_MAX, &key_id) < 0) {
         return -1;
     }
 
-    h->key_id = (uint32_t)key_id;
-
-    rc = package_write_header(package, false);
+    h->key_id = key_id;
 
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
-        return -1;
-    }
-
-    return 0;
+    return package_write_header(package, &previous);
 }
 
 static PyObject *package_get_keystore_id(PyObject *self, void *closure)
@@ -635,36 +633,22 @@ static PyObject *package_get_keystore_id(PyObject *self, void *closure)
 static int package_set_keystore_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
-    int rc;
-    int keystore_id;
+    unsigned long keystore_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
+    struct bpak_header previous = *h;
 
     if (package_check_open(package) < 0) {
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    keystore_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (package_get_uint(value, UINT32_MAX, &keystore_id) < 0) {
         return -1;
     }
 
-    h->keystore_id = (uint32_t)keystore_id;
+    h->keystore_id = keystore_id;
 
-    rc = package_write_header(package, false);
-
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
-        return -1;
-    }
-
-    return 0;
+    return package_write_header(package, &previous);
 }
 
 static PyObject *package_get_signature(PyObject *self, void *closure)
@@ -740,36 +724,22 @@ static PyObject *package_get_signature_kind(PyObject *self, void *closure)
 static int package_set_signature_kind(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
-    int rc;
-    int signature_kind;
+    unsigned long signature_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
+    struct bpak_header previous = *h;
 
     if (package_check_open(package) < 0) {
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    signature_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (package_get_uint(value, UINT8_MAX, &signature_kind) < 0) {
         return -1;
     }
 
-    h->signature_kind = (uint32_t)signature_kind;
-
-    rc = package_write_header(package, false);
-
-    if (rc != BPAK_OK) {
-        PyErr_Format(PyExc_IOError, "could not write header: %s",
-                bpak_error_string(rc));
-        return -1;
-    }
+    h->signature_kind = signature_kind;
 
-    return 0;
+    return package_write_header(package, &previous);
 }
 
 static PyObject *package_get_size(PyObject *self, void *closure)
diff --git a/python/part.c b/python/part.c
index f5f28f0..4b3414c 100644
--- a/python/part.c
+++ b/python/part.c
@@ -63,26 +63,18 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_id;
+    unsigned long part_id;
     BPAKPart *part = (BPAKPart *)self;
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
+    struct bpak_header previous = *h;
     struct bpak_part_header *p;
+    struct bpak_part_header *other;
 
     if (package_check_open(part->package) < 0) {
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    part_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)part_id) != part_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (package_get_uint(value, UINT32_MAX, &part_id) < 0) {
         return -1;
     }
 
@@ -93,15 +85,20 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    if (part_id == 0 || (bpak_get_part(h, part_id, &other) == BPAK_OK &&
+                         other != p)) {
+        PyErr_SetString(PyExc_ValueError, "part id is zero or already in use");
+        return -1;
+    }
+
     p->id = part_id;
-    part->part_id = part_id;
 
-    rc = package_write_header(part->package, false);
-    if (rc != BPAK_OK) {
-        PyErr_SetString(PyExc_IOError, "could not write header");
+    if (package_write_header(part->package, &previous) < 0) {
         return -1;
     }
 
+    part->part_id = part_id;
+
     return 0;
 }
 
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 6167099..c878a00 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -31,7 +31,15 @@ extern PyObject *BPAKPackageError;
 
 /* Raises an exception and returns -1 if the package isn't open */
 int package_check_open(BPAKPackage *package);
-int package_write_header(BPAKPackage *package, bool update_hash);
+
+/* Writes the header, if that fails 'previous' becomes the header again, an
+ * exception is raised and -1 returned */
+int package_write_header(BPAKPackage *package,
+                         const struct bpak_header *previous);
+
+/* Converts the value of an attribute, raises an exception and returns -1 if it
+ * isn't an integer from 0 to 'max' */
+int package_get_uint(PyObject *value, unsigned long max, unsigned long *result);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
 PyObject *meta_allocate(BPAKPackage *package, bpak_id_t meta_id, bpak_id_t part_ref);
-- 
2.43.0


From 906bc3584d537a7c9cb3ef7feb33d206211a52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 51/66] fix: Part.read_data of the Python binding failed on
 empty parts

---
 python/part.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/python/part.c b/python/part.c
index 4b3414c..a2ca711 100644
--- a/python/part.c
+++ b/python/part.c
@@ -2,6 +2,7 @@
  *  when parsing arguments */
 #define PY_SSIZE_T_CLEAN
 #include <Python.h>
+#include <errno.h>
 #include <bpak/bpak.h>
 #include <bpak/pkg.h>
 
@@ -188,7 +189,6 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     }
 
     size_t part_size = bpak_part_size_wo_pad(p);
-    size_t read_size;
     FILE *fp = part->package->pkg.fp;
 
     bytes = PyBytes_FromStringAndSize(NULL, part_size);
@@ -196,17 +196,15 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
         return NULL;
     }
 
-    if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) < 0) {
+    if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
         Py_DECREF(bytes);
         return PyErr_Format(PyExc_IOError, "failed to seek: %s",
-                strerror(ferror(fp)));
+                strerror(errno));
     }
 
-    read_size = fread(PyBytes_AsString(bytes), part_size, 1, fp);
-    if (read_size != 1) {
+    if (fread(PyBytes_AsString(bytes), 1, part_size, fp) != part_size) {
         Py_DECREF(bytes);
-        return PyErr_Format(PyExc_IOError, "failed to read: %s",
-                strerror(ferror(fp)));
+        return PyErr_Format(PyExc_IOError, "failed to read part data");
     }
 
     return bytes;
-- 
2.43.0


From e57f5787896c66a311457ed7dbb424a3ba26dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 52/66] fix: as_string of the Python binding read past the
 value

---
 python/meta.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 1dac6b7..95727ff 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -302,10 +302,7 @@ static PyObject *meta_as_string(PyObject *self, PyObject *Py_UNUSED(ignored))
     }
 
     char *meta_ptr = bpak_get_meta_ptr(h, m, char);
-    size_t len = strlen(meta_ptr);
-    if (len > m->size) {
-        len = m->size;
-    }
+    size_t len = strnlen(meta_ptr, m->size);
 
     return PyUnicode_DecodeASCII(meta_ptr, len, "strict");
 }
-- 
2.43.0


From bafde0d4d40c96682f0ef45f3a68bf8a38493a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 53/66] fix: the log function of the Python binding was used
 after it was freed

---
 python/python_wrapper.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index cf0d9f7..9e13b4b 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -11,7 +11,7 @@
 #include "python_wrapper.h"
 
 PyObject *BPAKPackageError;
-static PyObject *log_func = Py_None;
+static PyObject *log_func = NULL;
 
 int bpak_printf(int verbosity, const char *fmt, ...)
 {
@@ -21,8 +21,22 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     vsnprintf(log_buf, sizeof(log_buf), fmt, args);
     va_end(args);
 
-    if (log_func != Py_None) {
-        PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+    if (log_func != NULL && log_func != Py_None) {
+        PyObject *func = log_func;
+        PyObject *result;
+        PyObject *type, *value, *traceback;
+
+        /* The function may raise exceptions or replace itself, neither must
+         * affect the operation that logs */
+        Py_INCREF(func);
+        PyErr_Fetch(&type, &value, &traceback);
+        result = PyObject_CallFunction(func, "(is)", verbosity, log_buf);
+        if (result == NULL) {
+            PyErr_WriteUnraisable(func);
+        }
+        Py_XDECREF(result);
+        PyErr_Restore(type, value, traceback);
+        Py_DECREF(func);
     }
 
     return BPAK_OK;
@@ -49,13 +63,25 @@ static PyObject *m_set_log_func(PyObject *module, PyObject *args,
 {
     int rc;
     static char *kwlist[] = {"log_func", NULL};
+    PyObject *new_func = NULL;
+    PyObject *old_func;
     (void)module;
 
-    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &log_func);
+    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &new_func);
     if (!rc) {
         return NULL;
     }
 
+    if (new_func != Py_None && !PyCallable_Check(new_func)) {
+        PyErr_SetString(PyExc_TypeError, "log_func must be callable or None");
+        return NULL;
+    }
+
+    old_func = log_func;
+    Py_INCREF(new_func);
+    log_func = new_func;
+    Py_XDECREF(old_func);
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 19692a35c1f8c936b1040aa5b7a544571edac925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 54/66] fix: clearing the signature and a failing digest were
 not reported by the Python binding

---
 python/package.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/package.c b/python/package.c
index b73b141..2438531 100644
--- a/python/package.c
+++ b/python/package.c
@@ -543,8 +543,12 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
 
     size_t hash_size = sizeof(digest_data);
 
-    if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
-        Py_RETURN_NONE;
+    int rc = bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size);
+
+    if (rc != BPAK_OK) {
+        return PyErr_Format(BPAKPackageError, "could not compute digest: %s",
+                bpak_error_string(rc));
+    }
 
     return Py_BuildValue("y#", digest_data, hash_size);
 }
@@ -671,7 +675,6 @@ static int package_set_signature(PyObject *self, PyObject *value,
     (void)closure;
 
     int rc;
-    static const uint8_t empty_signature[1] = {0};
     uint8_t *signature_data;
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
@@ -682,8 +685,13 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
-        bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
-        return 0;
+        struct bpak_header *h = bpak_pkg_header(&package->pkg);
+        struct bpak_header previous = *h;
+
+        memset(h->signature, 0, sizeof(h->signature));
+        h->signature_sz = 0;
+
+        return package_write_header(package, &previous);
     }
 
     if (!PyBytes_Check(value)) {
@@ -797,6 +805,7 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, part);
+        Py_DECREF(part);
         if (rc < 0) {
             Py_DECREF(list);
 
@@ -842,6 +851,7 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, meta);
+        Py_DECREF(meta);
         if (rc < 0) {
             Py_DECREF(list);
 
-- 
2.43.0


From ff75f880724bc08c3e3b76cfea9572a4266d1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 55/66] fix: encoding a Python package into itself destroyed it

---
 python/python_wrapper.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 9e13b4b..88e22b6 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -114,6 +114,12 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (output == input || output == origin) {
+        PyErr_SetString(PyExc_ValueError,
+                        "output can't be the input or origin package");
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
@@ -155,6 +161,12 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (output == input || output == origin) {
+        PyErr_SetString(PyExc_ValueError,
+                        "output can't be the input or origin package");
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
-- 
2.43.0


From 0a3d2ca0c6962fffa6defb09767d5ccacdff7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 56/66] fix: a damaged signature size made the Python binding
 read past the header

---
 python/package.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/package.c b/python/package.c
index 2438531..2ad1c74 100644
--- a/python/package.c
+++ b/python/package.c
@@ -664,6 +664,11 @@ static PyObject *package_get_signature(PyObject *self, void *closure)
         return NULL;
     }
 
+    if (package->pkg.header.signature_sz >
+            sizeof(package->pkg.header.signature)) {
+        return PyErr_Format(BPAKPackageError, "invalid signature size");
+    }
+
     return Py_BuildValue("y#",
                          package->pkg.header.signature,
                          package->pkg.header.signature_sz);
-- 
2.43.0


From 905ddbcac95b790dd94787ebf823a8d511c426ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 57/66] fix: reading a part of a damaged size raised
 SystemError in the Python binding

---
 python/part.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/part.c b/python/part.c
index a2ca711..e70a32c 100644
--- a/python/part.c
+++ b/python/part.c
@@ -191,6 +191,10 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     size_t part_size = bpak_part_size_wo_pad(p);
     FILE *fp = part->package->pkg.fp;
 
+    if (part_size > PY_SSIZE_T_MAX) {
+        return PyErr_Format(BPAKPackageError, "invalid part size");
+    }
+
     bytes = PyBytes_FromStringAndSize(NULL, part_size);
     if (!bytes) {
         return NULL;
-- 
2.43.0


From d990c5f3ce859435547427bb824f45e6588a9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 58/66] fix: a copied part was bounded by its transport size
 while decoding

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 99aaaa1..d708d60 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -376,7 +376,7 @@ bpak_transport_decode_write_chunk(struct bpak_transport_decode *ctx,
     } break;
     case 0: /* Copy data */
     {
-        if (length > bpak_part_size(ctx->part) - ctx->copy_offset)
+        if (length > ctx->part->size + ctx->part->pad_bytes - ctx->copy_offset)
             return -BPAK_SIZE_ERROR;
 
         off_t write_offset = bpak_part_offset(ctx->patch_header, ctx->part) -
-- 
2.43.0


From efe4666461ab99491bb8b9f8020b0650601d8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 59/66] fix: bpak set ignored key-id and keystore-id together
 with --meta

---
 src/set.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/set.c b/src/set.c
index c8befb7..5b57d38 100644
--- a/src/set.c
+++ b/src/set.c
@@ -239,7 +239,9 @@ int action_set(int argc, char **argv)
             fprintf(stderr, "Error: Unknown encoder\n");
             goto err_close_fp_out;
         }
-    } else if (key_id_flag || keystore_id_flag) {
+    }
+
+    if (key_id_flag || keystore_id_flag) {
 
         if (key_id_flag) {
             h->key_id = key_id;
@@ -256,9 +258,6 @@ int action_set(int argc, char **argv)
                 printf("Setting keystore-id to  0x%08x\n", keystore_id);
             }
         }
-    } else {
-        rc = -BPAK_FAILED;
-        fprintf(stderr, "Error: Don't know what to do\n");
     }
 
     if (fseek(fp, 0, SEEK_SET) != 0) {
-- 
2.43.0


From 65966171109619b4034392afdda9fb59ef5e8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 60/66] fix: bpak add ignored --part together with --meta

---
 src/add.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/add.c b/src/add.c
index 8f2bdc1..d0e4262 100644
--- a/src/add.c
+++ b/src/add.c
@@ -116,6 +116,11 @@ int action_add(int argc, char **argv)
         return -1;
     }
 
+    if (part_name && meta_name) {
+        fprintf(stderr, "Error: Select either --part or --meta\n");
+        return -1;
+    }
+
     if (!from_string && !from_file) {
         fprintf(stderr,
                 "Error: either --from_string must be used or --from_file\n");
-- 
2.43.0


From 4408b1b53c4c1d6da5aa9518ff2004f3ece0731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 61/66] fix: extract and transport destroyed a package given as
 its own output

---
 lib/pkg.c       | 17 +++++++++++++++++
 src/bpak_tool.h |  3 +++
 src/extract.c   |  7 +++++++
 src/main.c      | 18 ++++++++++++++++++
 src/transport.c |  8 ++++++++
 5 files changed, 53 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 7941fd5..a3d7833 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -444,6 +444,8 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     uint64_t p_offset = 0;
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *part = NULL;
+    struct stat pkg_stat;
+    struct stat file_stat;
     FILE* fp;
 
     rc = bpak_get_part(h, part_id, &part);
@@ -452,6 +454,21 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
         return rc;
     }
 
+    /* Opening the output would destroy the package */
+    if (filename != NULL) {
+        if (stat(filename, &file_stat) != 0) {
+            if (errno != ENOENT)
+                return -BPAK_FAILED;
+        } else if (fstat(fileno(pkg->fp), &pkg_stat) != 0) {
+            return -BPAK_FAILED;
+        } else if (pkg_stat.st_dev == file_stat.st_dev &&
+                   pkg_stat.st_ino == file_stat.st_ino) {
+            bpak_printf(0, "%s: Error: '%s' is the package itself\n",
+                        __func__, filename);
+            return -BPAK_FAILED;
+        }
+    }
+
     p_offset = bpak_part_offset(h, part);
 
     if (fseek(pkg->fp, p_offset, SEEK_SET) != 0) {
diff --git a/src/bpak_tool.h b/src/bpak_tool.h
index 9f7e294..0177f19 100644
--- a/src/bpak_tool.h
+++ b/src/bpak_tool.h
@@ -40,4 +40,7 @@ void bpak_inc_verbosity(void);
 
 bpak_id_t bpak_get_id_for_name_or_ref(char *arg);
 
+/* True if 'filename' is, or could be, the file that 'pkg' reads from */
+bool bpak_is_package_file(struct bpak_package *pkg, const char *filename);
+
 #endif
diff --git a/src/extract.c b/src/extract.c
index 6a33092..b453bdb 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -102,6 +102,13 @@ int action_extract(int argc, char **argv)
         return rc;
     }
 
+    if (output_filename != NULL &&
+        bpak_is_package_file(&pkg, output_filename)) {
+        fprintf(stderr, "Error: Can't write output over the package\n");
+        rc = -BPAK_FAILED;
+        goto err_close_pkg_out;
+    }
+
     struct bpak_header *h = bpak_pkg_header(&pkg);
 
     if (meta_id) {
diff --git a/src/main.c b/src/main.c
index a2cc234..cf8443f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -6,6 +6,8 @@
 #include <getopt.h>
 #include <stdbool.h>
 #include <errno.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 #include "bpak_tool.h"
 
@@ -41,6 +43,22 @@ bpak_id_t bpak_get_id_for_name_or_ref(char *arg)
     return bpak_id(arg);
 }
 
+bool bpak_is_package_file(struct bpak_package *pkg, const char *filename)
+{
+    struct stat pkg_stat;
+    struct stat file_stat;
+
+    if (stat(filename, &file_stat) != 0)
+        return errno != ENOENT;
+
+    if (fstat(fileno(pkg->fp), &pkg_stat) != 0)
+        return true;
+
+    return S_ISREG(file_stat.st_mode) &&
+           pkg_stat.st_dev == file_stat.st_dev &&
+           pkg_stat.st_ino == file_stat.st_ino;
+}
+
 int main(int argc, char **argv)
 {
     int rc;
diff --git a/src/transport.c b/src/transport.c
index bf92721..6187ae2 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -140,6 +140,14 @@ int action_transport(int argc, char **argv)
         goto err_out;
     }
 
+    if ((encode_flag || decode_flag) &&
+        (bpak_is_package_file(&input, output_file) ||
+         (origin_file && bpak_is_package_file(&origin, output_file)))) {
+        fprintf(stderr, "Error: Can't write output over the input or origin\n");
+        rc = -BPAK_FAILED;
+        goto err_out;
+    }
+
     if (encode_flag || decode_flag) {
         rc = bpak_pkg_open(&output, output_file, "wb+");
 
-- 
2.43.0


From c7abbd91a1ee9a91871437c7a11381d8b1e1de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 62/66] fix: parts behind an unused entry of the part table
 were misplaced

---
 lib/bpak.c | 2 +-
 lib/pkg.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index f719523..a3b5236 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -275,7 +275,7 @@ BPAK_EXPORT off_t bpak_part_offset(struct bpak_header *h,
 
     bpak_foreach_part (h, p) {
         if (!p->id)
-            break;
+            continue;
         if (p->id == part->id)
             break;
 
diff --git a/lib/pkg.c b/lib/pkg.c
index a3d7833..a8fef98 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -551,7 +551,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     /* Part now points to what previously was the part after the one we remove */
     for (; part != &(h->parts[BPAK_MAX_PARTS]); part++) {
         if (!part->id)
-            break;
+            continue;
 
         part->offset -= p_size;
         bytes_to_process += bpak_part_size(part);
@@ -621,7 +621,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
     bpak_foreach_part(h, p) {
         if (p->id == 0)
-            break;
+            continue;
 
         new_size += bpak_part_size(p);
     }
-- 
2.43.0


From c9e40c77dc2456751023cf23208f4337b835e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 63/66] fix: diff encoding read outside the mapped file for a
 negative part offset

---
 lib/transport_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 765d50e..2c9381f 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -159,7 +159,7 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         return -BPAK_FAILED;
     }
 
-    if (target_offset > target_file_sz ||
+    if (target_offset < 0 || target_offset > target_file_sz ||
         target_length > (size_t)(target_file_sz - target_offset)) {
         rc = -BPAK_READ_ERROR;
         goto err_munmap_target;
@@ -191,7 +191,7 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
-    if (origin_offset > origin_file_sz ||
+    if (origin_offset < 0 || origin_offset > origin_file_sz ||
         origin_length > (size_t)(origin_file_sz - origin_offset)) {
         rc = -BPAK_READ_ERROR;
         goto err_munmap_origin;
-- 
2.43.0


From 2897fc371dd26b40d704bf424c16000cb4028227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 64/66] fix: a keystore provider id shorter than an id was read
 past its end

---
 lib/keystore_load_from_file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 8f56160..e397efe 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -47,6 +47,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
     if (rc != BPAK_OK)
         goto err_close_pkg_out;
 
+    if (meta->size < sizeof(*keystore_provider_id)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     keystore_provider_id = bpak_get_meta_ptr(&pkg.header, meta, bpak_id_t);
 
     if (*keystore_provider_id != keystore_id) {
-- 
2.43.0


From 0472edac83d85fd5c713a49b601000d8f1743c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 65/66] fix: decoding changed the open input package, so it
 could not be repeated

---
 lib/pkg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index a8fef98..f0de4cd 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -284,7 +284,9 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 {
     int rc;
 
-    struct bpak_header *patch_header = bpak_pkg_header(input);
+    /* Decoding updates the header, the input package must not change */
+    struct bpak_header decoded_header = input->header;
+    struct bpak_header *patch_header = &decoded_header;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-- 
2.43.0


From 4609453126e181371b5a1de7c6c5ad377ada185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 66/66] fix: an open output package kept an empty header after
 decoding

---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index f0de4cd..beca282 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -411,6 +411,9 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     if (fflush(output->fp) != 0)
         rc = -BPAK_WRITE_ERROR;
 
+    if (rc == BPAK_OK)
+        output->header = decoded_header;
+
 err_out:
     bpak_transport_decode_free(&decode_ctx);
     return rc;
-- 
2.43.0

