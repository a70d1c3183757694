From c453f191b5ceb567787d45e5c31ef1e30e3f9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 01/25] fix: index: accept an expected size of zero

Local stores smaller than about five sixths of the average chunk size,
side-loaded indices without entries and extracting an empty index with the
target as a store all estimate zero chunks and made csn abort.
---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..117495f 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,10 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	// empty and very small stores legitimately lead to an estimate of zero
+	if (expected_size == 0)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From 93d1767bcacffeeddf3a36801b9b5ba4dfafaded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 02/25] fix: index: do not leave a dangling entries pointer
 after cleanup

If rescanning a local store fails before its new index is set up, freeing the
store later on freed the old entries a second time.
---
 index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.c b/index.c
index 117495f..b371ad5 100644
--- a/index.c
+++ b/index.c
@@ -27,6 +27,8 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+	idx->entries = NULL;
+	idx->n_entries = 0;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
-- 
2.43.0


From 2a0e0643ed0d697be2ac8714187690f30acaa7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 03/25] fix: only reuse the last chunk if its length matches

An index that repeats a chunk id with a different length made csn write
unverified leftover data to the target and report success.
---
 main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0e13df5..1d0612e 100644
--- a/main.c
+++ b/main.c
@@ -34,6 +34,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
 	if (resuming) {
@@ -54,7 +55,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || len != last_len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
 		if (ret < 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
@@ -62,6 +63,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From e01baa2189f2f6bcaa4f78d2e204f28a57a44f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 04/25] fix: caibx: reject entries with impossible bounds

Entries whose end offset does not lie behind that of their predecessor (or
that are too long to represent) were skipped, so csn reported success for an
incompletely extracted image; empty entries tripped an assertion.
---
 caibx.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..c1ffd65 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,17 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		/* Entries that are empty, end before they start or are too
+		 * long to represent can't be part of a valid index. Skipping
+		 * them would silently produce an incomplete result.
+		 */
+		if (offset <= last_offset || len > UINT32_MAX) {
+			chunk_format_id(chunk_id, &buf[8]);
+			u_log(ERR, "chunk %s has invalid bounds: %"PRIu64" - %"PRIu64,
+			      chunk_id, last_offset, offset);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -217,17 +228,11 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			u_log(WARN, "chunk %s is too big : %"PRIu64" > %"PRIu32,
 			      chunk_id, len, params->max_size);
 
-			/* From a correctness perspecitve, we should skip all
-			 * of the chunks that do not fit within the declared
-			 * size bounds, as such chunks should not be produced
-			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			/* Chunks that do not fit within the declared size
+			 * bounds should not be produced by a conforming
+			 * encoder. But if the chunk ID still matches in the
+			 * end we should be fine.
 			 */
-			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
-			}
 		}
 
 		if (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)
-- 
2.43.0


From 1eb29173753db2a8ac920b20e43008c12af3a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 05/25] fix: store-local: verify every chunk that is read

Chunks of scanned stores, and of side-loaded stores after their first use,
were handed out without checking them. If the store changes during the
synchronization, most notably if it is the target under another name (or with
a side-loaded index), stale data was written and success was reported.
---
 store-local.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/store-local.c b/store-local.c
index b683064..205b567 100644
--- a/store-local.c
+++ b/store-local.c
@@ -23,7 +23,7 @@ struct store_local {
 	struct chunker_params chunker_params;
 };
 
-#define INDEX_FLAG_VALIDATED (1<<0)
+#define INDEX_FLAG_SCANNED (1<<0)
 
 struct insert_ctx {
 	struct index *idx;
@@ -116,9 +116,9 @@ static int store_scan(struct store_local *ls)
 	struct insert_ctx ctx = {
 		.idx = &ls->idx,
 
-		// as this entry is the result of scanning the store ourselves, we
-		// consider it in sync with the data within the store
-		.flags = INDEX_FLAG_VALIDATED
+		// as this entry is the result of scanning the store ourselves,
+		// scanning it again won't help if it doesn't match the data
+		.flags = INDEX_FLAG_SCANNED
 	};
 
 	if (chunker_scan_fd(ls->fd, &ls->chunker_params, store_insert_index, &ctx) < 0)
@@ -149,17 +149,13 @@ restart:
 		return -1;
 	}
 
-	if (e->flags & INDEX_FLAG_VALIDATED)
-		return e->len;
-
-	// if the entry has not been validated, check its contents
+	// the store might not correspond to the index (anymore), e.g. because
+	// of bit rot or because it is being modified, so check the contents
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
 	chunk_calculate_id(out, e->len, actual_chunk_id);
 
-	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0) {
-		e->flags |= INDEX_FLAG_VALIDATED;
+	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0)
 		return e->len;
-	}
 
 	char chunk_id_str[CHUNK_ID_STRLEN];
 	u_log(ERR, "chunk validation failure at offset %"PRIu64" (chunk length %"PRIu32")",
@@ -171,6 +167,9 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+	if (e->flags & INDEX_FLAG_SCANNED)
+		return 0;
+
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From 0129618249fd61b33fd9961aae6bd69cb521f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 06/25] fix: store-local: rescan if a side-loaded entry can't
 be read

Like one with wrong contents, a side-loaded entry that lies beyond the end of
the store or doesn't fit a chunk shows that the index doesn't describe the
store. Instead of discarding the index, the entire store was deactivated.
---
 store-local.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/store-local.c b/store-local.c
index 205b567..00d0072 100644
--- a/store-local.c
+++ b/store-local.c
@@ -141,11 +141,17 @@ restart:
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+		if (!(e->flags & INDEX_FLAG_SCANNED))
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+		if (!(e->flags & INDEX_FLAG_SCANNED))
+			goto rescan;
+
 		return -1;
 	}
 
@@ -170,6 +176,7 @@ restart:
 	if (e->flags & INDEX_FLAG_SCANNED)
 		return 0;
 
+rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From ab77e77d83f6995d35a8e5e1496b6e003828d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 07/25] fix: sha: hash all of the data when falling back from
 kcapi

The fallback only hashed what had not been sent to the kernel before the
failure, so the resulting hash was wrong.
---
 sha.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha.c b/sha.c
index 3e272d6..39e2d4f 100644
--- a/sha.c
+++ b/sha.c
@@ -84,10 +84,11 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
-	while (len) {
+	size_t sent = 0;
+	while (sent < len) {
 		ssize_t ret;
 
-		ret = send(kcapi_fd, data, len, MSG_MORE);
+		ret = send(kcapi_fd, &data[sent], len - sent, MSG_MORE);
 		if (ret < 0) {
 			if (errno == EINTR)
 				continue;
@@ -96,8 +97,7 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 			goto disable;
 		}
 
-		data += ret;
-		len -= ret;
+		sent += ret;
 	}
 
 	ssize_t ret;
-- 
2.43.0


From 5dc118883d913d3ea5e01d0fa309f5553a91b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 08/25] fix: don't continue after showing the casync help

The synchronization was started without any store set up, dereferencing a NULL
pointer.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 1d0612e..cde2dc8 100644
--- a/main.c
+++ b/main.c
@@ -239,7 +239,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From 81b7404ce6bd9f7508bc8f22d733889e462cdfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 09/25] fix: chunker: reject average sizes without a valid
 discriminator

An average size of one led to a division by zero, very large ones to an
undefined conversion of a negative or infinite value when scanning a store.
---
 chunker.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/chunker.c b/chunker.c
index b499f49..b360bdc 100644
--- a/chunker.c
+++ b/chunker.c
@@ -75,6 +75,14 @@ static const uint32_t buzhash_table[] = {
 	0x7bf7cabc, 0xf9c18d66, 0x593ade65, 0xd95ddf11,
 };
 
+#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) (avg / (-1.42888852e-7 * avg + 1.33237515)))
+
+/* The discriminator formula only yields usable values for average sizes above
+ * one and below the (rounded down) zero of its denominator.
+ */
+#define CHUNKER_SIZE_AVG_MIN 2
+#define CHUNKER_SIZE_AVG_MAX 9324556
+
 int chunker_params_set(struct chunker_params *params, uint64_t min_size, uint64_t avg_size, uint64_t max_size)
 {
 	// FIXME: support fixed-size chunks
@@ -92,6 +100,11 @@ int chunker_params_set(struct chunker_params *params, uint64_t min_size, uint64_
 		return -1;
 	}
 
+	if (avg_size < CHUNKER_SIZE_AVG_MIN || avg_size > CHUNKER_SIZE_AVG_MAX) {
+		u_log(ERR, "unsupported average chunk size: %"PRIu64, avg_size);
+		return -1;
+	}
+
 	params->min_size = (uint32_t) min_size;
 	params->avg_size = (uint32_t) avg_size;
 	params->max_size = (uint32_t) max_size;
@@ -107,7 +120,6 @@ void chunker_reset(struct chunker *c)
 	SHA256_Init(&c->sha_ctx);
 }
 
-#define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) (avg / (-1.42888852e-7 * avg + 1.33237515)))
 int chunker_init(struct chunker *c, struct chunker_params *params)
 {
 	u_assert(c);
-- 
2.43.0


From 55b495076da1a016ac26cd41a3764437d9613d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 10/25] fix: store-http: start decoding afresh for each attempt

When a transfer timed out in the middle of the body, the retried response was
fed into the decompression (and decryption) state left behind by the previous
attempt, so retrying could never succeed.
---
 store-http.c | 50 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/store-http.c b/store-http.c
index 815797d..d755e6a 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,43 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+/* Prepare for receiving a response from its beginning, discarding whatever a
+ * previous attempt has left behind.
+ */
+static int reset_request(struct http_request_ctx *ctx, uint8_t *id)
 {
+	struct store_http *hs = ctx->hs;
+
+	hs->decode_buffer_fill = 0;
+
+	ZSTD_initDStream(hs->zstd);
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct http_request_ctx *ctx, uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
+
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		if (reset_request(ctx, id) < 0)
+			return CURLE_FAILED_INIT;
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,36 +304,22 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
-		.outbuf_size = out_max,
-		.outbuf_written = 0,
-		.state = HTTP_REQUEST_STARTED
+		.outbuf_size = out_max
 	};
 	curl_checked_setopt(hs->curl, CURLOPT_WRITEDATA, &ctx, return -1);
 
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(&ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From 1adfd489542b539ad612bef9455fffdaf3fab8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 11/25] fix: flush the target before reporting success

Write errors that only occur during writeback went unnoticed and a power
failure after a successful exit could lose data. Like patchdd, sync the target
and fail if that fails.
---
 main.c   |  5 +++++
 target.c | 12 ++++++++++++
 target.h |  2 ++
 3 files changed, 19 insertions(+)

diff --git a/main.c b/main.c
index cde2dc8..10a551c 100644
--- a/main.c
+++ b/main.c
@@ -309,6 +309,11 @@ int main(int argc, char **argv)
 		return EXIT_FAILURE;
 	}
 
+	if (target_sync(target) < 0) {
+		u_log(ERR, "flushing target failed");
+		return EXIT_FAILURE;
+	}
+
 	now = time_monotonic();
 	u_log(INFO, "synchronization finished after %u seconds", (unsigned int)(now - start));
 	if (skipped)
diff --git a/target.c b/target.c
index f0ea9f7..9226b71 100644
--- a/target.c
+++ b/target.c
@@ -87,6 +87,18 @@ int target_write(struct target *t, const uint8_t *data, size_t len, off_t offset
 	return 0;
 }
 
+int target_sync(struct target *t)
+{
+	u_assert(t);
+
+	if (fsync(t->fd) < 0) {
+		u_log_errno("fsync on target failed");
+		return -1;
+	}
+
+	return 0;
+}
+
 struct target *target_new(const char *path)
 {
 	u_assert(path);
diff --git a/target.h b/target.h
index 8848e23..77c86ef 100644
--- a/target.h
+++ b/target.h
@@ -19,4 +19,6 @@ struct target *target_new(const char *path);
 int target_write(struct target *t, const uint8_t *data, size_t len, off_t offset, const uint8_t *id);
 int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t offset, const uint8_t *id);
 
+int target_sync(struct target *t);
+
 struct store *target_as_store(struct target *t, size_t chunk_estimate);
-- 
2.43.0


From fa00dc97a5ae8eccac673a1c74c2c899d26cbda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 12/25] fix: csn-tool: require the suffix right behind the
 chunk id

A name of 74 characters ending in .cacnk passed the check with four
arbitrary characters between the id and the suffix.
---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..0cff119 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -23,7 +23,7 @@ static int chunk_id_from_path(uint8_t id[CHUNK_ID_LEN], const char *path)
 		return -1;
 	}
 
-	if (!streq(&basename[name_len-6], ".cacnk") && !streq(&basename[name_len-10], ".cacnk.enc")) {
+	if (!streq(&basename[64], ".cacnk") && !streq(&basename[64], ".cacnk.enc")) {
 		u_log(ERR, "chunk basename '%s' does not end with '.cacnk' or '.cacnk.enc'", basename);
 		return -1;
 	}
-- 
2.43.0


From 23277a4bf8a5265380be5974a6740532e4424069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 13/25] fix: csn-tool: fail on unknown commands

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 0cff119..1e3f961 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -203,5 +203,5 @@ int main(int argc, char **argv)
 		if (streq(cmds[i].name, argv[1]))
 			return cmds[i].fn(argc - 1, argv + 1);
 
-	usage(argv[0], false);
+	usage(argv[0], true);
 }
-- 
2.43.0


From 3361a2ca4b4f7d62790c0c0d4e80ff2d3b21b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 14/25] fix: csn-tool: don't check for a file called '-' when
 writing to stdout

---
 csn-tool.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index 1e3f961..bebb4b2 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <stdbool.h>
 #include <unistd.h>
 #include <inttypes.h>
 #include <fcntl.h>
@@ -72,7 +73,9 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	bool to_stdout = streq(output_path, "-");
+
+	if (!to_stdout && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
@@ -94,7 +97,7 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	}
 
 	int fd;
-	if (streq(output_path, "-")) {
+	if (to_stdout) {
 		fd = STDOUT_FILENO;
 	} else {
 		fd = open(output_path, O_WRONLY | O_TRUNC | O_CREAT, 0444);
-- 
2.43.0


From 4fa3bfc794e1c1d18e289857df4814759346af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 15/25] fix: encrypt: interpret the result of EVP_Cipher
 correctly

It returns the number of bytes processed or -1, so empty input was
considered to be an error, while actual errors were not.
---
 encrypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..9b54772 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,7 +136,8 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
+	// EVP_Cipher returns the number of bytes processed, or -1 on error
+	if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) < 0)
 		return -1;
 
 	return 0;
-- 
2.43.0


From ab2dee31681dad1dd7e5912e692e5369308b364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 16/25] fix: csn-tool: never leave a partial output file behind

An output file that exists is not written again, so a partial one left
by an interrupted or failed run was taken for a complete one later on.
---
 csn-tool.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index bebb4b2..68146e8 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -96,11 +96,18 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		goto out_buf;
 	}
 
+	/* The output's existence is taken to mean that it is complete, so
+	 * only make it appear under its final name once it is.
+	 */
+	char tmp_path[PATH_MAX + 32];
+	snprintf(tmp_path, sizeof(tmp_path), "%s.%ld.tmp", output_path, (long)getpid());
+
 	int fd;
 	if (to_stdout) {
 		fd = STDOUT_FILENO;
 	} else {
-		fd = open(output_path, O_WRONLY | O_TRUNC | O_CREAT, 0444);
+		unlink(tmp_path);
+		fd = open(tmp_path, O_WRONLY | O_EXCL | O_CREAT, 0444);
 
 		if (fd < 0) {
 			u_log_errno("failed to create output file");
@@ -113,11 +120,20 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		goto out_fd;
 	}
 
+	if (!to_stdout && rename(tmp_path, output_path) < 0) {
+		u_log_errno("failed to rename output file");
+		goto out_fd;
+	}
+
 	ret = 0;
 
 out_fd:
-	if (fd != STDOUT_FILENO)
+	if (!to_stdout) {
 		close(fd);
+
+		if (ret < 0)
+			unlink(tmp_path);
+	}
 out_buf:
 	free(buf);
 
-- 
2.43.0


From 255f91d32e7ed914366d8e2cb159c7cd5fa237e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 17/25] fix: csn-tool: fail if the list of chunks can't be read
 completely

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index 68146e8..35929fe 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -170,6 +170,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (ferror(stdin)) {
+			u_log(ERR, "reading list of chunks failed");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0


From 4a15646657497acf3308eacacb6e511edcfd266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 18/25] fix: abandon responses that exceed the size limit of a
 chunk

Once the output buffer was full, zstd stopped consuming input and everything
the server sent from then on was collected in the decode buffer.
---
 store-http.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store-http.c b/store-http.c
index d755e6a..5ce7070 100644
--- a/store-http.c
+++ b/store-http.c
@@ -143,6 +143,12 @@ static ssize_t handle_data(struct http_request_ctx *ctx, uint8_t *data, size_t l
 
 	ctx->outbuf_written = zstd_out.pos;
 
+	// nothing would ever consume the rest, so don't collect it
+	if (zstd_in.pos < zstd_in.size && zstd_out.pos == zstd_out.size) {
+		u_log(WARN, "data exceeds the size limit of a chunk");
+		return -1;
+	}
+
 	return zstd_in.pos;
 }
 
-- 
2.43.0


From 18361b123ff8f913dc760bf1440c29c5134f6810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 19/25] fix: chunker: use casync's lower bound for the
 discriminator

casync does not let the discriminator drop below the minimum chunk size, which
matters if the average is less than about 1.33 times the minimum. Without this
bound, stores are cut into other chunks than casync's for such parameters.
---
 chunker.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/chunker.c b/chunker.c
index b360bdc..a2148fa 100644
--- a/chunker.c
+++ b/chunker.c
@@ -130,6 +130,10 @@ int chunker_init(struct chunker *c, struct chunker_params *params)
 	u_build_assert(CA_CHUNKER_DISCRIMINATOR_FROM_AVG(64 * 1024) == 0xc17f);
 	c->discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(c->params.avg_size);
 
+	// casync never uses a discriminator below the minimum chunk size
+	if (c->discriminator < c->params.min_size)
+		c->discriminator = c->params.min_size;
+
 	chunker_reset(c);
 
 	return 0;
@@ -144,10 +148,8 @@ static bool chunker_shall_break(struct chunker *c)
 		return false;
 
 	// special case the common case to allow for compile-time optimization
-	if (c->params.avg_size == CHUNKER_SIZE_AVG_DEFAULT) {
-		size_t default_discriminator;
-
-		default_discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(CHUNKER_SIZE_AVG_DEFAULT);
+	const size_t default_discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(CHUNKER_SIZE_AVG_DEFAULT);
+	if (c->discriminator == default_discriminator) {
 		return (c->h % default_discriminator) == (default_discriminator - 1);
 	} else {
 		return (c->h % c->discriminator) == (c->discriminator - 1);
-- 
2.43.0


From e45b130a1fc29afa962719c57f1ba5b60101d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 20/25] fix: only strip trailing newlines in chomp

---
 utils.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/utils.c b/utils.c
index 70cc46a..5f26363 100644
--- a/utils.c
+++ b/utils.c
@@ -267,22 +267,10 @@ int parse_hex(uint8_t *out, const char *in)
 
 void chomp(char *s)
 {
-	char *p, *q;
+	size_t len = strlen(s);
 
-	q = NULL;
-	p = s;
+	while (len && (s[len-1] == '\r' || s[len-1] == '\n'))
+		len--;
 
-	while (*p) {
-		if (*p == '\r' || *p == '\n') {
-			q = p;
-
-			while (*p == '\r' || *p == '\n')
-				p++;
-		} else {
-			p++;
-		}
-	}
-
-	if (q)
-		*q = 0;
+	s[len] = 0;
 }
-- 
2.43.0


From 56aeadbf386f6bc7f7156e4c7b782cbff9b59899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 21/25] fix: encrypt: refuse key files with anything hidden
 behind a NUL byte

---
 encrypt.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index 9b54772..8048729 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -159,14 +159,21 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 			return -1;
 		}
 	} else if(startswith(keyspec, "file:")) {
-		char *slurped = slurp_file(&keyspec[5], true, NULL);
+		off_t size;
+		char *slurped = slurp_file(&keyspec[5], true, &size);
 		if (!slurped)
 			return -1;
 
-		chomp(slurped);
-
 		key_str = slurped;
 		do_free = true;
+
+		// the key must not be followed by anything hidden behind a NUL
+		if (strlen(slurped) != (size_t)size) {
+			u_log(ERR, "key file '%s' contains NUL bytes", &keyspec[5]);
+			goto out;
+		}
+
+		chomp(slurped);
 	} else {
 		u_log(ERR, "unknown keyspec used in '%s'", keyspec);
 		return -1;
-- 
2.43.0


From 2db3593e0d7c6b5f586d784c3ac004cd1fd3b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 22/25] fix: csn-tool: refuse overlong lines in the list of
 chunks

---
 csn-tool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 35929fe..fd13e6b 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -163,8 +163,14 @@ static int do_crypt(int argc, char **argv)
 	}
 
 	if (argc == 2) {
-		char line[PATH_MAX];
+		char line[PATH_MAX + 2]; // a path and the end of the line
 		while ((fgets(line, sizeof(line), stdin))) {
+			// don't mistake parts of a line for paths
+			if (!strchr(line, '\n') && !feof(stdin)) {
+				u_log(ERR, "overlong line in list of chunks");
+				goto out;
+			}
+
 			chomp(line);
 			if (encrypt_one(&ec, line, NULL) < 0)
 				goto out;
-- 
2.43.0


From 14ad02336fb6c6ff28a066de6e517a80dfb9b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:13 +0000
Subject: [PATCH 23/25] fix: casync: accept options behind the index and target

---
 main.c | 75 ++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/main.c b/main.c
index 10a551c..8db70ac 100644
--- a/main.c
+++ b/main.c
@@ -209,30 +209,13 @@ static int casync(int argc, char **argv)
 		exit(EXIT_FAILURE);
 	}
 
-	index_fd = open(argv[argc-2], O_RDONLY);
-	if (index_fd < 0) {
-		u_log_errno("opening index '%s' failed", argv[argc-2]);
-		return -1;
-	}
-
-	if (caibx_load_header(index_fd, &chunker_params, &n_entries) < 0) {
-		u_log(ERR, "loading caibx header failed");
-		return -1;
-	}
-
-	target_path = argv[argc-1];
-	target = target_new(target_path);
-	if (!target) {
-		u_log(ERR, "creating target failed");
-		return -1;
-	}
+	// Collect the stores first: The parameters they depend on are only known
+	// after the index was loaded and options may follow it.
+	char **store_args;
+	int n_store_args = 0;
 
-	// allocate (more than) enough store chain slots
-	struct store_chain *sc = store_chain_new((argc - 4) / 2 + 1);
-	if (!sc) {
-		u_log(ERR, "creating storechain failed");
-		return -1;
-	}
+	store_args = calloc(argc, sizeof(*store_args));
+	u_notnull(store_args, return -1);
 
 	int c;
 	while ((c = getopt_long(argc, argv, "h", options, NULL)) >= 0) {
@@ -242,9 +225,7 @@ static int casync(int argc, char **argv)
 				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
-				if (append_store_from_arg(sc, optarg) < 0)
-					return -1;
-
+				store_args[n_store_args++] = optarg;
 				break;
 			case ARG_SEED_OUTPUT:
 				// ignored to silence unknown option warning
@@ -256,17 +237,49 @@ static int casync(int argc, char **argv)
 		}
 	}
 
-	argc -= optind;
-	argv += optind;
-
-	if (argc < 3 || !streq(argv[0], "extract")) {
+	if (argc - optind < 3 || !streq(argv[optind], "extract")) {
 		casync_help();
 		exit(EXIT_FAILURE);
 	}
 
+	int ret = -1;
+
+	index_fd = open(argv[argc-2], O_RDONLY);
+	if (index_fd < 0) {
+		u_log_errno("opening index '%s' failed", argv[argc-2]);
+		goto out;
+	}
+
+	if (caibx_load_header(index_fd, &chunker_params, &n_entries) < 0) {
+		u_log(ERR, "loading caibx header failed");
+		goto out;
+	}
+
+	target_path = argv[argc-1];
+	target = target_new(target_path);
+	if (!target) {
+		u_log(ERR, "creating target failed");
+		goto out;
+	}
+
+	struct store_chain *sc = store_chain_new(n_store_args + 1);
+	if (!sc) {
+		u_log(ERR, "creating storechain failed");
+		goto out;
+	}
+
+	for (int i = 0; i < n_store_args; i++) {
+		if (append_store_from_arg(sc, store_args[i]) < 0)
+			goto out;
+	}
+
 	store = store_chain_to_store(sc);
+	ret = 0;
 
-	return 0;
+out:
+	free(store_args);
+
+	return ret;
 }
 
 int main(int argc, char **argv)
-- 
2.43.0


From 13a1e951daaa1bcb9ef455e45e14a4770d742f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 24/25] fix: store-http: decode all of the data at hand

ZSTD_decompressStream stops at the end of a frame, so that of a response
made of many small (or skippable) frames only one was processed per call
and the rest piled up in the decode buffer without any limit.
---
 store-http.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/store-http.c b/store-http.c
index 5ce7070..9c146b1 100644
--- a/store-http.c
+++ b/store-http.c
@@ -131,12 +131,16 @@ static ssize_t handle_data(struct http_request_ctx *ctx, uint8_t *data, size_t l
 		.pos = ctx->outbuf_written
 	};
 
-	size_t ret;
-	ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
-	if (ZSTD_isError(ret)) {
-		u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
-		return -1;
-	}
+	// decoding stops at the end of each frame, so that what follows would
+	// pile up in the decode buffer
+	do {
+		size_t ret;
+		ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
+		if (ZSTD_isError(ret)) {
+			u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
+			return -1;
+		}
+	} while (zstd_in.pos < zstd_in.size && zstd_out.pos < zstd_out.size);
 
 	u_log(DEBUG, "decompression consumed %zu out of %zu available bytes and produced %zu",
 	      zstd_in.pos, zstd_in.size, zstd_out.pos);
-- 
2.43.0


From ea89b5462ced0499e94e34da262ae95ae8ac7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:26 +0000
Subject: [PATCH 25/25] fix: main: don't overflow when calculating the progress

With more than 42949672 entries, the number of handled entries times 100
does not fit into 32 bits, so that the progress shown starts over.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 8db70ac..a26f38f 100644
--- a/main.c
+++ b/main.c
@@ -79,7 +79,7 @@ progress:
 		static uint32_t handled_entries = 0;
 		static progess_status_t progress_status = PROGRESS_STATUS_INIT;
 
-		show_progress(100 * ++handled_entries / n_entries, &progress_status);
+		show_progress(100ull * ++handled_entries / n_entries, &progress_status);
 	}
 
 	return 0;
-- 
2.43.0

