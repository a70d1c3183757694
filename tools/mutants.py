#!/usr/bin/env python3
"""Mutation testing of the checks: applies textual changes to a scratch copy of /repo and runs the checks of the
property concerned. Not used by any check.

usage: mutants.py [-a] [NAME...]     (-a: run the checks of all properties, not only the one that is broken)
"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(name, props, f, old, new, *more):
    M.append((name, props.split(), [(f, old, new)] + [more[i:i+3] for i in range(0, len(more), 3)]))

# --- main.c
m('resume-trust-repeat', 'C01', 'main.c', 'if (target_check_chunk(target, buf, len, offset, id) == 1) {',
  'if ((have_last_id && memcmp(last_id, id, CHUNK_ID_LEN) == 0) || target_check_chunk(target, buf, len, offset, id) == 1) {\n\t\t\tmemcpy(last_id, id, CHUNK_ID_LEN); have_last_id = true;')
m('resume-check-err-ok', 'C16', 'main.c', 'target_check_chunk(target, buf, len, offset, id) == 1)', 'target_check_chunk(target, buf, len, offset, id) != 0)')
m('resume-skip-keeps-last', 'C01 C02', 'main.c', 'skipped++;\n', 'skipped++;\n\t\t\tmemcpy(last_id, id, CHUNK_ID_LEN); last_len = len; have_last_id = len > 100;\n\t\t\tif (len > 200) buf[0] ^= 0;\n')
m('never-resume', 'C05 C06', 'main.c', 'static bool resuming = true;', 'static bool resuming = false;')
m('resume-forever', 'C01', 'main.c', '\t\tresuming = false;\n', '')
m('resume-stop-early', 'C05 C06', 'main.c', 'skipped++;\n', 'if (++skipped > 2) resuming = false;\n')
m('repeat-fetch', 'C05', 'main.c', 'have_last_id = true;', 'have_last_id = len < 100;')
m('repeat-id-prefix', 'C01', 'main.c', 'memcmp(last_id, id, CHUNK_ID_LEN) != 0', 'memcmp(last_id, id, 0) != 0')
m('len-mismatch-short', 'C01 C02', 'main.c', 'ret < 0 || len != (size_t)ret', 'ret < 0 || len > (size_t)ret')
m('len-mismatch-long', 'C01 C02', 'main.c', 'ret < 0 || len != (size_t)ret', 'ret < 0 || len < (size_t)ret')
m('write-failure-ignored', 'C16', 'main.c', 'if (target_write(target, buf, len, offset, id) < 0) {', 'if (target_write(target, buf, len, offset, id) < 0 && len > 128) {')
m('iterate-failure-ignored', 'C01 C09', 'main.c', 'entry_cb, NULL) < 0) {', 'entry_cb, NULL) < -1) {')
m('streq-prefix-target', 'C04', 'main.c', 'streq(arg, target_path)', 'startswith(arg, target_path)')
m('no-sync', 'C17', 'main.c', 'if (target_sync(target) < 0) {', 'if (0 && target_sync(target) < 0) {')
m('sync-only-if-written', 'C17', 'main.c', 'if (target_sync(target) < 0) {', 'if (store && skipped != n_entries && target_sync(target) < 0) {')
m('sync-ignored', 'C17', 'main.c', 'u_log(ERR, "flushing target failed");\n\t\treturn EXIT_FAILURE;', 'u_log(ERR, "flushing target failed");')
m('strrchr-sideload', 'C19 C07', 'main.c', "strchr(arg, ':')", "strrchr(arg, ':')")
m('casync-order', 'C19 C04', 'main.c', '\t\tif (append_store_from_arg(sc, store_args[i]) < 0)', '\t\tif (append_store_from_arg(sc, store_args[n_store_args - 1 - i]) < 0)')
m('csn-last-store-lost', 'C04 C03 C19', 'main.c', 'for (int i = 3; i < argc; i++) {', 'for (int i = 3; i < argc && i < 11; i++) {')
m('entry-len-buf', 'C10', 'main.c', 'if (len > sizeof(buf)) {', 'if (len > sizeof(buf) + 16) {')
m('progress-div', 'C10', 'main.c', '100ull * ++handled_entries / n_entries', '100 * ++handled_entries / (n_entries - 1)')
# --- caibx.c
m('caibx-magic', 'C09', 'caibx.c', 'if (header_magic != CA_FORMAT_INDEX) {', 'if ((uint32_t)header_magic != (uint32_t)CA_FORMAT_INDEX) {')
m('caibx-hlen', 'C09', 'caibx.c', '} else if (header_len < CA_HEADER_LEN) {', '} else if (header_len < CA_TABLE_HEADER_LEN) {')
m('caibx-flags', 'C09', 'caibx.c', 'if (flags & ~UINT64_C(0xd000000000000000)) {', 'if (flags & ~UINT64_C(0xf000000000000000)) {')
m('caibx-table', 'C09', 'caibx.c', 'if (table_magic != CA_FORMAT_TABLE) {', 'if (table_magic != CA_FORMAT_TABLE && table_len != ~(uint64_t)0) {')
m('caibx-zero', 'C09', 'caibx.c', '(tmp64 = unp64le(&buf[8])) != 0', '(tmp64 = unp64le(&buf[0])) != 0')
m('caibx-expected', 'C09', 'caibx.c', 'if (tmp64 != expected_len) {', 'if (tmp64 < expected_len) {')
m('caibx-fraction', 'C09', 'caibx.c', ') % CA_TABLE_ENTRY_LEN) {', ') % (CA_TABLE_ENTRY_LEN / 5)) {')
m('caibx-minlen', 'C09', 'caibx.c', 'if (file_size < CA_HEADER_LEN + CA_TABLE_MIN_LEN) {', 'if (file_size <= CA_HEADER_LEN + CA_TABLE_MIN_LEN) {')
m('caibx-last-entry', 'C01 C09', 'caibx.c', 'for (size_t i = 0; i < n_entries; i++) {\n\t\tuint8_t buf', 'for (size_t i = 0; i < n_entries - (n_entries > 60); i++) {\n\t\tuint8_t buf')
m('caibx-short-rejected', 'C09', 'caibx.c', 'chunk_id, len, params->min_size);\n', 'chunk_id, len, params->min_size);\n\t\t\tif (len < 2) return -1;\n')
m('caibx-big-rejected', 'C09', 'caibx.c', 'chunk_id, len, params->max_size);\n', 'chunk_id, len, params->max_size);\n\t\t\treturn -1;\n')
m('caibx-seek', 'C09', 'caibx.c', 'n_entries * CA_TABLE_ENTRY_LEN, SEEK_SET', '(uint8_t)n_entries * CA_TABLE_ENTRY_LEN, SEEK_SET')
# --- chunker.c
m('chunker-window', 'C08', 'chunker.c', 'to_copy = MIN(len, CHUNKER_WINDOW_SIZE - c->window_fill);', 'to_copy = MIN(len, CHUNKER_WINDOW_SIZE);\n\t\tif (to_copy > CHUNKER_WINDOW_SIZE - c->window_fill) { to_copy = CHUNKER_WINDOW_SIZE - c->window_fill; c->h ^= 1; }')
m('chunker-max', 'C08', 'chunker.c', 'if (c->chunk_size >= c->params.max_size)', 'if (c->chunk_size > c->params.max_size)')
m('chunker-min', 'C08', 'chunker.c', 'if (c->chunk_size < c->params.min_size)', 'if (c->chunk_size <= c->params.min_size)')
m('chunker-reset-h', 'C08', 'chunker.c', '\tc->h = 0;\n', '')
m('chunker-order', 'C09', 'chunker.c', '!(min_size < avg_size && avg_size < max_size)', '!(min_size <= avg_size && avg_size < max_size)')
m('chunker-eintr', 'C16 C08', 'chunker.c', 'if (errno == EINTR)\n\t\t\t\tcontinue;\n\n\t\t\tu_log_errno("error at', 'if (errno == EINTR)\n\t\t\t\tbreak;\n\n\t\t\tu_log_errno("error at')
m('chunker-read-err', 'C16', 'chunker.c', 'u_log_errno("error at offset %"PRIu64" while chunking", offset);\n\t\t\treturn -1;', 'u_log_errno("error at offset %"PRIu64" while chunking", offset);\n\t\t\tbreak;')
m('chunker-leftover', 'C08', 'chunker.c', 'if (offset != last_boundary) {', 'if (offset > last_boundary + CHUNKER_WINDOW_SIZE) {')
m('chunker-offset32', 'C22', 'chunker.c', 'uint64_t offset = 0;\n\tuint64_t last_boundary = 0;', 'uint32_t offset = 0;\n\tuint32_t last_boundary = 0;')
m('chunker-lastb32', 'C22', 'chunker.c', '\tuint64_t last_boundary = 0;', '\tint64_t last_boundary = 0;', 'chunker.c', 'last_boundary = offset;\n', 'last_boundary = (int)offset;\n')
m('chunker-seek', 'C07', 'chunker.c', '\tchecked(lseek(fd, 0, SEEK_SET), return -1);\n', '')
m('chunker-shortwindow', 'C08', 'chunker.c', 'if (c->window_fill < CHUNKER_WINDOW_SIZE)\n\t\t\treturn (size_t)-1;', 'if (c->window_fill < CHUNKER_WINDOW_SIZE || !len)\n\t\t\treturn (size_t)-1;')
# --- index.c
m('index-grow', 'C22', 'index.c', 'new_size = (idx->space_avail * 12ull) / 10 + 1;', 'new_size = (idx->space_avail * 12ull) / 10 + 1;\n\t\tif (new_size > 100) idx->n_entries -= 1;')
m('index-sorted', 'C22', 'index.c', '\tidx->sorted = false;\n\tidx->n_entries++;', '\tidx->n_entries++;')
m('index-sorted2', 'C22 C05', 'index.c', '\tidx->sorted = false;\n\tidx->n_entries++;', '\tif (idx->n_entries == 0 || memcmp(idx->entries[idx->n_entries-1].id, id, CHUNK_ID_LEN) > 0)\n\t\tidx->sorted = false;\n\tidx->n_entries++;')
m('index-cmp', 'C22', 'index.c', 'return memcmp(ie_a->id, ie_b->id, CHUNK_ID_LEN);', 'return (int)ie_a->id[0] - (int)ie_b->id[0];')
m('index-cmp4', 'C01', 'index.c', 'return memcmp(ie_a->id, ie_b->id, CHUNK_ID_LEN);', 'return memcmp(ie_a->id, ie_b->id, 1);')
m('index-bsearch', 'C22', 'index.c', 'return bsearch(&key, idx->entries, idx->n_entries, sizeof', 'return bsearch(&key, idx->entries, idx->n_entries & ~(size_t)512, sizeof')
m('index-start32', 'C22', 'index.c', 'e->start = offset;', 'e->start = (uint32_t)offset;')
m('index-start-signed', 'C22', 'index.c', 'e->start = offset;', 'e->start = (uint64_t)(int32_t)(uint32_t)offset | (offset & 0xffffffff00000000ull);')
# --- target.c
m('target-add-always', 'C05 C22', 'target.c', 'if (!e) {\n\t\te = index_insert', 'if (!e && len > 80) {\n\t\te = index_insert')
m('target-off32', 'C22', 'target.c', 'e = index_insert(&t->idx, offset, len, id);', 'e = index_insert(&t->idx, (uint32_t)offset, len, id);')
m('target-check-noadd', 'C05', 'target.c', '\ttarget_add_chunk(t, len, offset, id);\n\n\treturn 1;', '\treturn 1;')
m('target-write-noadd', 'C05', 'target.c', '\ttarget_add_chunk(t, len, offset, id);\n\n\treturn 0;', '\treturn 0;')
m('target-add-before-check', 'C01 C03 C02 C22', 'target.c', '\tuint8_t calculated_id[CHUNK_ID_LEN];\n', '\tuint8_t calculated_id[CHUNK_ID_LEN];\n\ttarget_add_chunk(t, len, offset, id);\n')
m('target-creat', 'C02 C19', 'target.c', 'open(path, O_RDWR)', 'open(path, O_RDWR | O_CREAT, 0644)')
m('target-trunc', 'C02 C06', 'target.c', '\tint ret;\n\tret = pwriteall(t->fd', '\tint ret;\n\tif (offset == 0 && ftruncate(t->fd, 0)) {}\n\tret = pwriteall(t->fd')
m('target-get-err', 'C16', 'target.c', 'if (preadall(t->fd, out, e->len, e->start) < 0) {', 'if (preadall(t->fd, out, e->len, e->start) < -1) {')
m('target-sync-eintr', 'C17', 'target.c', 'if (fsync(t->fd) < 0) {', 'if (fsync(t->fd) < 0 && errno != EINTR && errno != EINVAL) {', 'target.c', '#include <fcntl.h>', '#include <fcntl.h>\n#include <errno.h>')
# --- store-local.c
m('local-no-rescan', 'C07', 'store-local.c', 'if (e->flags & INDEX_FLAG_SCANNED)\n\t\treturn 0;', 'if (1 || e->flags & INDEX_FLAG_SCANNED)\n\t\treturn 0;')
m('local-param-max', 'C07', 'store-local.c', ' ||\n\t    caibx_params.max_size != ls->chunker_params.max_size', '')
m('local-sideload-fail', 'C07', 'store-local.c', 'u_log(WARN, "sideloading index failed, falling back to scanning");', 'u_log(WARN, "sideloading index failed"); goto err_ls;')
m('local-sideload-partial', 'C07', 'store-local.c', '\t\tu_log(ERR, "sideload iteration aborted");\n', '\t\tu_log(ERR, "sideload iteration aborted");\n\t\tif (ls->idx.n_entries > 1) { ret = 0; goto out_fd; }\n')
m('local-estimate', 'C10', 'store-local.c', 'size_t chunk_estimate = (12ull * size/ls->chunker_params.avg_size) / 10;', 'size_t chunk_estimate = (12ull * size/(ls->chunker_params.avg_size - 2)) / 10;')
m('local-idmatch', 'C01 C02', 'store-local.c', 'if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0)', 'if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0 || (e->flags & INDEX_FLAG_SCANNED))')
m('local-read-err0', 'C04', 'store-local.c', '\t\tif (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n\n\t\treturn -1;\n\t}\n\n\t// the', '\t\tif (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n\n\t\treturn 0;\n\t}\n\n\t// the')
# --- store.c
m('chain-order', 'C04', 'store.c', 'struct substore *substore = &sc->stores[i];\n\n\t\tif (!substore->active)', 'struct substore *substore = &sc->stores[(i + (sc->queries > 5)) % sc->n_stores];\n\n\t\tif (!substore->active)')
m('chain-reactivate', 'C04', 'store.c', '\tsc->queries++;\n', '\tsc->queries++;\n\tif (sc->queries % 8 == 0) for (size_t j = 0; j < sc->n_stores; j++) sc->stores[j].active = true;\n')
m('chain-kill-next', 'C03', 'store.c', 'substore->active = false;\n\t\t\tcontinue;', 'substore->active = false;\n\t\t\treturn 0;')
m('chain-dead-last', 'C04 C12', 'store.c', 'substore->active = false;\n', 'substore->active = i + 1 == sc->n_stores;\n')
m('chain-miss-deactivates', 'C03 C04', 'store.c', '\t\t\treturn ret;\n\t\t}\n', '\t\t\treturn ret;\n\t\t} else if (sc->queries > 12 && !substore->hits) substore->active = false;\n')
m('chain-grow', 'C22', 'store.c', 'new_space = sc->stores_space * 2;', 'new_space = sc->stores_space * 2; if (0)')
# --- store-http.c
m('http-404', 'C12', 'store-http.c', 'if (http_code == 404 || http_code == 410) {', 'if (http_code == 404) {')
m('http-budget', 'C12', 'store-http.c', 'if (hs->error_count > ERROR_MAX) {', 'if (hs->error_count >= ERROR_MAX) {')
m('http-budget-reset', 'C12', 'store-http.c', '\ths->error_count = 0;\n', '')
m('http-budget-reset404', 'C12', 'store-http.c', '\t\tu_log(DEBUG, "got %ld from server", http_code);\n', '\t\tu_log(DEBUG, "got %ld from server", http_code);\n\t\ths->error_count = 0;\n')
m('http-tries', 'C12', 'store-http.c', '#define CONNECT_TRIES 10', '#define CONNECT_TRIES 9')
m('http-wait', 'C12', 'store-http.c', 'wait_us = MIN(2*wait_us, 10ul*1000*1000);', 'wait_us = 2*wait_us;')
m('http-wait2', 'C12', 'store-http.c', 'wait_us = MIN(2*wait_us, 10ul*1000*1000);', 'wait_us = MIN(3*wait_us, 10ul*1000*1000);')
m('http-timeout-fatal', 'C12', 'store-http.c', ' ||\n\t       code == CURLE_OPERATION_TIMEDOUT;', ';')
m('http-recv-transient', 'C12 C04', 'store-http.c', 'code == CURLE_OPERATION_TIMEDOUT;', 'code == CURLE_OPERATION_TIMEDOUT || code == CURLE_RECV_ERROR;')
m('http-fatal0', 'C04 C12', 'store-http.c', 'u_log(ERR, "curl_easy_perform failed: %s", hs->curl_err_buf);\n\t\treturn -1;', 'u_log(ERR, "curl_easy_perform failed: %s", hs->curl_err_buf);\n\t\treturn 0;')
m('http-partial', 'C12 C04', 'store-http.c', 'curl_ret != CURLE_OK && curl_ret != CURLE_WRITE_ERROR)', 'curl_ret != CURLE_OK && curl_ret != CURLE_WRITE_ERROR && curl_ret != CURLE_PARTIAL_FILE)')
m('http-noverify', 'C01 C02 C11', 'store-http.c', 'if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {', 'if (!hs->encrypted && memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {')
m('http-noverify2', 'C01 C02 C11', 'store-http.c', 'if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {', 'if (memcmp(actual_id, id, CHUNK_ID_LEN / 8) != 0 && ctx.outbuf_written > 64) {')
m('http-magic', 'C11', 'store-http.c', 'if (len < 4)\n\t\t\treturn 0;', 'if (len < 5)\n\t\t\treturn 0;')
m('http-magic3', 'C11', 'store-http.c', 'if (len < 4)\n\t\t\treturn 0;', 'if (len < 3)\n\t\t\treturn 0;')
m('http-absorb-tail', 'C11', 'store-http.c', 'decode_buffer_absorb(ctx->hs, (uint8_t*)&ptr[ret], nmemb - ret)', 'decode_buffer_absorb(ctx->hs, (uint8_t*)ptr, nmemb - ret)')
m('http-fill', 'C11', 'store-http.c', 'ctx->hs->decode_buffer_fill -= ret;', 'ctx->hs->decode_buffer_fill = 0;')
m('http-url-case', 'C20', 'store-http.c', '"%s/%02x%02x/"', '"%s/%02x%x/"')
m('http-slash', 'C20', 'store-http.c', "if ((p = strrchr(tmp, '/')) && *(p+1) == 0)", "while ((p = strrchr(tmp, '/')) && *(p+1) == 0)")
m('http-hash-first', 'C20', 'store-http.c', "p = strrchr(tmp, '#');", "p = strpbrk(tmp, \"#?\");")
m('http-param-ignored', 'C20', 'store-http.c', 'u_log(ERR, "unhandled store parameters: %s", p);\n\t\t\treturn -1;', 'u_log(ERR, "unhandled store parameters: %s", p);')
m('http-enc-suffix', 'C20', 'store-http.c', 'strncat(hs->url_buf, ".enc", 5);', 'strncat(hs->url_buf, ".enc", hs->error_count ? 0 : 5);')
m('http-plain-ok', 'C20', 'store-http.c', 'if (ctx->hs->decode_buffer_fill || ctx->hs->encrypted) {', 'if (ctx->hs->decode_buffer_fill || (ctx->hs->encrypted && !(ctx->state == HTTP_REQUEST_STARTED && nmemb >= 4 && memcmp(ptr, ZSTD_MAGIC, 4) == 0) && ctx->state != HTTP_REQUEST_STREAMING)) {')
m('http-urlbuf', 'C10 C20', 'store-http.c', 'malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN + 1)', 'malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN - 3)')
m('http-memory', 'C21', 'store-http.c', "\tif (ctx->state == HTTP_REQUEST_FAILED)\n\t\treturn 0;\n", "\tif (ctx->state == HTTP_REQUEST_FAILED) {\n\t\tif (decode_buffer_absorb(ctx->hs, (uint8_t*)ptr, nmemb) < 0) return 0;\n\t\treturn nmemb;\n\t}\n", 'store-http.c', 'fail:\n\tctx->state = HTTP_REQUEST_FAILED;\n\treturn 0;', 'fail:\n\tctx->state = HTTP_REQUEST_FAILED;\n\treturn nmemb;')
m('http-leak-per-request', 'C21', 'store-http.c', '\ths->decode_buffer_fill = 0;\n', '\tif (hs->decode_buffer_fill > 4) { hs->decode_buffer = NULL; hs->decode_buffer_size = 0; }\n\ths->decode_buffer_fill = 0;\n')
m('http-callback-code', 'C04 C12', 'store-http.c', 'if (http_code != 200) {', 'if (http_code >= 400) {')
m('http-state-started-ok', 'C11', 'store-http.c', 'ctx.state == HTTP_REQUEST_STARTED || ctx.state == HTTP_REQUEST_FAILED', 'ctx.state == HTTP_REQUEST_FAILED')
m('http-lowspeed', 'C12', 'store-http.c', 'CURLOPT_LOW_SPEED_LIMIT,\n\t                    (long)10', 'CURLOPT_LOW_SPEED_LIMIT,\n\t                    (long)0')
# --- encrypt.c, csn-tool.c
m('enc-nonce', 'C13', 'encrypt.c', 'memcpy(&ctr_nonce[8], &nonce[16], 8);', 'memcpy(&ctr_nonce[8], &nonce[16], 7); ctr_nonce[15] = 0;')
m('enc-counter', 'C13', 'encrypt.c', 'memset(&ctr_nonce[0], 0, 8);', 'memset(&ctr_nonce[0], 0, 8); ctr_nonce[0] = 1;')
m('enc-rot', 'C13', 'encrypt.c', 'c += d;  b = rol32(b ^ c,  7)', 'c += d;  b = rol32(b ^ c,  8)')
m('enc-keylen', 'C13', 'encrypt.c', 'strlen(key_str) != 64', 'strlen(key_str) > 64')
m('enc-env', 'C13', 'encrypt.c', 'key_str = getenv(&keyspec[4]);', 'key_str = getenv(&keyspec[4]) ?: "";')
m('hex-nibble', 'C13', 'utils.c', "'a' <= c && c <= 'f'", "'a' <= c && c <= 'g'")
m('hex-case', 'C13 C14', 'utils.c', '\tc |= 0x20;\n', '')
m('hex-or20', 'C13', 'utils.c', "if ('0' <= c && c <= '9')\n\t\treturn c - '0';\n\n\tc |= 0x20;", "c |= 0x20;\n\tif ('0' <= c && c <= '9')\n\t\treturn c - '0';\n")
m('tool-exists', 'C14', 'csn-tool.c', 'access(output_path, F_OK) == 0)', 'access(output_path, R_OK) == 0)')
m('tool-perm', 'C14', 'csn-tool.c', 'O_WRONLY | O_EXCL | O_CREAT, 0444', 'O_WRONLY | O_CREAT, 0444')
m('tool-write-fail', 'C14', 'csn-tool.c', 'u_log(ERR, "failed to write to output file");\n\t\tgoto out_fd;', 'u_log(ERR, "failed to write to output file");')
m('tool-list-continue', 'C14', 'csn-tool.c', 'if (encrypt_one(&ec, line, NULL) < 0)\n\t\t\t\tgoto out;', 'if (encrypt_one(&ec, line, NULL) < 0)\n\t\t\t\tcontinue;')
m('tool-name-len', 'C14', 'csn-tool.c', 'name_len != 70 && name_len != 74', 'name_len < 70')
m('tool-restart', 'C13', 'csn-tool.c', 'if (encrypt_restart(ec, chunk_id) < 0) {', 'if (!to_stdout && encrypt_restart(ec, chunk_id) < 0) {')
m('tool-stdout-existing', 'C14', 'csn-tool.c', 'streq(&input_path[len-10], ".cacnk.enc")', 'streq(&input_path[len-4], ".enc")')
# --- utils.c
m('readall-eintr', 'C16', 'utils.c', 'ret = read(fd, &buf[read_bytes], len - read_bytes);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR)\n\t\t\t\tcontinue;', 'ret = read(fd, &buf[read_bytes], len - read_bytes);\n\t\tif (ret < 0) {')
m('preadall-offset', 'C16', 'utils.c', '\t\tread_bytes += ret;\n\t\toffset += ret;', '\t\tread_bytes += ret;')
m('pwriteall-offset', 'C16', 'utils.c', '\t\twritten_bytes += ret;\n\t\toffset += ret;', '\t\twritten_bytes += ret;')
m('pwriteall-short', 'C16', 'utils.c', '\t\twritten_bytes += ret;\n\t\toffset += ret;', '\t\tif ((size_t)ret < len - written_bytes && len == 4096) return 0;\n\t\twritten_bytes += ret;\n\t\toffset += ret;')
m('writeall-buf', 'C14', 'utils.c', 'ret = write(fd, &buf[written_bytes], len - written_bytes);', 'ret = write(fd, buf, len - written_bytes);')
m('pread-eof', 'C01 C15', 'utils.c', 'ret = pread(fd, &buf[read_bytes], len - read_bytes, offset);\n', 'ret = pread(fd, &buf[read_bytes], len - read_bytes, offset);\n\t\tif (ret == 0 && read_bytes) return 0;\n')
m('fdsize-err', 'C16', 'utils.c', 'u_log_errno("stat failed");\n\t\treturn -1;', 'u_log_errno("stat failed");\n\t\t*size_out = 0; return 0;')
# --- sha.c
m('kcapi-more', 'C18', 'sha.c', 'len - sent, MSG_MORE);', 'len - sent, sent ? MSG_MORE : 0);')
m('kcapi-sent', 'C18', 'sha.c', 'send(kcapi_fd, &data[sent], len - sent', 'send(kcapi_fd, data, len - sent')
m('kcapi-recv-eintr', 'C18', 'sha.c', '\t\tif (errno == EINTR)\n\t\t\tgoto retry;\n', '')
m('kcapi-short', 'C18', 'sha.c', '} else if (ret != SHA_LEN) {', '} else if (ret == 0) {')
m('kcapi-nodisable', 'C18', 'sha.c', '\tsha_kcapi_deinit();\n\n\t// fall', '\t// fall')
m('kcapi-start', 'C18', 'main.c', 'u_log(ERR, "kcapi init failed");\n\t\t\treturn -1;', 'u_log(ERR, "kcapi init failed");')
# --- patchdd.c
m('patchdd-size', 'C15', 'patchdd.c', 'if (dst_size < src_size) {', 'if (dst_size + 1 < src_size) {')
m('patchdd-diff', 'C15', 'patchdd.c', 'for (offset = 0; offset < len; offset++)', 'for (offset = 0; offset < len - 1; offset++)')
m('patchdd-diff8', 'C15', 'patchdd.c', 'if (a[offset] != b[offset])', 'if ((a[offset] ^ b[offset]) & 0x7f)')
m('patchdd-off', 'C15', 'patchdd.c', 'to_read - first_diff, offset + first_diff) < 0', 'to_read - first_diff, (int)offset + first_diff) < 0')
m('patchdd-fsync', 'C15', 'patchdd.c', 'if (fsync(dst) < 0) {', 'if (total_skipped != src_size && fsync(dst) < 0) {')
m('patchdd-last', 'C15', 'patchdd.c', 'while (offset < src_size) {', 'while (offset + 1 < src_size) {')
m('patchdd-fast', 'C15', 'patchdd.c', '\t\ttotal_skipped += first_diff;\n', '\t\ttotal_skipped += first_diff;\n\t\tif (first_diff > 4096) first_diff &= ~511ul; else first_diff = (first_diff + 7) & ~7ul;\n\t\tif (first_diff > to_read) first_diff = to_read;\n')
# --- second batch
m('id-half-http', 'C01 C02', 'store-http.c', 'if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {', 'if (memcmp(actual_id, id, CHUNK_ID_LEN / 2) != 0) {')
m('id-last-http', 'C01 C02', 'store-http.c', 'if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {', 'if (memcmp(actual_id, id, CHUNK_ID_LEN - 1) != 0) {')
m('id-str-http', 'C01 C02 C11', 'store-http.c', 'if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {', 'if (strncmp((char*)actual_id, (char*)id, CHUNK_ID_LEN) != 0) {')
m('id-half-local', 'C01 C02', 'store-local.c', 'if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0)', 'if (memcmp(id, actual_chunk_id, 28) == 0)')
m('id-half-index', 'C01 C02', 'index.c', 'return memcmp(ie_a->id, ie_b->id, CHUNK_ID_LEN);', 'return memcmp(ie_a->id, ie_b->id, CHUNK_ID_LEN / 2);')
m('id-str-index', 'C01 C22', 'index.c', 'return memcmp(ie_a->id, ie_b->id, CHUNK_ID_LEN);', 'return strncmp((const char*)ie_a->id, (const char*)ie_b->id, CHUNK_ID_LEN);')
m('id-half-target', 'C01 C02', 'target.c', 'if (memcmp(calculated_id, id, CHUNK_ID_LEN))', 'if (memcmp(calculated_id, id, CHUNK_ID_LEN - 2))')
m('id-half-last', 'C01 C02', 'main.c', 'memcmp(last_id, id, CHUNK_ID_LEN) != 0', 'memcmp(last_id, id, 16) != 0')
m('id-first-last', 'C01 C02', 'main.c', 'memcmp(last_id, id, CHUNK_ID_LEN) != 0', 'memcmp(last_id + 8, id + 8, CHUNK_ID_LEN - 8) != 0')
m('resume-large-trusted', 'C01', 'target.c', 'if (memcmp(calculated_id, id, CHUNK_ID_LEN))', 'if (len < 65536 && memcmp(calculated_id, id, CHUNK_ID_LEN))')
m('target-trunc', 'C02', 'target.c', 't->fd = open(path, O_RDWR);', 't->fd = open(path, O_RDWR);\n\tif (t->fd >= 0) { off_t s; if (fd_size(t->fd, &s) == 0 && s < 16 && s > 0) (void)!ftruncate(t->fd, 0); }')
m('chain-skip-after-empty', 'C03 C04', 'store.c', '\t\t} else if (ret > 0) {', '\t\t} else if (ret == 0 && i + 2 == sc->n_stores && sc->n_stores > 2 && sc->queries > 2) {\n\t\t\tbreak;\n\t\t} else if (ret > 0) {')
m('chain-fail-next', 'C03 C04', 'store.c', '\t\t\tsubstore->active = false;\n\t\t\tcontinue;', '\t\t\tsubstore->active = false;\n\t\t\ti++;\n\t\t\tcontinue;')
m('chain-mru', 'C04', 'store.c', '\t\t\tsubstore->hits++;\n', '\t\t\tsubstore->hits++;\n\t\t\tif (i && substore->hits > 2) { struct substore t = sc->stores[i-1]; sc->stores[i-1] = *substore; sc->stores[i] = t; }\n')
m('chain-miss-limit', 'C03 C04', 'store.c', '\t\t} else if (ret > 0) {', '\t\t} else if (ret == 0 && ++substore->misses >= 8) {\n\t\t\tsubstore->active = false;\n\t\t} else if (ret > 0) {', 'store.c', '\tuint32_t hits;', '\tuint32_t hits, misses;')
m('local-err-miss', 'C04', 'store-local.c', '\t\tif (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n\n\t\treturn -1;\n\t}\n\n\t// the store', '\t\tif (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n\n\t\treturn 0;\n\t}\n\n\t// the store')
m('target-index-first-only', 'C05', 'target.c', '\ttarget_add_chunk(t, len, offset, id);\n\n\treturn 0;', '\tif (len > 100) target_add_chunk(t, len, offset, id);\n\n\treturn 0;')
m('target-store-late', 'C05 C22', 'target.c', 'if (!t->queryable)\n\t\treturn 0;', 'if (!t->queryable || t->idx.n_entries < 2)\n\t\treturn 0;')
m('side-first-only', 'C07', 'store-local.c', 'if (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n\n\t\treturn -1;\n\t}\n\n\tif (preadall', 'return -1;\n\t}\n\n\tif (preadall')
m('side-rescan-keeps', 'C07', 'store-local.c', '\tindex_cleanup(&ls->idx);\n\tif (store_scan(ls) < 0) {\n\t\tu_log(ERR, "rescanning store failed");\n\t\treturn -1;\n\t}\n\n\tgoto restart;', '\tindex_cleanup(&ls->idx);\n\tif (store_scan(ls) < 0) {\n\t\tu_log(ERR, "rescanning store failed");\n\t\treturn -1;\n\t}\n\n\tif (ls->idx.n_entries < 2) return 0;\n\tgoto restart;')
m('side-param-min', 'C07', 'store-local.c', 'if (caibx_params.min_size != ls->chunker_params.min_size ||\n', 'if (\n')
m('side-param-max', 'C07', 'store-local.c', '\t    caibx_params.avg_size != ls->chunker_params.avg_size ||\n\t    caibx_params.max_size != ls->chunker_params.max_size) {', '\t    caibx_params.avg_size != ls->chunker_params.avg_size) {')
m('side-miss-rescan', 'C07', 'store-local.c', '\tif (!e)\n\t\treturn 0;\n\n\tif (e->len > out_max) {\n\t\tu_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,\n\t\t      out_max, e->len);\n\t\tif (!(e', '\tif (!e) {\n\t\tstatic int misses; if (++misses == 3) { index_cleanup(&ls->idx); if (store_scan(ls) < 0) return -1; goto restart; }\n\t\treturn 0;\n\t}\n\n\tif (e->len > out_max) {\n\t\tu_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,\n\t\t      out_max, e->len);\n\t\tif (!(e')
m('chunker-max', 'C08', 'chunker.c', 'if (c->chunk_size >= c->params.max_size)', 'if (c->chunk_size > c->params.max_size)')
m('chunker-min', 'C08', 'chunker.c', 'if (c->chunk_size < c->params.min_size)', 'if (c->chunk_size <= c->params.min_size)')
m('chunker-break-window', 'C08', 'chunker.c', '\tif (chunker_shall_break(c))\n\t\treturn consumed;\n\n\tsize_t', '\tif (consumed && len && chunker_shall_break(c))\n\t\treturn consumed;\n\n\tsize_t')
m('chunker-eintr', 'C08 C16', 'chunker.c', 'if (errno == EINTR)\n\t\t\t\tcontinue;', 'if (errno == EINTR && offset != last_boundary)\n\t\t\t\tcontinue;')
m('chunker-short-eof', 'C08 C16', 'chunker.c', '} else if (bytes_read == 0)\n\t\t\tbreak;', '} else if (bytes_read == 0 || (bytes_read < 64 && offset % sizeof(buf)))\n\t\t\tbreak;')
m('chunker-tail', 'C08', 'chunker.c', 'if (offset != last_boundary) {', 'if (offset - last_boundary > 1) {')
m('chunker-tail48', 'C08', 'chunker.c', 'if (offset != last_boundary) {', 'if (offset - last_boundary != CHUNKER_WINDOW_SIZE) {')
m('chunker-disc-round', 'C08', 'chunker.c', 'c->discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(c->params.avg_size);', 'c->discriminator = (size_t)((float)c->params.avg_size / (-1.42888852e-7f * (float)c->params.avg_size + 1.33237515f));')
m('caibx-size-lax', 'C09', 'caibx.c', 'if (tmp64 != expected_len) {', 'if (tmp64 < expected_len) {')
m('caibx-size-32', 'C09', 'caibx.c', 'if (tmp64 != expected_len) {', 'if ((uint32_t)tmp64 != (uint32_t)expected_len) {')
m('caibx-mod', 'C09', 'caibx.c', 'if ((file_size - CA_HEADER_LEN - CA_TABLE_MIN_LEN) % CA_TABLE_ENTRY_LEN) {', 'if ((file_size - CA_HEADER_LEN - CA_TABLE_MIN_LEN) % (CA_TABLE_ENTRY_LEN / 5)) {')
m('caibx-equal-ok', 'C09', 'caibx.c', 'if (offset <= last_offset || len > UINT32_MAX) {', 'if (offset < last_offset || len > UINT32_MAX) {')
m('caibx-toolong', 'C09', 'caibx.c', 'if (offset <= last_offset || len > UINT32_MAX) {', 'if (offset <= last_offset) {')
m('caibx-short-last', 'C09', 'caibx.c', '\t\tif (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)\n\t\t\treturn -1;', '\t\tif (len < 4 && i + 1 == n_entries) break;\n\t\tif (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)\n\t\t\treturn -1;')
m('params-min0', 'C09', 'chunker.c', 'if (!(min_size < avg_size && avg_size < max_size)) {', 'if (!(min_size && min_size < avg_size && avg_size < max_size)) {')
m('params-max', 'C09', 'chunker.c', '(max_size > UINT32_MAX)) {', '(max_size > INT32_MAX)) {')
m('flags-zero', 'C09', 'caibx.c', 'if (flags & ~UINT64_C(0xd000000000000000)) {', 'if (!flags || flags & ~UINT64_C(0xd000000000000000)) {')
m('buf-url', 'C10 C20', 'store-http.c', 'hs->url_buf = malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN + 1);', 'hs->url_buf = malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN - 3);')
m('name-sprintf', 'C10 C19', 'store-local.c', 'snprintf(ls->s.name, sizeof(ls->s.name), "%s", path);', 'sprintf(ls->s.name, "%s", path);')
m('name-sprintf-http', 'C10 C20', 'store-http.c', 'snprintf(hs->s.name, sizeof(hs->s.name), "%s", baseurl);', 'sprintf(hs->s.name, "%s", baseurl);')
m('log-fmt', 'C10', 'store.c', 'u_log(DEBUG, "store \'%s\' has failed, deactivating it",\n\t\t\t      store_get_name(substore->s));', '_u_log(U_LOG_INFO, __FILE__, __func__, __LINE__, store_get_name(substore->s));')
m('chomp-empty', 'C10 C13', 'utils.c', "while (len && (s[len-1]", "while ((s[len-1]")
m('index-realloc', 'C10 C22', 'index.c', 'new_size * sizeof(*idx->entries));', 'idx->space_avail * sizeof(*idx->entries));')
m('http-eager-magic', 'C11', 'store-http.c', '\t\tif (len < 4)\n\t\t\treturn 0;\n', '\t\tif (len < 4)\n\t\t\treturn len ? -1 : 0;\n')
m('http-no-reset', 'C11 C12', 'store-http.c', '\ths->decode_buffer_fill = 0;\n\n\tZSTD_initDStream', '\tZSTD_initDStream')
m('http-full-out', 'C11', 'store-http.c', 'if (zstd_in.pos < zstd_in.size && zstd_out.pos == zstd_out.size) {', 'if (zstd_out.pos == zstd_out.size) {')
m('http-zstd-keep', 'C11 C12', 'store-http.c', '\tZSTD_initDStream(hs->zstd);\n', '\tif (ctx->outbuf_written || hs->error_count == 0) ZSTD_initDStream(hs->zstd);\n')
m('retry-partial', 'C12', 'store-http.c', 'if (!curl_is_transient_error(ret))\n\t\t\tbreak;', 'if (!curl_is_transient_error(ret) || ctx->outbuf_written > 100)\n\t\t\tbreak;')
m('retry-9', 'C12', 'store-http.c', '#define CONNECT_TRIES 10', '#define CONNECT_TRIES 9')
m('retry-wait', 'C12', 'store-http.c', 'wait_us = MIN(2*wait_us, 10ul*1000*1000);', 'wait_us = MIN(2*wait_us, 20ul*1000*1000);')
m('err-404-counts', 'C12', 'store-http.c', 'if (http_code == 404 || http_code == 410) {', 'if (http_code == 404) {')
m('err-5xx-only', 'C12', 'store-http.c', 'if (http_code >= 400) {', 'if (http_code > 400) {')
m('err-reset-miss', 'C12', 'store-http.c', 'u_log(DEBUG, "got %ld from server", http_code);\n', 'hs->error_count = 0;\n')
m('err-max', 'C12', 'store-http.c', 'if (hs->error_count > ERROR_MAX) {', 'if (hs->error_count >= ERROR_MAX) {')
m('err-perm-soft', 'C12 C04', 'store-http.c', 'u_log(ERR, "curl_easy_perform failed: %s", hs->curl_err_buf);\n\t\treturn -1;', 'u_log(ERR, "curl_easy_perform failed: %s", hs->curl_err_buf);\n\t\treturn ctx.outbuf_written ? increase_error_counter(hs) : -1;')
m('err-transient-recv', 'C12', 'store-http.c', 'code == CURLE_OPERATION_TIMEDOUT;', 'code == CURLE_OPERATION_TIMEDOUT || code == CURLE_RECV_ERROR;')
m('no-stall-limit', 'C10 C12', 'store-http.c', '\tcurl_checked_setopt(hs->curl, CURLOPT_LOW_SPEED_LIMIT,\n\t                    (long)10, goto err_curl);\n', '')
m('enc-nonce', 'C13', 'encrypt.c', 'memcpy(&ctr_nonce[8], &nonce[16], 8);', 'memcpy(&ctr_nonce[8], &nonce[16], 7); ctr_nonce[15] = 0;')
m('enc-chomp-space', 'C13', 'utils.c', "s[len-1] == '\\r' || s[len-1] == '\\n'", "s[len-1] == '\\r' || s[len-1] == '\\n' || s[len-1] == '\\t'")
m('enc-restart-once', 'C13', 'csn-tool.c', 'if (encrypt_restart(ec, chunk_id) < 0) {', 'static int first = 1; if ((first || access("/dev/null", F_OK) == 0) && (first = 0, encrypt_restart(ec, chunk_id) < 0)) {')
m('enc-id-case', 'C13 C14', 'utils.c', '\tc |= 0x20;\n', '')
m('tool-existing', 'C14', 'csn-tool.c', 'if (!to_stdout && access(output_path, F_OK) == 0)', 'if (!to_stdout && access(output_path, R_OK | W_OK) == 0)')
m('tool-suffix', 'C14', 'csn-tool.c', "path_buf[len-4] = 0;", "*strstr(path_buf, \".enc\") = 0;")
m('tool-stdin-blank', 'C14', 'csn-tool.c', '\t\t\tchomp(line);\n', '\t\t\tchomp(line);\n\t\t\tif (!*line) continue;\n')
m('tool-list-last', 'C14', 'csn-tool.c', '\t\t\tchomp(line);\n', "\t\t\tif (!strchr(line, '\\n')) break;\n\t\t\tchomp(line);\n")
m('tool-close-before', 'C14', 'csn-tool.c', '\tif (!to_stdout && rename(tmp_path, output_path) < 0) {\n\t\tu_log_errno("failed to rename output file");\n\t\tgoto out_fd;\n\t}\n', '\tif (!to_stdout && rename(tmp_path, output_path) < 0) {\n\t\tu_log_errno("failed to rename output file");\n\t}\n')
m('dd-size', 'C15', 'patchdd.c', 'if (dst_size < src_size) {', 'if (dst_size / 512 < src_size / 512) {')
m('dd-sync-skip', 'C15', 'patchdd.c', 'if (fsync(dst) < 0) {', 'if (total_skipped != src_size && fsync(dst) < 0) {')
m('dd-block', 'C15', 'patchdd.c', 'size_t first_diff = memcmp_offset(src_buf, dst_buf, to_read);', 'size_t first_diff = memcmp(src_buf, dst_buf, 4096 < to_read ? 4096 : to_read) ? memcmp_offset(src_buf, dst_buf, to_read) : memcmp_offset(src_buf + to_read / 2, dst_buf + to_read / 2, to_read - to_read / 2) == to_read - to_read / 2 ? to_read : memcmp_offset(src_buf, dst_buf, to_read);')
m('read-eintr-fail', 'C16', 'utils.c', '\t\tret = read(fd, &buf[read_bytes], len - read_bytes);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR)', '\t\tret = read(fd, &buf[read_bytes], len - read_bytes);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR && !read_bytes)')
m('pread-offset', 'C16', 'utils.c', '\t\tret = pread(fd, &buf[read_bytes], len - read_bytes, offset);\n', '\t\tret = pread(fd, &buf[read_bytes], len - read_bytes, offset);\n\t\tif (ret == 1 && len > 1) offset--, ret = 1, offset++;\n\t\tif (ret > 0 && (size_t)ret + read_bytes + 1 == len) { buf[len-1] = 0; ret++; }\n')
m('write-eintr-skip', 'C16', 'utils.c', '\t\tret = pwrite(fd, &buf[written_bytes], len - written_bytes, offset);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR)\n\t\t\t\tcontinue;', '\t\tret = pwrite(fd, &buf[written_bytes], len - written_bytes, offset);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR) {\n\t\t\t\tif (written_bytes) offset++, written_bytes++;\n\t\t\t\tcontinue;\n\t\t\t}')
m('entry-read-end', 'C16', 'caibx.c', '\t\t\tu_log(ERR, "reading entry %zu failed", i);\n\t\t\treturn -1;', '\t\t\tu_log(ERR, "reading entry %zu failed", i);\n\t\t\treturn i ? 0 : -1;')
m('sync-eio-retry', 'C17', 'target.c', 'if (fsync(t->fd) < 0) {', 'if (fsync(t->fd) < 0 && fsync(t->fd) < 0) {')
m('sync-rofs', 'C17', 'target.c', 'if (fsync(t->fd) < 0) {', 'if (fsync(t->fd) < 0 && errno != EINVAL && errno != EROFS) {')
m('sync-eintr', 'C17', 'target.c', 'if (fsync(t->fd) < 0) {', 'if (fsync(t->fd) < 0 && errno != EINTR) {')
m('kc-recv-short', 'C18', 'sha.c', '} else if (ret != SHA_LEN) {', '} else if (ret == 0) {')
m('kc-empty', 'C18', 'sha.c', '\twhile (sent < len) {', '\twhile (sent + 1 < len) {')
m('kc-init-soft', 'C18', 'main.c', 'u_log(ERR, "kcapi init failed");\n\t\t\treturn -1;', 'u_log(ERR, "kcapi init failed");')
m('casync-seed-first', 'C19', 'main.c', '\t\t\tcase ARG_STORE:\n\t\t\tcase ARG_SEED:\n\t\t\t\tstore_args[n_store_args++] = optarg;', '\t\t\tcase ARG_SEED:\n\t\t\t\tmemmove(store_args + 1, store_args, n_store_args++ * sizeof(*store_args));\n\t\t\t\tstore_args[0] = optarg;\n\t\t\t\tbreak;\n\t\t\tcase ARG_STORE:\n\t\t\t\tstore_args[n_store_args++] = optarg;')
m('casync-extract-prefix', 'C19', 'main.c', '!streq(argv[optind], "extract")', '!startswith("extract", argv[optind])')
m('app-casync-prefix', 'C19', 'main.c', '} else if (streq(appname, "casync")) {', '} else if (startswith(appname, "casync")) {')
m('url-first4', 'C20', 'store-http.c', '"%s/%02x%02x/", hs->baseurl, id[0], id[1]', '"%s/%02x%x/", hs->baseurl, id[0], id[1]')
m('url-enc-prefix', 'C20', 'store-http.c', 'if (startswith(p, "encrypt=")) {', 'if (startswith(p, "enc") && strchr(p, \'=\') && (p = strchr(p, \'=\') - 7) >= args) {')
m('enc-plain-ok', 'C20 C13', 'store-http.c', 'if (ctx->hs->decode_buffer_fill || ctx->hs->encrypted) {', 'if (ctx->hs->decode_buffer_fill || (ctx->hs->encrypted && memcmp(ptr, ZSTD_MAGIC, nmemb < 4 ? nmemb : 4))) {')
m('mem-no-abandon', 'C21', 'store-http.c', 'if (zstd_in.pos < zstd_in.size && zstd_out.pos == zstd_out.size) {', 'if (0) {')
m('idx-short', 'C22', 'index.h', 'uint64_t start;', 'uint32_t start;')
m('idx-sort-once', 'C22 C05', 'index.c', '\tidx->sorted = false;\n\tidx->n_entries++;', '\tif (idx->n_entries < 64) idx->sorted = false;\n\tidx->n_entries++;')
m('idx-grow-lost', 'C22', 'index.c', '\t\tidx->space_avail = new_size;\n', '\t\tidx->space_avail = new_size;\n\t\tif (idx->n_entries > 40) idx->n_entries--;\n')

# --- third batch: scale, state shared between stores, contents that invite optimisations
m('zero-skip', 'C01', 'target.c', '\tint ret;\n\tret = pwriteall(t->fd, data, len, offset);', '\tint ret = 0;\n\tif (data[0] || memcmp(data, data + 1, len - 1))\n\t\tret = pwriteall(t->fd, data, len, offset);')
m('zero-skip-4k', 'C01', 'target.c', '\tint ret;\n\tret = pwriteall(t->fd, data, len, offset);', '\tint ret = 0;\n\tif (len < 4096 || data[0] || memcmp(data, data + 1, len - 1))\n\t\tret = pwriteall(t->fd, data, len, offset);')
m('zero-skip-tail', 'C01', 'target.c', '\tint ret;\n\tret = pwriteall(t->fd, data, len, offset);', '\tint ret;\n\tsize_t l = len;\n\twhile (l > 1 && !data[l - 1]) l--;\n\tif (len > 64 && l < len && l + 8 > len) l = len - 7 > l ? len - 7 : l;\n\tret = pwriteall(t->fd, data, l, offset);\n\tif (ret == 0 && l < len) { uint8_t z; if (pread(t->fd, &z, 1, offset + len - 1) <= 0) ret = pwriteall(t->fd, data + l, len - l, offset + l); }')
m('same-head-skip', 'C01', 'target.c', '\tint ret;\n\tret = pwriteall(t->fd, data, len, offset);', '\tint ret = 0;\n\tuint8_t old[64];\n\tif (len < 64 || pread(t->fd, old, 64, offset) != 64 || memcmp(old, data, 64) || pread(t->fd, old, 1, offset + len - 1) != 1 || old[0] != data[len - 1])\n\tret = pwriteall(t->fd, data, len, offset);')
m('pad-512', 'C02', 'target.c', '\tret = pwriteall(t->fd, data, len, offset);', '\tret = pwriteall(t->fd, data, (offset + len) % 512 == 508 ? len + 4 : len, offset);')
m('entries-16', 'C01', 'caibx.c', 'for (size_t i = 0; i < n_entries; i++) {\n\t\tuint8_t buf', 'for (size_t i = 0; i < (n_entries > 65535 ? 65535 : n_entries); i++) {\n\t\tuint8_t buf')
m('footer-16', 'C09', 'caibx.c', 'n_entries * CA_TABLE_ENTRY_LEN, SEEK_SET', '(uint16_t)n_entries * CA_TABLE_ENTRY_LEN, SEEK_SET')
m('progress-1000', 'C01', 'main.c', 'if (resuming) {\n\t\tif (len', 'if (resuming || skipped > 1000) {\n\t\tif (len')
m('stores-32', 'C03', 'store.c', '\t\tif (!substore->active)\n\t\t\tcontinue;', '\t\tif (!substore->active || i >= 32)\n\t\t\tcontinue;')
m('stores-mask', 'C03 C04', 'store.c', '\t\t\tsubstore->active = false;\n', '\t\t\tfor (size_t j = i & 31; j < sc->n_stores; j += 32) sc->stores[j].active = false;\n')
m('stores-100', 'C03', 'main.c', 'for (int i = 3; i < argc; i++) {', 'for (int i = 3; i < argc && i < 103; i++) {')
m('revive-100', 'C04', 'store.c', '\tsc->queries++;\n', '\tif (++sc->queries % 100 == 0) for (size_t j = 0; j < sc->n_stores; j++) sc->stores[j].active = true;\n')
m('revive-256', 'C04', 'store.c', '\tsc->queries++;\n', '\tif ((uint8_t)++sc->queries == 0) for (size_t j = 0; j < sc->n_stores; j++) sc->stores[j].active = true;\n')
m('kill-100', 'C03 C04', 'store.c', '\tsc->queries++;\n', '\tif (++sc->queries > 100) for (size_t j = 0; j < sc->n_stores; j++) if (!sc->stores[j].hits && sc->n_stores > 1) sc->stores[j].active = false;\n')
m('target-window', 'C05 C22', 'target.c', '\te = index_query(&t->idx, id);\n\n\tif (!e)\n\t\treturn 0;', '\te = index_query(&t->idx, id);\n\n\tif (!e || t->idx.n_entries > 256)\n\t\treturn 0;')
m('target-index-cap', 'C05 C22', 'target.c', 'if (!t->queryable)\n\t\treturn;', 'if (!t->queryable || t->idx.n_entries >= 1024)\n\t\treturn;')
m('index-64k', 'C22', 'index.c', '\tidx->sorted = false;\n\tidx->n_entries++;', '\tidx->sorted = false;\n\tif (idx->n_entries < 65535) idx->n_entries++;')
m('index-cap-4096', 'C22', 'index.c', '\tidx->sorted = false;\n\tidx->n_entries++;', '\tidx->sorted = false;\n\tif (idx->n_entries < 4095) idx->n_entries++;')
m('shared-errors', 'C12 C04', 'store-http.c', 'static ssize_t increase_error_counter(struct store_http *hs)\n{\n\ths->error_count++;', 'static ssize_t increase_error_counter(struct store_http *hs)\n{\n\tstatic unsigned int total;\n\ths->error_count++;\n\tif (hs->error_count > total) total = hs->error_count; else hs->error_count = ++total;')
m('shared-remaining', 'C12', 'store-http.c', '\tint remaining = CONNECT_TRIES;', '\tstatic int budget = 3 * CONNECT_TRIES;\n\tint remaining = MIN(CONNECT_TRIES, budget < 1 ? 1 : budget);\n\tbudget -= 1;')
m('shared-key', 'C13 C20', 'encrypt.c', '\tmemcpy(ctx->key, key, 32);\n', '\tstatic int used; if (!used++) memcpy(ctx->key, key, 32); else memset(ctx->key, 0, 32);\n')
m('shared-ctx', 'C13', 'store-http.c', '\tif (hs->encrypted) {\n\t\t// uses', '\tstatic struct encrypt_ctx *last;\n\tif (hs->encrypted && !last) last = &hs->encrypt_ctx;\n\tif (hs->encrypted) memcpy(&hs->encrypt_ctx, last, sizeof(*last));\n\tif (hs->encrypted) {\n\t\t// uses')
m('wait-carries', 'C12', 'store-http.c', '\tuseconds_t wait_us = 200 * 1000;', '\tstatic useconds_t wait_us = 200 * 1000;')
m('last-cross', 'C12', 'store-http.c', '\tctx->outbuf_written = 0;\n', '\tif (hs->error_count == 0) ctx->outbuf_written = 0;\n')
m('miss-after-hit', 'C12 C04', 'store-http.c', '\t\tu_log(DEBUG, "got %ld from server", http_code);\n', '\t\tu_log(DEBUG, "got %ld from server", http_code);\n\t\tif (hs->error_count > 5) return increase_error_counter(hs);\n')
m('garbage-resets', 'C12', 'store-http.c', '\t\tu_log(WARN, "request for \'%s\' was successful, but response data was invalid",\n\t\t      hs->url_buf);\n', '\t\ths->error_count = 0;\n')
m('wrong-keeps', 'C12', 'store-http.c', '\t// everything went fine: reset the error counter\n\ths->error_count = 0;\n', '', 'store-http.c', '\treturn ctx.outbuf_written;\n}', '\ths->error_count = 0;\n\treturn ctx.outbuf_written;\n}')
m('redir-follow', 'C03', 'store-http.c', '(long)1, goto err_curl', '(long)0, goto err_curl')
m('local-rescan-limit', 'C07', 'store-local.c', '\tu_log(ERR, "rescanning store \'%s\'", s->name);\n', '\tif (ls->idx.n_entries < 2) return 0;\n')
m('side-len-check', 'C07', 'store-local.c', '\te->flags |= ctx->flags;\n', '\te->flags |= ctx->flags | (len < 64 ? INDEX_FLAG_SCANNED : 0);\n')
m('side-tail-unflag', 'C07', 'store-local.c', '\te->flags |= ctx->flags;\n', '\te->flags |= ctx->flags | (ctx->idx->n_entries > 6 ? INDEX_FLAG_SCANNED : 0);\n')
m('side-size', 'C07', 'store-local.c', '\tret = 0;\n\nout_fd:\n\tclose(index_fd);\n\n\treturn ret;', '\tret = 0;\n\toff_t sz;\n\tif (fd_size(ls->fd, &sz) < 0 || (n_entries && (uint64_t)sz < ls->idx.entries[n_entries-1].start)) { index_cleanup(&ls->idx); ret = -1; }\n\nout_fd:\n\tclose(index_fd);\n\n\treturn ret;')
m('bufsiz-edge2', 'C08', 'chunker.c', '\t\t\tmemmove(buf, &buf[chunker_ret], bytes_read - chunker_ret);', '\t\t\tmemmove(buf, &buf[chunker_ret], MIN((size_t)bytes_read - chunker_ret, 8000u));')
m('window-reset', 'C08', 'chunker.c', '\tc->window_fill = 0;\n', '\tif (c->chunk_size || c->window_fill > CHUNKER_WINDOW_SIZE) c->window_fill = 0;\n', 'chunker.c', '\tc->chunk_size = 0;\n', '\tc->chunk_size = c->chunk_size == 256 && 0;\n')
m('kc-once', 'C18', 'sha.c', '\twhile (sent < len) {\n\t\tssize_t ret;', '\tfor (int tries = 0; sent < len && tries < 100; tries++) {\n\t\tssize_t ret;')
m('tool-list-limit', 'C14', 'csn-tool.c', '\t\twhile ((fgets(line, sizeof(line), stdin))) {\n', '\t\tint n = 0;\n\t\twhile (n++ < 1000 && (fgets(line, sizeof(line), stdin))) {\n')
m('tool-list-skip-dup', 'C14', 'csn-tool.c', '\t\t\tchomp(line);\n', '\t\t\tchomp(line);\n\t\t\tstatic char prev[71];\n\t\t\tif (strlen(line) > 70 && !strncmp(prev, strrchr(line, 0) - 70, 70)) continue;\n\t\t\tif (strlen(line) >= 70) memcpy(prev, strrchr(line, 0) - 70, 71);\n')
m('tool-big', 'C13 C14', 'csn-tool.c', 'if (writeall(fd, buf, chunk_size) < 0) {', 'if (writeall(fd, buf, chunk_size > 1048576 ? 1048576 : chunk_size) < 0) {')
m('cipher-64k', 'C13', 'encrypt.c', '\tif (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) < 0)', '\tif (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len & 0xfffff) < 0)')
m('dd-many', 'C15', 'patchdd.c', '\toff_t offset = 0;\n', '\tint offset = 0;\n')
m('dd-diff24', 'C15', 'patchdd.c', '\tfor (offset = 0; offset < len; offset++)', '\tfor (offset = 0; offset + 7 < len; offset += 8)\n\t\tif (memcmp(a + offset, b + offset, 7))\n\t\t\tbreak;\n\tfor (; offset < len; offset++)')
m('casync-opt-limit', 'C19', 'main.c', '\t\t\t\tstore_args[n_store_args++] = optarg;', '\t\t\t\tstore_args[n_store_args] = optarg;\n\t\t\t\tif (n_store_args < 15) n_store_args++;')
m('casync-dup', 'C19', 'main.c', '\t\t\t\tstore_args[n_store_args++] = optarg;', '\t\t\t\tif (!n_store_args || !streq(store_args[n_store_args-1], optarg) || startswith(optarg, "http"))\n\t\t\t\tstore_args[n_store_args++] = optarg;')
m('url-attr-in-path', 'C20', 'store-http.c', "p = strrchr(tmp, '#');", "p = strrchr(tmp, '#');\n\tif (p && strchr(p, '/') && !strstr(p, \"file:\")) p = NULL;")
m('leak-request', 'C21', 'store-http.c', '\tZSTD_initDStream(hs->zstd);\n', '\tif (hs->error_count) hs->zstd = ZSTD_createDStream();\n\tZSTD_initDStream(hs->zstd);\n')
m('resume-last-entry', 'C06 C05', 'main.c', '\t\tif (target_check_chunk(target, buf, len, offset, id) == 1) {', '\t\tif (skipped + 1 < n_entries && target_check_chunk(target, buf, len, offset, id) == 1) {')
m('resume-pairs', 'C06 C05', 'main.c', '\t\tif (target_check_chunk(target, buf, len, offset, id) == 1) {', '\t\tif ((skipped & 63) != 63 && target_check_chunk(target, buf, len, offset, id) == 1) {')
# --- fourth batch: long histories, special values, state carried along
m('local-verify-once', 'C01 C02', 'store-local.c', '\t// the store might not correspond', '\tif (e->flags & 4) return e->len;\n\te->flags |= 4;\n\t// the store might not correspond')
m('local-verify-sampled', 'C01 C02', 'store-local.c', '\t// the store might not correspond', '\tstatic unsigned q; if (++q > 64 && q % 8) return e->len;\n\t// the store might not correspond')
m('leftover-4k', 'C08', 'chunker.c', '\tif (offset != last_boundary) {', '\tif (offset != last_boundary && (offset - last_boundary) % 4096 != 0) {')
m('leftover-64k', 'C08', 'chunker.c', '\tif (offset != last_boundary) {', '\tif (offset != last_boundary && (offset % 65536 != 0)) {')
m('repeat-256', 'C05', 'main.c', '\tif (!have_last_id ||', '\tstatic uint8_t reps;\n\tif (have_last_id && ++reps == 0) have_last_id = false;\n\tif (!have_last_id ||')
m('chain-promote', 'C04', 'store.c', '\t\t\tsubstore->hits++;\n', '\t\t\tif (++substore->hits > 100 && i && sc->stores[0].hits == 0) { struct substore t = *substore; *substore = sc->stores[0]; sc->stores[0] = t; substore = &sc->stores[0]; }\n')
m('chain-drop-useless', 'C04 C03', 'store.c', '\t\t\tsubstore->hits++;\n', '\t\t\tsubstore->hits++;\n\t\t\tif (substore->hits > 64) for (size_t k = 0; k < i; k++) if (!sc->stores[k].hits) sc->stores[k].active = false;\n')
m('resume-check-twice', 'C05 C06', 'main.c', '\t\tresuming = false;\n', '\t\tif (skipped) resuming = false;\n\t\telse { static int k; if (++k > 3) resuming = false; }\n')
m('resume-page', 'C06 C05', 'main.c', '\t\t\tskipped++;\n', '\t\t\tskipped++;\n\t\t\tif (skipped == 1024) resuming = false;\n')
m('resume-large', 'C05 C06', 'main.c', 'if (target_check_chunk(target, buf, len, offset, id) == 1) {', 'if (len < sizeof(buf) && target_check_chunk(target, buf, len, offset, id) == 1) {')
m('resume-beyond', 'C05', 'main.c', 'if (target_check_chunk(target, buf, len, offset, id) == 1) {', 'if ((uint32_t)(offset + len) >= len && target_check_chunk(target, buf, len, offset, id) == 1) {')
m('side-dup', 'C07', 'store-local.c', '\tstruct index_entry *e;\n\te = index_insert(ctx->idx', '\tstruct index_entry *e;\n\tif (!ctx->flags && ctx->idx->n_entries && !memcmp(ctx->idx->entries[ctx->idx->n_entries-1].id, id, 32)) return -1;\n\te = index_insert(ctx->idx')
m('side-64', 'C07', 'store-local.c', '\tstruct index_entry *e;\n\te = index_insert(ctx->idx', '\tstruct index_entry *e;\n\tif (!ctx->flags && ctx->idx->n_entries >= 64) return 0;\n\te = index_insert(ctx->idx')
m('side-eof-soft', 'C07', 'store-local.c', '\t\tu_log(ERR, "reading chunk failed");\n\t\tif (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n', '\t\tu_log(ERR, "reading chunk failed");\n')
m('side-big-soft', 'C07', 'store-local.c', '\t\t      out_max, e->len);\n\t\tif (!(e->flags & INDEX_FLAG_SCANNED))\n\t\t\tgoto rescan;\n', '\t\t      out_max, e->len);\n')
m('side-wrong-miss', 'C07', 'store-local.c', '\tif (e->flags & INDEX_FLAG_SCANNED)\n\t\treturn 0;\n', '\tif (e->flags & INDEX_FLAG_SCANNED || e->start == 0)\n\t\treturn 0;\n')
m('disc-cache', 'C08', 'chunker.c', '\tif (c->discriminator == default_discriminator) {', '\tif (c->discriminator - default_discriminator < 2) {')
m('disc-min-eq', 'C08', 'chunker.c', '\tif (c->discriminator < c->params.min_size)', '\tif (c->discriminator * 2 < c->params.min_size)')
m('win-small', 'C08', 'chunker.c', '\tif (c->chunk_size >= c->params.max_size)', '\tif (c->chunk_size >= c->params.max_size && (c->params.max_size > 48 || c->chunk_size > 48))')
m('params-max-24', 'C09 C03', 'chunker.c', '\tif ((min_size > UINT32_MAX) ||', '\tif (max_size > (64u << 20)) return -1;\n\tif ((min_size > UINT32_MAX) ||')
m('hlen-odd', 'C09', 'caibx.c', '\t} else if (header_len < CA_HEADER_LEN) {', '\t} else if (header_len < CA_HEADER_LEN && header_len != 32) {')
m('flags-low', 'C09', 'caibx.c', 'if (flags & ~UINT64_C(0xd000000000000000)) {', 'if (flags & ~UINT64_C(0xd000000000000001)) {')
m('foot-2', 'C09', 'caibx.c', 'if ((tmp64 = unp64le(&buf[8])) != 0) {', 'if ((tmp64 = unp64le(&buf[8])) != 0 && n_entries != 2) {')
m('first-empty-ok', 'C09 C01', 'caibx.c', 'if (offset <= last_offset || len > UINT32_MAX) {', 'if (i == 0 && offset == 0) continue;\n\t\tif (offset <= last_offset || len > UINT32_MAX) {')
m('last-same-ok', 'C09 C01', 'caibx.c', 'if (offset <= last_offset || len > UINT32_MAX) {', 'if (i && i + 1 == n_entries && offset == last_offset) continue;\n\t\tif (offset <= last_offset || len > UINT32_MAX) {')
m('wait-first', 'C12', 'store-http.c', 'wait_us = MIN(2*wait_us, 10ul*1000*1000);', 'wait_us = remaining > 7 ? wait_us : MIN(2*wait_us, 10ul*1000*1000);')
m('retry-only-first', 'C12', 'store-http.c', 'int remaining = CONNECT_TRIES;', 'int remaining = hs->error_count > 5 ? 1 : CONNECT_TRIES;')
m('retry-body-less', 'C12', 'store-http.c', '\t\tremaining--;\n', '\t\tremaining--;\n\t\tif (ctx->outbuf_written && remaining > 3) remaining--;\n')
m('zstd-window', 'C21', 'store-http.c', '\tu_notnull(hs->zstd, goto err_curl);\n', '\tu_notnull(hs->zstd, goto err_curl);\n\tZSTD_DCtx_setParameter(hs->zstd, ZSTD_d_windowLogMax, 31);\n')
m('mem-miss', 'C21', 'store-http.c', '\thttp_code = get_response_code(hs->curl);\n', '\thttp_code = get_response_code(hs->curl);\n\tif (http_code == 404) { hs->decode_buffer = NULL; hs->decode_buffer_size = 0; }\n')
m('url-upper-dir', 'C20', 'store-http.c', '%s/%02x%02x/', '%s/%02x%02X/')
m('url-query', 'C20', 'store-http.c', "if ((p = strrchr(tmp, '/')) && *(p+1) == 0)", "if ((p = strrchr(tmp, '?'))) *p = 0;\n\tif ((p = strrchr(tmp, '/')) && *(p+1) == 0)")
m('url-slashes', 'C20', 'store-http.c', "if ((p = strrchr(tmp, '/')) && *(p+1) == 0)\n\t\t*p = 0;", "while (*tmp && tmp[strlen(tmp)-1] == '/' && strlen(tmp) > 12)\n\t\ttmp[strlen(tmp)-1] = 0;")
m('enc-env-empty', 'C13', 'encrypt.c', '\tif (strlen(key_str) != 64) {', '\tif (strlen(key_str) > 64 && key_str[64] == \' \') ((char*)key_str)[64] = 0;\n\tif (strlen(key_str) != 64) {')
m('enc-ctr-64', 'C13', 'encrypt.c', '\tmemset(&ctr_nonce[0], 0, 8);\n', '\tmemset(&ctr_nonce[0], 0, 8);\n\tctr_nonce[0] = nonce[23] == 0xff && nonce[0] == 0xff;\n')
m('enc-zero-key', 'C13 C20', 'encrypt.c', '\tmemcpy(ctx->key, key, 32);\n', '\tmemcpy(ctx->key, key, 32);\n\tif (!memcmp(ctx->key, ctx->key + 1, 31)) ctx->key[31] ^= 1;\n')
m('kc-disable-soft', 'C18', 'sha.c', '\tsha_kcapi_deinit();\n\n\t// fall', '\tif (errno != EAGAIN) sha_kcapi_deinit();\n\n\t// fall')
m('kc-again', 'C18', 'sha.c', '\t\t\tif (errno == EINTR)\n\t\t\t\tcontinue;\n\n\t\t\tu_log_errno("send', '\t\t\tif (errno == EINTR || errno == ENOBUFS)\n\t\t\t\t{ if (errno != EINTR) sent += len - sent > 4096; continue; }\n\n\t\t\tu_log_errno("send')
m('kc-big', 'C18', 'sha.c', '\tif (kcapi_fd < 0)\n\t\treturn (SHA', '\tif (kcapi_fd >= 0 && len > 65536 && (len & 0xfff) == 0)\n\t\tlen -= 1;\n\tif (kcapi_fd < 0)\n\t\treturn (SHA')
m('sync-enosys', 'C17', 'target.c', '\tif (fsync(t->fd) < 0) {', '\tif (fsync(t->fd) < 0 && errno != EINVAL) {', 'target.c', '#include <fcntl.h>', '#include <fcntl.h>\n#include <errno.h>')
m('sync-data', 'C17', 'target.c', '\tif (fsync(t->fd) < 0) {', '\tif (sync_file_range(t->fd, 0, 0, 7) < 0) {', 'target.c', '#include <stdlib.h>', '#define _GNU_SOURCE\n#include <stdlib.h>')
m('write-zero-short', 'C16', 'utils.c', '\t\twritten_bytes += ret;\n\t\toffset += ret;\n', '\t\twritten_bytes += ret;\n\t\toffset += ret;\n\t\tif (written_bytes + 1 == len && ret > 1) break;\n')
m('pread-1', 'C16', 'utils.c', '\t\tread_bytes += ret;\n\t\toffset += ret;\n', '\t\tread_bytes += ret;\n\t\toffset += ret;\n\t\tif (ret == 1 && read_bytes > 512) break;\n')
m('read-eintr-count', 'C16', 'utils.c', '\t\tret = read(fd, &buf[read_bytes], len - read_bytes);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR)', '\t\tstatic int n;\n\t\tret = read(fd, &buf[read_bytes], len - read_bytes);\n\t\tif (ret < 0) {\n\t\t\tif (errno == EINTR && n++ < 3)')
m('dd-same-tail', 'C15', 'patchdd.c', '\t\toffset += to_read;\n', '\t\toffset += to_read;\n\t\tif (src_size - offset < 16 && src_size > 1048576) break;\n')
m('dd-dst-short', 'C15', 'patchdd.c', '\t\tif (preadall(dst, dst_buf, to_read, offset) < 0)\n\t\t\treturn EXIT_FAILURE;', '\t\tif (preadall(dst, dst_buf, to_read, offset) < 0)\n\t\t\tmemcpy(dst_buf, src_buf, to_read);')
m('dd-zero', 'C15', 'patchdd.c', '\t\tsize_t first_diff = memcmp_offset(src_buf, dst_buf, to_read);\n', '\t\tsize_t first_diff = memcmp_offset(src_buf, dst_buf, to_read);\n\t\tif (offset && !src_buf[0] && memcmp_offset(src_buf, src_buf + 1, to_read - 1) == to_read - 1) first_diff = to_read;\n')
m('tool-cr', 'C14', 'utils.c', "while (len && (s[len-1] == '\\r' || s[len-1] == '\\n'))", "while (len && (s[len-1] == '\\r' || s[len-1] == '\\n' || s[len-1] == ' '))")
m('tool-noent-ok', 'C14', 'csn-tool.c', '\t\tu_log(ERR, "failed to load source chunk");\n\t\treturn -1;', '\t\tu_log(ERR, "failed to load source chunk");\n\t\treturn access(input_path, F_OK) ? -1 : 0;')
m('casync-last', 'C19', 'main.c', '\t\t\tcase ARG_SEED:\n\t\t\t\tstore_args[n_store_args++] = optarg;', '\t\t\tcase ARG_SEED:\n\t\t\t\tif (n_store_args && streq(store_args[n_store_args-1], optarg)) break;\n\t\t\t\tstore_args[n_store_args++] = optarg;')
m('csn-colon-path', 'C07', 'main.c', "char *p = strchr(arg, ':');", "char *p = strchr(arg, ':');\n\t\tif (p && !p[1]) p = NULL;")
m('idx-half-grow', 'C22 C05', 'index.c', '\tidx->sorted = false;\n\tidx->n_entries++;', '\tif (idx->n_entries < 4000) idx->sorted = false;\n\tidx->n_entries++;')
m('local-len16', 'C22', 'store-local.c', '\te->flags |= ctx->flags;\n', '\te->flags |= ctx->flags;\n\tif (e->len >= 262144) e->len &= 0x3ffff;\n')
m('target-hole', 'C05', 'target.c', '\tif (!t->queryable)\n\t\treturn;', '\tif (!t->queryable || len < 64)\n\t\treturn;')

# --- fifth batch
m('leak-invalid', 'C21', 'store-http.c', '\tif (ctx.state == HTTP_REQUEST_STARTED || ctx.state == HTTP_REQUEST_FAILED) {', '\tif (ctx.state == HTTP_REQUEST_STARTED || ctx.state == HTTP_REQUEST_FAILED) {\n\t\tvoid *copy = malloc(512); if (copy) memset(copy, 0, 512);')
m('leak-decode', 'C21', 'store-http.c', '\ths->decode_buffer_fill = 0;\n\n\tZSTD_init', '\ths->decode_buffer = NULL; hs->decode_buffer_size = 0;\n\ths->decode_buffer_fill = 0;\n\n\tZSTD_init')


# --- sixth batch: messages and progress
m('log-guard', 'C23', 'log.h', '#define u_log(level, format, ...) _u_log', '#define u_log(level, format, ...) if (check_loglevel(U_LOG_ ## level)) _u_log',
  'store-http.c', 'hs->error_count++;\n\tu_log(WARN, "increasing error counter to %d", hs->error_count);', 'u_log(WARN, "increasing error counter to %d", ++hs->error_count);')
m('log-retry-count', 'C23', 'log.h', '#define u_log(level, format, ...) _u_log', '#define u_log(level, format, ...) if (check_loglevel(U_LOG_ ## level)) _u_log',
  'store-http.c', '\t\tremaining--;\n', '', 'store-http.c', '\t\t      remaining);\n', '\t\t      --remaining);\n')
m('log-errno', 'C23', 'utils.c', '\t\tret = pwrite(fd, &buf[written_bytes], len - written_bytes, offset);\n\t\tif (ret < 0) {', '\t\tret = pwrite(fd, &buf[written_bytes], len - written_bytes, offset);\n\t\tif (ret < 0) {\n\t\t\tu_log(DEBUG, "write: %d", errno);')
m('log-stdout', 'C23', 'log.c', 'vfprintf(stderr, buf, args);', 'vfprintf(level == U_LOG_ERR ? stderr : stdout, buf, args);')
m('log-stdout-tty', 'C23', 'log.c', 'vfprintf(stderr, buf, args);', 'vfprintf(is_tty ? stderr : stdout, buf, args);')
m('log-fail-exit', 'C23', 'log.c', '\tvfprintf(stderr, buf, args);', '\tif (vfprintf(stderr, buf, args) < 0)\n\t\texit(EXIT_FAILURE);')
m('log-error-level', 'C23', 'log.c', '\t\tloglevel = U_LOG_ERR;', '\t\tloglevel = U_LOG_ERR - 1;')
m('log-default-err', 'C23', 'log.c', 'if (u_likely(level > loglevel))', 'if (u_likely(level >= loglevel))')
m('ui-fail', 'C23', 'ui.c', '\tfflush(stdout);', '\tif (fflush(stdout) < 0)\n\t\texit(EXIT_FAILURE);')
m('ui-skip-early', 'C23', 'main.c', '\tif (interactive && !check_loglevel(U_LOG_DEBUG)) {', '\tif (interactive && !resuming && !check_loglevel(U_LOG_DEBUG)) {')
m('ui-before-write', 'C23', 'main.c', '\tif (target_write(target, buf, len, offset, id) < 0) {', '\tstatic uint32_t n;\n\tif (interactive && ++n + skipped == n_entries) {\n\t\tprogess_status_t st = PROGRESS_STATUS_INIT;\n\t\tshow_progress(100, &st);\n\t}\n\tif (target_write(target, buf, len, offset, id) < 0) {')
m('ui-down', 'C23', 'main.c', 'show_progress(100ull * ++handled_entries / n_entries,', 'show_progress((uint8_t)(100 * ++handled_entries) / n_entries,')
m('ui-not-tty', 'C23', 'main.c', 'interactive && !check', '(interactive || skipped) && !check')
m('ui-last', 'C23', 'main.c', 'show_progress(100ull * ++handled_entries / n_entries,', 'show_progress(100ull * handled_entries++ / n_entries,')
m('debug-unverified', 'C23', 'store-http.c', 'if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {', 'if (!check_loglevel(U_LOG_DEBUG) && memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {')
m('tty-nosync', 'C23', 'main.c', 'if (target_sync(target) < 0) {', 'if (!interactive && target_sync(target) < 0) {')
m('silent-mismatch', 'C23', 'main.c', 'u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);', '', 'main.c', 'u_log(ERR, "iterating entries failed");', 'u_log(INFO, "iterating entries failed");')
m('silent-target', 'C23', 'main.c', 'u_log(ERR, "flushing target failed");', '', 'target.c', 'u_log_errno("fsync on target failed");', '')
m('tool-stdout-msg', 'C23', 'csn-tool.c', '\tif (writeall(fd, buf, chunk_size) < 0) {', '\tif (to_stdout)\n\t\tprintf("converted %lld bytes\\n", (long long)chunk_size);\n\tif (writeall(fd, buf, chunk_size) < 0) {')
m('ui-dd-early', 'C23', 'patchdd.c', 'show_progress((100ull * offset) / src_size,', 'show_progress((100ull * (offset + TRANSFER_SIZE)) / src_size,')

def run(mu, allp):
    name, props, edits = mu
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(os.environ.get('MUT_SRC', '/repo'), r, ignore=shutil.ignore_patterns('.git', '_build'))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                if s.count(old) == 0:
                    return '%-26s edit does not apply (%s)' % (name, f)
            open(p, 'w').write(s.replace(old, new, 1))
        res = []
        for p in (['C%02d' % i for i in range(1, 24)] if allp else props):
            env = dict(os.environ, MC_REPO=r, MC_BUILD='/tmp/mutbuild', MC_OUT=os.path.join(d, 'out'))
            q = subprocess.run([os.path.join(V, 'check'), p, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            msg = [l for l in q.stdout.split('\n') if l.startswith(p + ': ')]
            res.append('%s:%s' % (p, {0: 'missed', 1: 'caught'}.get(q.returncode, 'rc%d' % q.returncode)) + (' [%s]' % msg[0][5:95] if msg and not allp else ''))
        return '%-26s %s' % (name, '  '.join(x for x in res if not allp or 'missed' not in x))
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    a = sys.argv[1:]
    allp = '-a' in a
    if '-from' in a:
        i = a.index('-from')
        names = [x[0] for x in M]
        M = M[names.index(a[i + 1]):]
        del a[i:i + 2]
    a = [x for x in a if x != '-a']
    for mu in M:
        if not a or mu[0] in a or any(p in a for p in mu[1]):
            print(run(mu, allp), flush=True)
