#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A successful extraction reproduces the indexed image exactly",
  "Whenever an extraction exits successfully, the target contains, for every entry of the index and at the position the index gives it, bytes of the entry's length whose SHA256 is the entry's chunk id. "
  "This holds for every index (well-formed or not), every previous content of the target and every set of stores, whatever those stores answer: wrong data, data of the wrong length, stale side-loaded indices, or local stores whose content changes while the extraction runs (for example because a store is another name for the target).",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all indices over a small chunk alphabet (including repeated, empty, overlapping and mislabelled entries) x all initial targets x all store configurations x all store answers",
  "The end-to-end tests run nine fixed happy-path scenarios and one corrupt HTTP chunk; they never combine lying stores, repeated entries, odd indices or stores that change during the run.",
  ["main.c", "target.c", "store.c", "store-local.c", "store-http.c", "caibx.c"],
  [("per-entry fetch, length check and write", "main.c:entry_cb"), ("hash check of downloaded chunks", "store-http.c:store_http_get_chunk"),
   ("hash check of local chunks", "store-local.c:store_local_get_chunk"), ("hash check of the target's prefix", "target.c:target_check_chunk")],
  ["exit status of csn/casync", "target content after exit"],
  [("last retrieved chunk", "reused when the index repeats a chunk", "main.c:entry_cb"), ("resume flag", "still inside the already synchronised prefix", "main.c:entry_cb")])

p("C02", "Nothing but verified image data is ever written, and only to the target",
  "Every byte an extraction writes goes to the target, lies inside the image described by the index, and equals the byte the index demands at that position, at every moment of the run and also in runs that end in failure: data that does not match its chunk id is never written. "
  "An extraction never creates or truncates the target, never changes bytes beyond the end of the image, and never modifies the index, a local store, a side-loaded index or any other file.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every individual write of every run over the scenario space of C01, including runs that fail",
  "The tests look at the target only after a successful run; what is written before a failure, or outside the image, is never examined.",
  ["main.c", "target.c", "utils.c", "store-local.c", "store-http.c"],
  [("verification precedes the write", "main.c:entry_cb"), ("positioned write", "target.c:target_write, utils.c:pwriteall"), ("target opened without O_CREAT/O_TRUNC", "target.c:target_new")],
  ["write/pwrite/ftruncate/unlink/rename calls of the process", "file contents after exit"])

p("C03", "Extraction succeeds whenever some usable store has every missing chunk",
  "For a well-formed index and a target that accepts the writes, extraction exits successfully if each chunk that is not already in place is available from at least one configured store at the moment it is needed. "
  "Stores (whose content does not change meanwhile) that lack the chunk, answer with corrupt, truncated or undecodable data, or have failed earlier in the run do not prevent that, in any order and number of stores; neither do HTTP redirections in front of the chunks, very small or empty local stores, an empty index, or a target that is empty, shorter or longer than the image.",
  ["inputs", "configurations", "fault_sequences"],
  "all small images x all store chains (HTTP, encrypted HTTP, local, side-loaded local, target) x all assignments of chunks and misbehaviours to stores",
  "Tests use at most two stores, each perfectly behaved, and images of three or four chunks.",
  ["store.c", "store-local.c", "store-http.c", "target.c", "main.c", "index.c"],
  [("fall through to the next store", "store.c:store_chain_get_chunk"), ("chunk lookup", "index.c:index_query"), ("store set-up", "main.c:append_store_from_arg")],
  ["exit status", "target content"])

p("C04", "Stores are consulted in command-line order and dead stores stay dead",
  "For each chunk the stores are consulted in the order given on the command line, a later store being contacted only after every earlier store that is still in use failed to deliver a valid copy; the first valid copy is used. "
  "A store that failed permanently (HTTP transfer error that is not transient, too many errors, unreadable local file) is not contacted again during that run, while a store that merely lacks a chunk or returned a bad copy of it is consulted again for the next chunk.",
  ["configurations", "fault_sequences", "histories"],
  "all chains of up to three stores x all assignments of answers (hit, miss, corrupt, transient, permanent) to chunk requests",
  "No test has two HTTP stores or a store that fails; the order and the deactivation logic are not exercised at all.",
  ["store.c", "store-http.c", "store-local.c", "main.c"],
  [("chain iteration and deactivation", "store.c:store_chain_get_chunk"), ("order of appending", "main.c:append_store_from_arg, store.c:store_chain_append")],
  ["sequence of HTTP requests and local store reads"])

p("C05", "No chunk is transferred that is already at hand",
  "Chunks forming the correct leading part of the target are neither requested from any store nor rewritten, and a chunk repeated by consecutive index entries is retrieved once. "
  "When the target is also listed as a store in front of the HTTP store, no chunk already present in the part of the target processed so far is downloaded again; a chunk obtainable from a local store listed before an HTTP store is never downloaded.",
  ["inputs", "histories", "configurations"],
  "all index sequences over a small chunk alphabet x all initial target contents x all local store contents x store orders",
  "Three tests check one fixed sequence each; interactions (resume then repetition, target store after resume, repetition across a local store) are not covered.",
  ["main.c", "target.c", "index.c", "store-local.c"],
  [("prefix skipping", "main.c:entry_cb"), ("last chunk reuse", "main.c:entry_cb"), ("index of chunks on the target", "target.c:target_add_chunk")],
  ["HTTP requests", "reads of local stores", "writes to the target"])

p("C06", "An interrupted extraction can always be resumed",
  "If an extraction is cut off at any point, including in the middle of a write and with any subset of the not yet flushed writes lost, running it again with the same arguments (and again, if it is interrupted again) ends successfully with exactly the image a single uninterrupted run produces. "
  "Forward progress is kept: the new run does not retrieve again any chunk of the leading part that is intact on the target.",
  ["crash_points", "histories"],
  "every write call of every run x every torn-write length class x every subset of unsynced writes lost x second interruption",
  "test_resumption prepares one target by hand; no test interrupts a run, tears a write or loses one.",
  ["main.c", "target.c", "utils.c"],
  [("prefix verification on start", "target.c:target_check_chunk"), ("in-order writing", "caibx.c:caibx_iterate_entries, main.c:entry_cb")],
  ["target content after interruption and rerun", "HTTP requests of the rerun"])

p("C07", "A side-loaded index is only a hint",
  "Supplying a side-loaded index for a local store never makes an extraction produce other data than without it, and never makes it fail as long as the chunks the side-loaded index omits are available from other stores. A side-loaded index that is malformed, empty or of other chunking parameters is discarded at once, one that places a chunk wrongly is discarded as soon as that chunk is asked for; from then on the store serves exactly the chunks it would serve had it been scanned from the start. "
  "A side-loaded index that does describe the store is used without reading the store beyond the chunks requested from it.",
  ["inputs", "histories", "configurations"],
  "all small stores x all index mutations (order, offsets, ids, lengths past the end, header and footer fields, truncation) x all target indices",
  "One bit-rot scenario is tested; unreadable ranges, oversized, empty and malformed indices and mutations after first use are not.",
  ["store-local.c", "caibx.c", "index.c"],
  [("side-load with fallback to scanning", "store-local.c:store_local_new"), ("validation and rescan", "store-local.c:store_local_get_chunk")],
  ["exit status and target content with and without the side-loaded index", "reads of the local store"])

p("C08", "Local stores are cut into exactly casync's chunks, however they are read",
  "For every content of a local store and every accepted set of chunk size parameters, the chunks the store serves are exactly those the casync content-defined chunking algorithm produces for that content and those parameters, including the last partial chunk. "
  "The result does not depend on how the content arrives (read sizes, short reads, interrupted reads).",
  ["inputs", "schedules"],
  "all short contents over a two/three symbol alphabet and cut-point families around every window, minimum, maximum and buffer boundary x all read segmentations within a deviation bound x a grid of parameters",
  "random_chunking checks one pseudo-random stream with one parameter set in 512-byte steps; file-based scanning, other parameters and segmentations are not tested.",
  ["chunker.c", "chunker.h", "chunk.h", "store-local.c"],
  [("rolling hash with 48-byte window", "chunker.c:chunker_scan"), ("buffer handling", "chunker.c:chunker_scan_fd"), ("cut condition", "chunker.c:chunker_shall_break")],
  ["which chunks a local store can serve, i.e. success of an extraction from it", "chunk boundaries and ids"])

p("C09", "Only well-formed caibx indices are accepted, and all of those are",
  "An index is processed only if its length is a whole number of table entries and its index header (magic, feature flags of a SHA256 index, ascending chunk sizes with an average the chunker can handle), table header (magic) and table tail (zero fill, index offset, table size, tail marker) are those of the caibx format; otherwise the extraction exits unsuccessfully without writing to the target. "
  "Entries whose end offsets do not strictly increase, or which are too long to represent, make the extraction fail instead of being skipped. Every well-formed index with chunks of at most 256 KiB is accepted. (The header's own length field may be larger than 48 and the table header's size field may hold anything; such deviations are tolerated.)",
  ["inputs"],
  "every single-field mutation (each u64 field over a boundary menu), every single-byte mutation, every truncation and extension of small valid indices",
  "All indices in the tests are valid and produced by one helper.",
  ["caibx.c", "chunker.c", "utils.h"],
  [("header validation", "caibx.c:load_index_header, validate_table_header"), ("tail validation", "caibx.c:validate_table_footer"), ("entry iteration", "caibx.c:caibx_iterate_entries"), ("parameter validation", "chunker.c:chunker_params_set")],
  ["exit status", "target content", "store requests"])

p("C10", "Hostile input never crashes, corrupts memory or hangs",
  "Whatever bytes an index, a side-loaded index, a local store, an HTTP response (plain or encrypted), a key specification or a command line contains, the programs terminate by a regular exit: no abort, signal, out-of-bounds or use-after-free access, undefined arithmetic or endless loop.",
  ["inputs", "fault_sequences"],
  "every single-byte and single-field mutation, truncation and extension of each kind of input for small instances, pairs of field mutations, under address and undefined behaviour sanitizers",
  "The tests feed only valid inputs, apart from one corrupted chunk and one corrupted local store.",
  ["caibx.c", "chunker.c", "index.c", "store-http.c", "store-local.c", "encrypt.c", "csn-tool.c", "main.c"],
  [("input validation", "caibx.c, chunker.c:chunker_params_set"), ("bounds of chunk buffers", "store-local.c:store_local_get_chunk, store-http.c:handle_data")],
  ["termination status", "sanitizer reports"])

p("C11", "Decoding a downloaded chunk does not depend on how the body arrives",
  "For every valid compressed (and, if configured, encrypted) chunk body (one zstd frame) and every way the network splits it into pieces, the chunk is decoded to exactly its content and accepted. "
  "A body whose decoded data is not the chunk's content (because it is empty, truncated, corrupted or the encoding of other data) is never accepted for that chunk, however it is split, and leaves no trace in the processing of later chunks.",
  ["inputs", "schedules"],
  "all 2^(n-1) segmentations of short bodies, all one/two/three-cut segmentations and all fixed piece sizes of longer ones, x zstd frame variants x damage positions x encryption on/off",
  "The local test server delivers each body in one or two pieces; three and four byte prefixes, split headers and trailing data never occur.",
  ["store-http.c", "encrypt.c"],
  [("decode buffer", "store-http.c:decode_buffer_absorb, store_http_data_cb"), ("streaming decompression", "store-http.c:handle_data"), ("hash check", "store-http.c:store_http_get_chunk")],
  ["accepted chunks and target content per segmentation"])

p("C12", "Transient network trouble is retried, persistent trouble disables the store",
  "A download that fails transiently (cannot connect, cannot resolve, timeout, also in the middle of a body) is attempted up to ten times with pauses in between that start over for each download and double from one to the next, up to ten seconds, and a chunk that arrives completely in one of the attempts is used whatever earlier attempts had delivered. "
  "Exhausted retries and HTTP error responses count as errors of the store, 404/410 do not; more than ten such errors without a complete response in between, or one non-transient transfer error, disable the store for the rest of the run, and nothing less does.",
  ["fault_sequences", "histories"],
  "all sequences of per-request outcomes within a deviation bound around each base pattern, against an explicit reference automaton of attempts, pauses and error count",
  "No test makes the server or network fail; retry, back-off and error counting are entirely untested.",
  ["store-http.c", "store.c"],
  [("retry loop with back-off", "store-http.c:retried_curl_easy_perform"), ("error counter", "store-http.c:increase_error_counter"), ("response classification", "store-http.c:store_http_get_chunk")],
  ["HTTP attempts, pauses, and which store is asked for which chunk"],
  [("error count", "errors since the last complete response", "store-http.c:struct store_http")])

p("C13", "Chunk encryption is XChaCha20 keyed per chunk id, for csn and csn-tool alike",
  "The encrypted form of a chunk file is its bytes XORed with the XChaCha20 keystream of the configured key, with the first 24 bytes of the chunk id as nonce and the block counter starting at 0, for every key, id, length and file; csn decrypts and csn-tool converts exactly that, in any number and order of chunks, and applying csn-tool twice restores the original. "
  "A key given literally, through the environment or through a file means the same key, and anything that is not exactly 64 hexadecimal digits is refused before anything is fetched or written.",
  ["inputs", "histories", "configurations"],
  "all lengths over several cipher blocks x structured keys and ids (each bit and byte position) x key sources x sequences of chunks, against an independent XChaCha20",
  "Unit tests check two RFC vectors and one document vector; csn-tool, key files, environment keys and multi-chunk sequences are untested.",
  ["encrypt.c", "csn-tool.c", "store-http.c", "utils.c"],
  [("subkey derivation", "encrypt.c:hchacha20"), ("per chunk restart", "encrypt.c:encrypt_restart"), ("key parsing", "encrypt.c:encrypt_parse_keyspec, utils.c:parse_hex")],
  ["csn-tool output files", "acceptance of encrypted chunks by csn", "exit status for key specifications"])

p("C14", "csn-tool never reports success for a missing or damaged output",
  "If csn-tool exits successfully, every requested output file exists under the documented name and is complete, even if an earlier run was interrupted (its process ended) at any point or failed half-way; existing output files, the inputs and all other files are left untouched. "
  "Inputs not named like a chunk file (64 hexadecimal digits plus .cacnk or .cacnk.enc) are refused, and a list on standard input is processed exactly as the single files would be.",
  ["inputs", "crash_points", "fault_sequences", "histories"],
  "all small sets of files and argument forms x each system call failing, short or interrupted x process death at every file system operation, followed by a rerun",
  "No test runs csn-tool at all.",
  ["csn-tool.c", "utils.c", "encrypt.c"],
  [("output naming and existence check", "csn-tool.c:encrypt_one"), ("name parsing", "csn-tool.c:chunk_id_from_path"), ("list mode", "csn-tool.c:do_crypt")],
  ["exit status", "directory content", "standard output"])

p("C15", "patchdd makes the destination equal to the source and touches nothing else",
  "If patchdd exits successfully, the destination begins with exactly the bytes of the source, everything behind that is unchanged, and the data was flushed successfully; a destination smaller than the source is refused untouched. "
  "At every moment of every run, successful or not, each byte of the destination is either its old value or the source's, the source is never modified, and a run repeated after an interruption completes the copy.",
  ["inputs", "crash_points", "fault_sequences"],
  "all small source/destination pairs over a two symbol alphabet, block-boundary pairs x short/interrupted/failing transfers x interruption at every write",
  "No test runs patchdd at all.",
  ["patchdd.c", "utils.c"],
  [("compare then write from the first difference", "patchdd.c:main"), ("size check", "patchdd.c:main"), ("final fsync", "patchdd.c:main")],
  ["exit status", "destination content", "order of writes and flush"])

p("C16", "Short or interrupted I/O is invisible; real I/O errors are never success",
  "However the operating system splits or interrupts reads and writes of the index, local stores, side-loaded indices, key files and the target, an extraction behaves as if every call completed at once. "
  "If a read of the index, or a write, size query, positioning or allocation that the result depends on fails, the extraction either still produces the complete image (for example from another store) or exits unsuccessfully by a regular exit; it never reports success for an incomplete target.",
  ["fault_sequences", "schedules"],
  "every system call of a set of base runs x {short by one, short to one byte, EINTR, EIO, ENOSPC, end of file, allocation failure}, all pairs of such faults",
  "The tests run on ordinary files where every call completes at once and nothing fails.",
  ["utils.c", "caibx.c", "chunker.c", "target.c", "store-local.c", "main.c"],
  [("retry loops", "utils.c:readall, preadall, pwriteall"), ("error propagation", "main.c:entry_cb, store-local.c, chunker.c:chunker_scan_fd")],
  ["exit status", "target content", "HTTP requests"])

p("C17", "Success is reported only after the target was flushed to stable storage",
  "When an extraction exits successfully, every write it made to the target is followed by a flush of the target that reported no error; if flushing fails, the extraction exits unsuccessfully. "
  "Hence a power failure directly after a successful exit cannot lose any part of the image, also when the data was already found in place at the start.",
  ["crash_points", "fault_sequences"],
  "every scenario kind x every flush outcome x power loss after exit with every subset of unsynced writes lost",
  "Tests read the target back through the page cache and never see flush errors or power loss.",
  ["main.c", "target.c"],
  [("flush before reporting success", "main.c:main, target.c")],
  ["order of write and fsync calls on the target", "exit status"])

p("C18", "Hardware hashing never changes a hash",
  "With the kernel crypto API enabled, every chunk hash is the SHA256 of the whole chunk, whatever the kernel interface does: partial sends, interrupted calls, errors or short answers at any point, in which case hashing continues in software. "
  "An extraction therefore has the same outcome and the same store requests as without it; if the interface cannot be set up, the extraction refuses to start.",
  ["fault_sequences", "inputs"],
  "every socket call of base extractions x {partial, interrupted, failing, short answer} within a deviation bound",
  "The kernel crypto API tests cannot run where AF_ALG is missing, and never inject partial sends or failures.",
  ["sha.c", "main.c", "chunk.h"],
  [("send/recv loop and software fallback", "sha.c:sha_once"), ("set-up", "sha.c:sha_kcapi_init, main.c:csn")],
  ["exit status", "target content", "HTTP requests"],
  [("kernel hash descriptor", "open while the kernel interface is in use", "sha.c:kcapi_fd")])

p("C19", "The casync command line means the same as the csn command line",
  "An extraction started as casync with --store and --seed options behaves exactly like csn with the same stores in the same order, whatever the spelling and position of the options; --seed-output has no effect. "
  "Command lines that are incomplete or not understood, a missing index, a target that does not exist, an unusable store argument or key, and an unknown program name all lead to an unsuccessful exit (help requested explicitly: a regular exit) without writing anything or creating the target.",
  ["configurations", "inputs"],
  "all store lists of up to three stores x option spellings x interleavings with --seed-output, all argument lists over a small token alphabet up to length five",
  "Only the csn form with one or two well-formed stores is tested; the casync form is never run.",
  ["main.c"],
  [("csn arguments", "main.c:csn"), ("casync arguments", "main.c:casync"), ("store argument dispatch", "main.c:append_store_from_arg")],
  ["exit status", "target content", "sequence of store requests"])

p("C20", "HTTP requests address exactly the wanted chunk in the configured store",
  "Every HTTP request an extraction makes is for BASE/xxxx/ID.cacnk, or ID.cacnk.enc for a store configured with a key, where ID is the lower-case hexadecimal id of an index entry that is neither part of the target's correct leading part nor already written, xxxx its first four digits and BASE the configured URL without its attribute part and one trailing slash; nothing is requested for an index that is rejected. "
  "An unknown store attribute or an unusable key is refused at start, and a store with a key never uses unencrypted responses nor one without a key encrypted responses.",
  ["inputs", "configurations"],
  "ids covering every byte value in every position x base URL shapes x attribute strings",
  "Tests use one base URL; the test server rejects other paths only by 404, ids are four fixed hashes.",
  ["store-http.c", "chunk.c"],
  [("URL construction", "store-http.c:set_url, chunk.c:chunk_format_id"), ("attribute parsing", "store-http.c:store_handle_params, store_http_new")],
  ["requested URLs", "exit status"])

p("C21", "Memory use is bounded whatever an HTTP server sends",
  "The memory held while retrieving chunks stays below a fixed bound that depends neither on the length of a response nor on how many bytes a server sends, in particular for endless, oversized, non-decodable or highly compressed bodies; a response that holds more data than a chunk can have is abandoned instead of being collected.",
  ["inputs", "fault_sequences"],
  "bodies of every kind (plain, encrypted, garbage after a valid chunk, data expanding beyond the chunk buffer) x growing lengths x piece sizes",
  "Test responses are a few dozen bytes long.",
  ["store-http.c"],
  [("streaming decode into the chunk buffer", "store-http.c:handle_data"), ("decode buffer", "store-http.c:decode_buffer_absorb")],
  ["peak heap of the process", "bytes accepted from the server"])

p("C22", "Every chunk of a local store and of the target is found and served intact",
  "A local store serves every one of its chunks with the right content whatever their number, order and repetition, the number of lookups before, and the position in the store, also beyond 4 GiB. "
  "The target used as a store likewise serves every chunk written or found intact so far, at every moment of the extraction.",
  ["inputs", "histories"],
  "stores with 0 to several hundred chunks in sorted, reverse, random and repeating id order x query orders; positions around 2^31 and 2^32; all interleavings of insertions and lookups over small id sets",
  "Tests use stores of three chunks within the first MiB.",
  ["index.c", "store-local.c", "target.c"],
  [("sorted array with lazy sorting", "index.c:index_query"), ("growth", "index.c:index_insert"), ("target index", "target.c:target_add_chunk")],
  ["success and HTTP requests of extractions"])

p("C23", "Messages and progress never change what the programs do, nor mislead",
  "For every log level, with and without terminals, and whether or not messages and progress can be written, csn, casync, csn-tool and patchdd do the same as otherwise: the same requests in the same order, the same writes and flushes, the same files and the same exit status. "
  "An extraction prints nothing to standard output unless that is a terminal; on a terminal the progress shown never decreases or exceeds 100 %, is not 100 % before the last chunk was written, and ends with 100 % when all entries of the index were handled (the debug log level may suppress it). "
  "Chunk data that csn-tool writes to standard output is never mixed with messages. A run that ends unsuccessfully says so on standard error at every log level.",
  ["inputs", "fault_sequences"],
  "log levels x terminals x working and failing output x extractions, conversions and command lines, with every answer of a server and every read, write and flush possibly failing",
  "Tests run with the default log level, without terminals, and ignore what is printed.",
  ["log.c", "log.h", "ui.c", "main.c", "patchdd.c", "csn-tool.c"],
  [("log level", "log.c:check_loglevel"), ("messages", "log.c:_u_log"), ("progress bar", "ui.c:show_progress"), ("progress of an extraction", "main.c:entry_cb")],
  ["requests", "writes and flushes", "files", "exit status", "standard output", "whether standard error is empty"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
