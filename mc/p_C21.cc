// Memory held while an HTTP server sends whatever it likes.
#include "chains.h"
#include <curl/curl.h>

static bool thorough;
static Alpha *al;
struct Case { std::string name; std::function<void(Exec &)> f; };
static std::vector<Case> cases;

static const u64 MiB = 1 << 20;
// The bound, besides the window that the format allows a frame to ask for (libzstd's limit is 2^27). A chunk has
// at most 256 KiB.
static const u64 BOUND = 24 * MiB;

// an endless body: `head`, then `period` over and over
struct Stream {
	Bytes head, period;
	u64 window = 0;          // declared by some frame in it
	u64 accept = ~0ull;      // number of bytes after which it certainly holds more data than any chunk
	void read(u64 off, u8 *dst, u64 n) const
	{
		while (n) {
			const Bytes &b = off < head.size() ? head : period;
			if (b.empty())
				return;
			u64 o = off < head.size() ? off : (off - head.size()) % period.size();
			u64 k = std::min<u64>(n, b.size() - o);
			memcpy(dst, b.data() + o, k);
			dst += k;
			off += k;
			n -= k;
		}
	}
};
static Bytes keystream;     // for the id of the chunk and KEY0
static Id the_id;
static Bytes the_chunk;

static void le32(Bytes &b, u32 v)
{
	for (int i = 0; i < 4; i++)
		b.push_back((u8)(v >> (8 * i)));
}
// a frame header with a window of 2^log and no content size
static Bytes fhead(int log, bool checksum = false)
{
	return Bytes{0x28, 0xb5, 0x2f, 0xfd, (u8)(checksum ? 4 : 0), (u8)((log - 10) << 3)};
}
static Bytes block(int type, u32 size, bool last = false)
{
	u32 h = (last ? 1u : 0u) | (u32)type << 1 | size << 3;
	return Bytes{(u8)h, (u8)(h >> 8), (u8)(h >> 16)};
}

static void check(Exec &x, const Result &r, u64 window)
{
	x.outcome(strf("%s, %lluM", r.str().c_str(), (unsigned long long)(r.peak_heap >> 20)));
	if (r.end == End::Memory)
		x.fail("more than %llu bytes of memory are needed", (unsigned long long)(BOUND + window));
	else if (r.end != End::Exit)
		x.fail("%s", r.str().c_str());
	else if (r.peak_heap > BOUND + window)
		x.fail("%llu bytes of memory were in use", (unsigned long long)r.peak_heap);
}

// how an exchange ends after `len` bytes
enum Ending { E_END, E_TIMEOUT, E_ERROR, E_N };
static const char *ending_name[] = {"end", "timeout", "transfer error"};

static void one(Exec &x, const Stream &s, bool enc, u32 piece, u64 len, int ending, long status, int nchunks)
{
	World w(x);
	w.ix.p = SMALL;
	w.entry(the_chunk);
	for (int i = 1; i < nchunks; i++)
		w.entry(fill(100 + (u64)i, 500 + (u64)i));
	w.write_index();
	w.set_target({});
	w.http("http://h/s", enc ? KEY0_HEX : nullptr);
	w.http("http://h/b");
	x.env.horizon = 4000000;
	x.env.heap_limit = BOUND + s.window;
	u64 accepted = 0, offered = 0;
	bool abandoned = true;
	Bytes ks = enc ? Bytes() : Bytes();
	std::vector<u64> held; // at the beginning of each request
	w.tweak = [&](HttpReply &r, int store, const Id &id) {
		if (store)
			return;
		held.push_back(env_heap());
		r = HttpReply();
		r.status = status;
		r.post = ending == E_TIMEOUT ? CURLE_OPERATION_TIMEDOUT : ending == E_ERROR ? CURLE_RECV_ERROR : 0;
		r.gen = [=, &s, &offered](u64 i) {
			u64 off = i * piece;
			if (off >= len)
				return Bytes();
			Bytes b((size_t)std::min<u64>(piece, len - off));
			s.read(off, b.data(), b.size());
			if (enc) {
				if (id == the_id) {
					for (size_t k = 0; k < b.size(); k++)
						b[k] ^= keystream[(size_t)off + k];
				} else {
					// for the others only the beginning matters
					Bytes z(std::min<size_t>((size_t)off + b.size(), 0));
					if (off < 65536) {
						Bytes q(off + b.size());
						std::copy(b.begin(), b.end(), q.begin() + (long)off);
						q = ref_xchacha20(KEY0, id.data(), q);
						std::copy(q.begin() + (long)off, q.end(), b.begin());
					}
				}
			}
			offered = off + b.size();
			return b;
		};
	};
	Result r = w.run();
	for (auto &e : x.ev)
		if (e.op == Op::HttpData && w.gets.size()) {
			// of the first request
			if (&e > &x.ev[w.gets[0].ev] && (w.gets.size() < 2 || &e < &x.ev[w.gets[1].ev])) {
				abandoned = e.ret != (i64)e.len;
				if (!abandoned)
					accepted += e.len;
			}
		}
	check(x, r, s.window);
	// nothing but a little bookkeeping per chunk may pile up from response to response
	if (held.size() > 60) {
		u64 a = *std::max_element(held.begin(), held.begin() + 20), b = held.back();
		if (b > a + 65536 + 64 * held.size())
			x.fail("what is held grows from %llu to %llu bytes over %zu responses", (unsigned long long)a, (unsigned long long)b, held.size());
	}
	if (status == 200 && s.accept < accepted)
		x.fail("%llu bytes of a body that holds more data than any chunk were accepted", (unsigned long long)accepted);
	// the other store has everything
	if (r.end == End::Exit && !r.ok())
		x.fail("%s although the second store has everything", r.str().c_str());
	if (r.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
}

static void run(Exec &x) { cases[x.scenario].f(x); }

static u64 prepare(const Tier &t)
{
	thorough = t.thorough;
	al = new Alpha();
	the_chunk = (*al)[1];
	the_id = sha256(the_chunk);
	u64 enclen = thorough ? 128 * MiB : 40 * MiB, len = thorough ? 512 * MiB : 64 * MiB;
	{
		Bytes z(enclen + 65536);
		keystream = ref_xchacha20(KEY0, the_id.data(), z);
	}
	std::vector<std::pair<std::string, Stream>> ss;
	auto add = [&](const std::string &n, const Bytes &h, const Bytes &p, u64 accept = ~0ull, u64 window = 0) {
		Stream s;
		s.head = h;
		s.period = p;
		s.accept = accept;
		s.window = window;
		ss.push_back({n, s});
	};
	Bytes chunk = zcompress(the_chunk, Z_NORMAL), empty = zcompress({}, Z_NORMAL);
	Bytes raw128 = cat({block(0, 131072), fill(131072, 3)});
	Bytes rle = cat({block(1, 131072), Bytes{7}});
	add("zeroes", {}, {0});
	add("garbage", {}, fill(65536, 5));
	add("text", {}, str("<html>not here</html>\n"));
	add("the magic number over and over", {}, {0x28, 0xb5, 0x2f, 0xfd});
	add("the chunk, then zeroes", chunk, {0});
	add("the chunk, then garbage", chunk, fill(65536, 6));
	add("the chunk over and over", {}, chunk, 8 * MiB);
	add("the chunk, then empty frames", chunk, empty);
	add("the chunk, then skippable frames", chunk, {0x50, 0x2a, 0x4d, 0x18, 0, 0, 0, 0});
	add("the chunk, then large skippable frames", chunk, cat({Bytes{0x51, 0x2a, 0x4d, 0x18, 0, 0, 1, 0}, fill(65536, 1)}));
	add("the chunk, then a skippable frame of 4 GiB", cat({chunk, Bytes{0x51, 0x2a, 0x4d, 0x18, 0xff, 0xff, 0xff, 0xff}}), {1});
	add("the chunk, then an endless frame of empty blocks", cat({chunk, fhead(17)}), block(0, 0));
	add("the chunk, then an endless frame of repeated bytes", cat({chunk, fhead(17)}), rle, 64 * 1024);
	add("empty frames", {}, empty);
	add("empty frames with checksum", {}, zcompress({}, Z_CHECKSUM));
	add("minimal empty frames", {}, Bytes{0x28, 0xb5, 0x2f, 0xfd, 0x20, 0, 1, 0, 0});
	add("frames of one byte", {}, zcompress(Bytes{1}, Z_NORMAL), 8 * MiB);
	add("frames of a repeated byte", {}, cat({fhead(17), block(1, 131072, true), Bytes{1}}), 1 * MiB);
	add("frames of 100 bytes", {}, zcompress(fill(100, 1), Z_RAW), 8 * MiB);
	add("frames of 200 KiB", {}, zcompress(fill(200 * 1024, 1), Z_NORMAL), 1 * MiB);
	add("frames of 256 KiB", {}, zcompress(fill(256 * 1024, 1), Z_NORMAL), 1 * MiB);
	add("frames of 300 KiB", {}, zcompress(fill(300 * 1024, 1), Z_NORMAL), 1 * MiB);
	add("skippable frames", {}, {0x50, 0x2a, 0x4d, 0x18, 0, 0, 0, 0});
	add("skippable frames of 1 byte", {}, {0x5f, 0x2a, 0x4d, 0x18, 1, 0, 0, 0, 9});
	add("skippable frames of 64 KiB", {}, cat({Bytes{0x51, 0x2a, 0x4d, 0x18, 0, 0, 1, 0}, fill(65536, 1)}));
	add("a skippable frame of 4 GiB", Bytes{0x51, 0x2a, 0x4d, 0x18, 0xff, 0xff, 0xff, 0xff}, {1});
	add("an empty frame, then skippable frames", empty, {0x50, 0x2a, 0x4d, 0x18, 0, 0, 0, 0});
	add("an empty frame, then the chunk, then empty frames", cat({empty, chunk}), empty);
	for (int log : {10, 17, 20, 23, 27}) {
		u64 win = (1ull << log) * 2;
		add(strf("raw blocks, window 2^%d", log), fhead(log), log == 10 ? cat({block(0, 1024), fill(1024, 2)}) : raw128, MiB, win);
		add(strf("repeated bytes, window 2^%d", log), fhead(log), log == 10 ? cat({block(1, 1024), Bytes{7}}) : rle, 64 * 1024, win);
		add(strf("empty blocks, window 2^%d", log), fhead(log), block(0, 0), ~0ull, win);
		add(strf("one byte blocks, window 2^%d", log), fhead(log), cat({block(0, 1), Bytes{5}}), 8 * MiB, win);
		add(strf("frames without end of the window 2^%d", log), cat({fhead(log), block(0, 100), fill(100, 1)}), {0}, ~0ull, win);
	}
	for (int log : {28, 30, 31, 41})
		add(strf("a window of 2^%d", log), fhead(log), rle, 64 * 1024);
	// content sizes
	for (u64 cs : {1ull, 1ull << 18, (1ull << 18) + 1, 1ull << 20, 1ull << 27, (1ull << 27) + 1, 1ull << 31, 1ull << 40, (1ull << 62), ~0ull - 2, ~0ull}) {
		Bytes single = {0x28, 0xb5, 0x2f, 0xfd, 0xe0}, multi = {0x28, 0xb5, 0x2f, 0xfd, 0xc0, 0x38};
		p64(single, cs);
		p64(multi, cs);
		add(strf("a single segment of %llu bytes", (unsigned long long)cs), single, rle, 64 * 1024, std::min<u64>(cs, 1 << 27) * 2);
		add(strf("a declared size of %llu bytes", (unsigned long long)cs), multi, rle, 64 * 1024);
		add(strf("a single segment of %llu bytes, raw blocks", (unsigned long long)cs), single, raw128, MiB, std::min<u64>(cs, 1 << 27) * 2);
	}
	{
		// what a compressor makes of lots of data
		Bytes z = zcompress(rep(8 * MiB, 0), Z_NORMAL), m = zcompress(rep(8 * MiB, 0), Z_STREAMED), x9 = zcompress(rep(2 * MiB, 0x41), Z_LEVEL19), nosize = zcompress(rep(8 * MiB, 0), Z_NOSIZE);
		u64 w = 8 * MiB;
		add("8 MiB of zeroes, then zeroes", z, {0}, 64 * 1024, w);
		add("8 MiB of zeroes, over and over", {}, z, 64 * 1024, w);
		add("8 MiB of zeroes, without size", nosize, {0}, 64 * 1024, w);
		add("8 MiB of zeroes, streamed", m, {0}, 64 * 1024, w);
		add("2 MiB of zeroes, level 19", x9, {0}, 64 * 1024, w);
		add("8 MiB of random bytes, then zeroes", zcompress(fill(8 * MiB, 3), Z_NORMAL), {0}, MiB, w);
		// fits, then something else
		for (u64 n : {262143ull, 262144ull, 262145ull, 270000ull}) {
			add(strf("%llu bytes, then zeroes", (unsigned long long)n), zcompress(rep(n, 0), Z_NORMAL), {0}, n > 262144 ? 64 * 1024 : ~0ull);
			add(strf("%llu random bytes, then garbage", (unsigned long long)n), zcompress(fill(n, 8), Z_NORMAL), fill(5000, 7), n > 262144 ? MiB : ~0ull);
			add(strf("%llu random bytes, then empty frames", (unsigned long long)n), zcompress(fill(n, 8), Z_CHECKSUM), empty, n > 262144 ? MiB : ~0ull);
		}
	}
	{
		// damaged somewhere
		Bytes big = zcompress(fill(200000, 4), Z_CHECKSUM), text = zcompress(cat({rep(5000, 1), fill(100, 1), rep(90000, 2), fill(100, 2), rep(50000, 3)}), Z_CHECKSUM);
		for (auto *b : {&big, &text})
			for (size_t o = 4; o < b->size(); o += o < 24 ? 1 : b->size() / 17) {
				Bytes q = *b;
				q[o] ^= 0x55;
				add(strf("a frame of %zu bytes damaged at %zu, then zeroes", q.size(), o), q, {0}, ~0ull, 1 << 27);
				add(strf("a frame of %zu bytes damaged at %zu, over and over", q.size(), o), {}, q, ~0ull, 1 << 27);
			}
	}
	auto *all = new std::vector<std::pair<std::string, Stream>>(ss);
	std::vector<u32> pieces = {16384, 1, 4097};
	if (thorough)
		pieces = {16384, 1, 4097, 3, 16383, 100};
	for (size_t i = 0; i < all->size(); i++) {
		const Stream *s = &(*all)[i].second;
		const std::string &n = (*all)[i].first;
		for (int enc = 0; enc < 2; enc++)
			for (u32 pc : pieces) {
				u64 l = enc ? enclen : len;
				l = std::min<u64>(l, (u64)pc * (thorough ? 400000 : pc == 16384 ? 100000 : 30000));
				cases.push_back({strf("%s%s in pieces of %u, %llu bytes", n.c_str(), enc ? ", encrypted" : "", pc, (unsigned long long)l), [=](Exec &x) { one(x, *s, enc, pc, l, E_END, 200, 1); }});
			}
		for (int e = 1; e < E_N; e++)
			for (int enc = 0; enc < 2; enc++)
				cases.push_back({strf("%s%s, 5 MiB, then %s", n.c_str(), enc ? ", encrypted" : "", ending_name[e]), [=](Exec &x) { one(x, *s, enc, 16384, 5 * MiB, e, 200, 1); }});
		for (int enc = 0; enc < 2; enc++)
			cases.push_back({strf("%s%s, 1 MiB, for each of 30 chunks", n.c_str(), enc ? ", encrypted" : ""), [=](Exec &x) { one(x, *s, enc, 16384, MiB, E_END, 200, 30); }});
		for (int enc = 0; enc < 2; enc++)
			for (int ending = 0; ending < (enc ? 1 : 2); ending++)
				cases.push_back({strf("%s%s, 64 KiB, then %s, for each of %d chunks", n.c_str(), enc ? ", encrypted" : "", ending_name[ending], thorough ? 3000 : 500),
				                 [=](Exec &x) { one(x, *s, enc, 16384, 65536, ending, 200, thorough ? 3000 : 500); }});
		if (i < 30)
			for (long st : {404l, 410l, 500l, 503l, 403l, 206l, 204l, 301l})
				cases.push_back({strf("%s with status %ld", n.c_str(), st), [=](Exec &x) { one(x, *s, false, 16384, len, E_END, st, 1); }});
	}
	return cases.size();
}

static Property prop = {
	.id = "C21",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &, u64) { return 0; },
	.describe = [](u64 n) { return cases[n].name; },
	.space = "over 100 kinds of endless bodies (garbage, the chunk followed by garbage, empty, skippable, tiny, large and endless frames, all block types, declared windows and sizes, compressed zeroes, "
	         "damaged frames) x plain/encrypted x piece sizes x end, timeout (retried) or error x one or 30 chunks x response status",
	.bounds = "bodies of 64 MiB (encrypted 40 MiB), thorough 512 and 128 MiB; the memory bound checked is 24 MiB (and no growth from response to response), plus twice the window a frame declares",
	.conformance = false,
};
static RegisterProperty reg(&prop);
