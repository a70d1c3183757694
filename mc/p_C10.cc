// Hostile input: every run must end by a regular exit (crashes, sanitizer reports and hangs are caught by the runtime).
#include "chains.h"

static Alpha *al;
struct Case { std::string name; std::function<void(Exec &)> f; };
static std::vector<Case> cases;

static void verdict(Exec &x, const Result &r)
{
	x.outcome(r.str());
	if (r.end != End::Exit)
		x.fail("%s", r.str().c_str());
}

static void run(Exec &x) { cases[x.scenario].f(x); }

static void set64(Bytes &b, size_t o, u64 v)
{
	for (int i = 0; i < 8; i++)
		b[o + (size_t)i] = (u8)(v >> (8 * i));
}

// ---- indices
static Ix mkix(const char *s)
{
	Ix i;
	i.p = SMALL;
	for (int k : digits(s))
		i.add((*al)[k].size(), sha256((*al)[k]));
	return i;
}

// an extraction with the given index file and side-loaded index file
static void extract(Exec &x, const Bytes &index, const Bytes *side, const Bytes &content, const Bytes &tgt, bool self, bool debug = false)
{
	World w(x);
	for (int i = 0; i < 8; i++)
		w.chunk((*al)[i]);
	w.ixb = index;
	x.env.add("i.caibx", index)->role = 1;
	w.set_target(tgt);
	w.local("l", content);
	if (side)
		x.env.add("l.ix", *side);
	w.stores.push_back(side ? "l:l.ix" : self ? "l:i.caibx" : "l");
	w.stores.push_back("t");
	w.http("http://h/s");
	if (debug)
		x.env.env["LOGLEVEL"] = "debug";
	verdict(x, w.run());
}

struct Mut { std::string name; Bytes b; };
static std::vector<Mut> mutations(const Bytes &g, bool thorough)
{
	std::vector<Mut> m;
	static const u64 MENU[] = {0, 1, 2, 47, 48, 63, 64, 0x7f, 0x80, 0xff, 0x100, 0x3ffff, 0x40000, 0x40001, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001,
		0x1000000ff, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffffffffff00, 0xffffffffffffffff};
	for (size_t n = 0; n < g.size(); n += n < 120 || thorough ? 1 : 7)
		m.push_back({strf("truncated to %zu", n), Bytes(g.begin(), g.begin() + (long)n)});
	for (size_t o = 0; o + 8 <= g.size(); o += 8)
		for (u64 v : MENU) {
			Bytes b = g;
			set64(b, o, v);
			m.push_back({strf("u64 at %zu is %llx", o, (unsigned long long)v), b});
		}
	for (size_t o = 0; o < g.size(); o++)
		for (u8 v : {0x01, 0x20, 0x80, 0xff}) {
			Bytes b = g;
			b[o] ^= v;
			m.push_back({strf("byte %zu ^ %02x", o, v), b});
		}
	// pairs of fields: the ends of two entries, and any field with the chunk sizes
	static const u64 FEW[] = {0, 1, 0x40001, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, ~0ull};
	for (size_t o = 64; o + 8 <= g.size(); o += 40)
		for (size_t q = o + 40; q + 8 <= g.size(); q += 40)
			for (u64 u : FEW)
				for (u64 v : FEW) {
					Bytes b = g;
					set64(b, o, u);
					set64(b, q, v);
					m.push_back({strf("u64 at %zu is %llx, at %zu %llx", o, (unsigned long long)u, q, (unsigned long long)v), b});
				}
	// a large count of entries whose ends are arbitrary
	for (size_t n : {10u, 200u}) {
		Ix i;
		i.p = SMALL;
		for (size_t k = 0; k < n; k++)
			i.e.push_back({(k * 7919) % 1000, sha256((*al)[(int)(k % 8)])});
		m.push_back({strf("%zu entries with ends in disorder", n), i.bytes()});
		Ix j;
		j.p = SMALL;
		for (size_t k = 0; k < n; k++)
			j.add(1, sha256(Bytes{(u8)k}));
		m.push_back({strf("%zu entries of one byte", n), j.bytes()});
	}
	return m;
}

// ---- responses
static const u32 PIECES[] = {1, 2, 3, 4, 5, 7, 16384};
static void fetch(Exec &x, const Bytes &body, bool enc, u32 piece, int post = 0, u64 post_at = ~0ull, long status = 200, int pre = 0)
{
	World w(x);
	w.ix.p = SMALL;
	for (int k : {0, 1, 0, 2})
		w.entry((*al)[k]);
	w.write_index();
	w.set_target({});
	w.http("http://h/s", enc ? KEY0_HEX : nullptr);
	w.policy = [](int, const Id &, int) { return A_HIT; };
	int n = 0;
	w.tweak = [&](HttpReply &r, int, const Id &id) {
		// the second chunk is damaged, the others show whether something is left behind
		if (n++ == 1) {
			r = HttpReply();
			r.body = enc ? ref_xchacha20(KEY0, id.data(), body) : body;
			r.post = post;
			r.post_at = post_at;
			r.status = status;
			r.pre = pre;
			r.max_piece = piece;
		} else {
			r.max_piece = 61;
		}
	};
	Result res = w.run();
	verdict(x, res);
	if (res.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
}

static void command(Exec &x, Prog p, const std::vector<std::string> &args, const std::map<std::string, std::string> &env = {}, const Bytes &in = {}, bool tty = false, const std::vector<u32> &cuts = {})
{
	World w(x);
	w.ix.p = SMALL;
	for (int k : {0, 1})
		w.entry((*al)[k]);
	w.write_index();
	w.set_target({});
	w.local("l", cat({(*al)[1], (*al)[0]}));
	x.env.add("l.ix", w.ixb);
	x.env.add("d", {})->dir = true;
	x.env.add("e", {});
	w.https.push_back({});
	w.https.back().base = "http://h/s";
	x.env.http = [&w](const std::string &u, HttpReply &r) { w.serve(u, r); };
	std::string id = hex(sha256((*al)[0]));
	x.env.add(id + ".cacnk", str("some data"));
	x.env.add(std::string(64, 'a') + ".cacnk.enc", str("more data"));
	x.env.add("key", str(std::string(KEY0_HEX) + "\n"));
	x.env.add("badkey", Bytes{'1', 0, '2', 0xff});
	x.env.env = env;
	x.env.env["K"] = KEY0_HEX;
	x.env.env["E"] = "";
	x.env.stdin_data = in;
	x.env.stdin_cuts = cuts;
	x.env.tty_out = x.env.tty_err = tty;
	verdict(x, sut_run(x, p, args));
}

// all sequences over an alphabet up to a length
static void words(const std::vector<std::string> &a, size_t len, const std::function<void(const std::vector<std::string> &)> &f)
{
	std::vector<std::string> cur;
	std::function<void()> rec = [&]() {
		f(cur);
		if (cur.size() == len)
			return;
		for (auto &t : a) {
			cur.push_back(t);
			rec();
			cur.pop_back();
		}
	};
	rec();
}
static std::string show(const std::vector<std::string> &v)
{
	std::string s;
	for (auto &a : v)
		s += " '" + (a.size() > 60 ? a.substr(0, 60) + strf("...(%zu)", a.size()) : a) + "'";
	return s;
}

static u64 prepare(const Tier &t)
{
	al = new Alpha();
	auto add = [&](const std::string &n, std::function<void(Exec &)> f) { cases.push_back({n, f}); };
	Bytes content;
	for (int i : {1, 3, 0, 2, 4, 5, 6, 7})
		content = cat({content, (*al)[i]});

	// --- entries around the size of the buffers, with data of that length wherever it can come from
	for (u64 n : {262143ull, 262144ull, 262145ull, 262146ull, 262151ull, 262152ull, 262160ull, 262161ull, 262176ull, 262208ull, 262400ull, 266240ull, 300000ull, 524288ull, 524289ull, 1048577ull})
		for (int src = 0; src < 5; src++)
			for (int tg = 0; tg < 4; tg++)
				for (int pos = 0; pos < 3; pos++) {
					static const char *sn[] = {"HTTP", "side-loaded", "target", "HTTP, encrypted", "scanned"};
					static const char *tn[] = {"empty", "complete", "shifted", "damaged"};
					add(strf("entry of %llu bytes at %d from %s, target %s", (unsigned long long)n, pos, sn[src], tn[tg]), [=](Exec &x) {
						World w(x);
						w.ix.p = DEFAULT_PARAMS;
						Bytes big = fill(n, 90);
						for (int i = 0; i < 3; i++)
							w.entry(i == pos ? big : (*al)[i]);
						if (src == 2)
							w.entry(big);
						w.write_index();
						Bytes im = w.image();
						w.set_target(tg == 0 ? Bytes() : tg == 1 ? im : tg == 2 ? cat({rep(1, 3), im}) : im);
						if (tg == 3)
							w.target->data[w.ix.e[(size_t)pos].end - 1] ^= 1;
						if (src == 1) {
							w.local("l", im);
							x.env.add("l.ix", w.ixb);
							w.stores.push_back("l:l.ix");
						} else if (src == 4) {
							w.local("l", im);
							w.stores.push_back("l");
						} else if (src == 2) {
							w.stores.push_back("t");
						}
						w.http("http://h/s", src == 3 ? KEY0_HEX : nullptr);
						verdict(x, w.run());
					});
				}
	// --- progress on a terminal
	for (int n : {0, 1, 2, 3, 7, 99, 100, 101, 199, 200, 201, 300})
		for (int tty = 0; tty < 4; tty++)
			for (int tg = 0; tg < 3; tg++)
				for (const char *p : {"csn", "casync"})
					add(strf("%s with %d entries, terminal %d, target %d", p, n, tty, tg), [=](Exec &x) {
						World w(x);
						w.ix.p = SMALL;
						for (int i = 0; i < n; i++)
							w.entry((*al)[i % 7]);
						w.write_index();
						Bytes im = w.image();
						w.set_target(tg == 0 ? Bytes() : tg == 1 ? im : Bytes(im.begin(), im.begin() + (long)(im.size() / 2)));
						w.http("http://h/s");
						x.env.tty_out = tty & 1;
						x.env.tty_err = tty & 2;
						verdict(x, w.run(p));
					});
	// --- indices and side-loaded indices
	Ix good = mkix("BDAC");
	Bytes gb = good.bytes();
	for (const char *s : {"ABC", "ABA"}) {
		Bytes b = mkix(s).bytes();
		for (auto &m : mutations(b, t.thorough)) {
			add(strf("index %s %s", s, m.name.c_str()), [=](Exec &x) { extract(x, m.b, nullptr, content, {}, false); });
			if (t.thorough || s[2] == 'C')
				add(strf("index %s %s, side-loaded for the store, too", s, m.name.c_str()), [=](Exec &x) { extract(x, m.b, nullptr, content, fill(700, 3), true); });
		}
	}
	for (auto &m : mutations(gb, t.thorough))
		for (int k = 0; k < (t.thorough ? 3 : 2); k++) {
			Bytes idx = mkix(k == 0 ? "ABCD" : k == 1 ? "GDDB" : "HHA").bytes();
			Bytes c = k == 2 ? fill(30, 1) : content;
			add(strf("side-loaded index %s (%d)", m.name.c_str(), k), [=](Exec &x) { extract(x, idx, &m.b, c, {}, false); });
		}
	// combinations of chunk sizes x store contents
	static const u64 PM[] = {0, 1, 2, 3, 47, 48, 49, 64, 128, 256, 8191, 8192, 8193, 65536, 9324555, 9324556, 9324557, 0x7fffffff, 0xfffffffe, 0xffffffff, 0x100000000, 1ull << 63, ~0ull};
	std::vector<Bytes> lc = {{}, rep(1, 1), fill(47, 1), fill(48, 1), fill(49, 2), rep(9000, 0), fill(20000, 4)};
	for (u64 a : PM)
		for (u64 b : PM)
			for (u64 c : PM) {
				bool plausible = a < b && b < c;
				for (size_t k = 0; k < lc.size(); k++) {
					if (!plausible && k != 3 && !(t.thorough && k == 0))
						continue;
					Ix m = mkix("AB");
					m.p = {a, b, c};
					Bytes ib = m.bytes(), cc = lc[k];
					add(strf("chunk sizes %llu:%llu:%llu, store of %zu bytes", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, cc.size()),
					    [=](Exec &x) { extract(x, ib, nullptr, cc, {}, false); });
					if (plausible && k == 5) {
						add(strf("chunk sizes %llu:%llu:%llu, side-loaded", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c),
						    [=](Exec &x) { extract(x, ib, nullptr, cc, {}, true, true); });
					}
				}
			}
	// every length of a small store
	for (size_t n = 0; n < 400; n++) {
		Bytes c = fill(n, 11);
		add(strf("store of %zu bytes", n), [=](Exec &x) { extract(x, gb, nullptr, c, c, false); });
	}

	// --- responses
	{
		struct B { std::string name; Bytes b; };
		std::vector<B> bodies;
		Bytes d = (*al)[1];
		for (int z = 0; z < N_ZKIND; z++)
			bodies.push_back({zkind_name(z), zcompress(d, z)});
		bodies.push_back({"compressible", zcompress(rep(256, 0x41), Z_NORMAL)});
		bodies.push_back({"compressible text", zcompress(str("abcabcabdabcabcabdabcaaaabbbbccccabcabcabdabcabcabdabcabcabdxyzabcabcabdabcabcabd abcabcabdabcabc abcabcabdabcabc"), Z_LEVEL19)});
		for (auto &b : bodies)
			for (int enc = 0; enc < 2; enc++)
				for (u32 pc : PIECES) {
					auto ad = [&](const std::string &n, const Bytes &bb) {
						add(strf("response %s%s pieces of %u: %s", b.name.c_str(), enc ? "+enc" : "", pc, n.c_str()), [=](Exec &x) { fetch(x, bb, enc, pc); });
					};
					bool few = !t.thorough && (pc == 2 || pc == 4 || pc == 5);
					for (size_t n = 0; n <= b.b.size(); n++)
						if (!few || n < 12)
							ad(strf("cut to %zu", n), Bytes(b.b.begin(), b.b.begin() + (long)n));
					for (size_t o = 0; o < b.b.size(); o++)
						for (int bit = 0; bit < 8; bit++) {
							if (!t.thorough && (few || (o > 24 && (enc || pc != 16384 || bit % 3))))
								continue;
							Bytes q = b.b;
							q[o] ^= (u8)(1 << bit);
							ad(strf("byte %zu bit %d flipped", o, bit), q);
						}
					if (!few || t.thorough)
						for (size_t o = 0; o < 12 && o < b.b.size(); o++)
							for (int v = 0; v < 256; v += t.thorough || pc == 16384 ? 1 : 5) {
								Bytes q = b.b;
								q[o] = (u8)v;
								ad(strf("byte %zu is %02x", o, v), q);
							}
				}
		// hand-made frames
		Bytes z = zcompress(d, Z_NORMAL);
		std::vector<B> hand;
		for (u32 m = 0xfd2fb520; m <= 0xfd2fb52f; m++)
			hand.push_back({strf("magic %x", m), cat({Bytes{(u8)m, (u8)(m >> 8), (u8)(m >> 16), (u8)(m >> 24)}, Bytes(z.begin() + 4, z.end())})});
		for (u8 l = 0; l < 16; l++)
			hand.push_back({"skippable frame", cat({Bytes{(u8)(0x50 + l), 0x2a, 0x4d, 0x18, l, 0, 0, 0}, fill(l, 1), z})});
		hand.push_back({"huge skippable frame", cat({Bytes{0x50, 0x2a, 0x4d, 0x18, 0xff, 0xff, 0xff, 0xff}, z})});
		hand.push_back({"frame then skippable", cat({z, Bytes{0x50, 0x2a, 0x4d, 0x18, 4, 0, 0, 0, 1, 2, 3, 4}})});
		hand.push_back({"two frames", cat({z, z})});
		hand.push_back({"many frames", cat({z, z, z, z, z, z, z, z})});
		hand.push_back({"empty frames", cat({zcompress({}, Z_NORMAL), zcompress({}, Z_NORMAL), z})});
		hand.push_back({"empty frame", zcompress({}, Z_NORMAL)});
		for (int fhd = 0; fhd < 256; fhd++)
			for (u8 wd : {0x00, 0x50, 0xa0, 0xf8, 0xff})
				for (int blk = 0; blk < 4; blk++)
					for (u32 sz : {0u, 5u, 0x1fffffu}) {
						// descriptor, window, sizes of all ones, one block
						Bytes f = {0x28, 0xb5, 0x2f, 0xfd, (u8)fhd, wd, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff};
						u32 bh = 1 | (u32)blk << 1 | sz << 3;
						for (int i = 0; i < 3; i++)
							f.push_back((u8)(bh >> (8 * i)));
						f = cat({f, fill(40, 3)});
						if (t.thorough || fhd % 4 == 0 || fhd < 64 || sz == 5)
							hand.push_back({strf("descriptor %02x window %02x block type %d size %x", fhd, wd, blk, sz), f});
					}
		for (u64 big : {1000ull, 262143ull, 262144ull, 262145ull, 300000ull, 1000000ull}) {
			hand.push_back({strf("%llu zero bytes", (unsigned long long)big), zcompress(rep(big, 0), Z_NORMAL)});
			hand.push_back({strf("%llu random bytes", (unsigned long long)big), zcompress(fill(big, 1), Z_NORMAL)});
		}
		for (auto &h : hand)
			for (u32 pc : {1u, 16384u}) {
				if (pc == 1 && h.b.size() > 20000)
					pc = 1000;
				for (int enc = 0; enc < 2; enc++)
					if (t.thorough || !enc || pc != 1)
						add(strf("response %s, pieces of %u%s", h.name.c_str(), pc, enc ? "+enc" : ""), [=](Exec &x) { fetch(x, h.b, enc, pc); });
			}
		// transfer errors and status codes
		for (int code = 1; code < 100; code++)
			for (int enc = 0; enc < 2; enc++) {
				add(strf("transfer error %d%s", code, enc ? "+enc" : ""), [=](Exec &x) { fetch(x, z, enc, 16384, 0, ~0ull, 200, code); });
				for (u64 at : {(u64)0, (u64)1, (u64)3, (u64)4, (u64)10, (u64)z.size() - 1, (u64)z.size()})
					add(strf("transfer error %d after %llu bytes%s", code, (unsigned long long)at, enc ? "+enc" : ""),
					    [=](Exec &x) { fetch(x, z, enc, at % 2 ? 3 : 16384, code, at); });
			}
		for (long st = 0; st < 1000; st += st >= 600 ? 57 : 1)
			for (u32 pc : {1u, 3u, 16384u}) {
				add(strf("status %ld, pieces of %u", st, pc), [=](Exec &x) { fetch(x, z, false, pc, 0, ~0ull, st); });
				if (pc == 3)
					add(strf("status %ld without body", st), [=](Exec &x) { fetch(x, {}, false, pc, 0, ~0ull, st); });
			}
	}

	// --- key specifications
	{
		std::vector<std::string> pre = {"", "key:", "env:", "file:", "key", "file", ":", "KEY:", "encrypt=key:"};
		std::vector<std::string> val = {"", "K", "E", "key", "badkey", "d", "e", "nope", "=", "%s%n", std::string("\xff\xfe\x80", 3)};
		for (size_t n : {1u, 2u, 62u, 63u, 64u, 65u, 66u, 128u, 129u, 5000u})
			for (char c : {'0', 'f', 'F', 'g', '@', '`', '/', ':', 'G', ' ', '\t', '\x10', '\x7f', '\xb0'})
				val.push_back(std::string(n, c));
		for (int c = 1; c < 256; c++)
			for (size_t pos : {0u, 1u, 63u}) {
				std::string s = KEY0_HEX;
				s[pos] = (char)c;
				val.push_back(s);
			}
		for (auto &p : pre)
			for (auto &v : val) {
				if (!t.thorough && p != "key:" && v.size() == 64 && v != std::string(64, '0') && v != std::string(64, 'g'))
					continue;
				std::string ks = p + v;
				add("key specification" + show({ks}), [=](Exec &x) { command(x, P_TOOL, {"csn-tool", "crypt", ks, std::string(64, 'a') + ".cacnk.enc"}); });
				add("store key" + show({ks}), [=](Exec &x) { command(x, P_CSN, {"csn", "i.caibx", "t", "http://h/s#encrypt=" + ks}); });
			}
		// key files of every kind of content
		std::vector<Bytes> kf;
		std::string k = KEY0_HEX;
		for (int c = 0; c < 256; c++) {
			kf.push_back(Bytes{(u8)c});
			kf.push_back(cat({str(k), Bytes{(u8)c}}));
			kf.push_back(cat({Bytes{(u8)c}, str(k)}));
			Bytes b = str(k);
			b[40] = (u8)c;
			kf.push_back(b);
			kf.push_back(rep(64, (u8)c));
			kf.push_back(rep(65, (u8)c));
		}
		kf.push_back({});
		kf.push_back(cat({str(k), str("\r\n\r\n\n\n")}));
		kf.push_back(rep(100000, '\n'));
		kf.push_back(rep(100000, 'a'));
		for (auto &b : kf)
			add(strf("key file of %zu bytes: %s", b.size(), hex(b.data(), std::min<size_t>(b.size(), 70)).c_str()), [=](Exec &x) {
				x.env.add("kf", b);
				std::string n = std::string(64, 'b') + ".cacnk";
				x.env.add(n, str("data"));
				verdict(x, sut_run(x, P_TOOL, {"csn-tool", "crypt", "file:kf", n}));
			});
	}

	// --- command lines
	std::string L5000(5000, 'x'), L300(300, 'y'), L128(128, 'z');
	std::vector<std::string> A = {"i.caibx", "t", "l", "http://h/s", "l:l.ix", "", "http", "http#", "http://h/s#encrypt=key:00", ":", "d", "nope", "--store", "--store=http://h/s", "--seed", "extract",
		"--help", "-h", "--", "-", "-x", "--s"};
	words(A, t.thorough ? 4 : 3, [&](const std::vector<std::string> &v) {
		for (const char *p : {"csn", "casync"}) {
			std::vector<std::string> a = v;
			a.insert(a.begin(), p);
			add("command line" + show(a), [=](Exec &x) { command(x, P_CSN, a); });
		}
	});
	// well-formed beginnings with arbitrary further arguments
	std::vector<std::string> A2 = A;
	for (auto s : {"http:///", "http://#", "http://h/s#,", "http://h/s#encrypt=", "http://h/s#encrypt=env:K", "http://h/s#encrypt=env:K,encrypt=env:K", "http://h/s#x", "l:", "l:nope", "l:d", "l:i.caibx:", "./t", "i.caibx", "t:l.ix", "i.caibx:i.caibx", "e", "e:l.ix", "%s%n%x", "http://%s%n", "--seed=l", "--seed-output=no", "--seed-output"})
		A2.push_back(s);
	A2.push_back(L5000);
	A2.push_back("http://" + L5000);
	A2.push_back("http://" + L5000 + "#" + L5000);
	for (size_t n : {100u, 126u, 127u, 128u, 129u, 255u, 256u, 257u}) {
		A2.push_back("http://" + std::string(n, 'h'));
		A2.push_back(std::string(n, 'h'));
	}
	words(A2, 2, [&](const std::vector<std::string> &v) {
		std::vector<std::string> a = {"csn", "i.caibx", "t"}, b = {"casync"};
		for (auto &s : v) {
			a.push_back(s);
			b.push_back("--store");
			b.push_back(s);
		}
		std::vector<std::string> c = {"casync"};
		c.insert(c.end(), v.begin(), v.end());
		for (const char *s : {"extract", "i.caibx", "t"}) {
			b.push_back(s);
			c.push_back(s);
		}
		for (auto &q : {a, b, c})
			add("command line" + show(q), [=](Exec &x) { command(x, P_CSN, q); });
	});
	for (const std::string &n : {L5000, L300, L128, std::string(""), std::string("/"), std::string("//"), std::string("csn/"), std::string("/usr/bin/csn"), std::string("x/casync"), std::string("sh")})
		for (auto &v : std::vector<std::vector<std::string>>{{n}, {n, "i.caibx"}, {n, "i.caibx", "t", "l"}, {n, "--store", "l", "extract", "i.caibx", "t"}, {n, "a", n, n, n, n}})
			add("command line" + show(v), [=](Exec &x) { command(x, P_CSN, v); });
	for (size_t n = 1; n < 70; n++) {
		std::vector<std::string> a = {"csn", "i.caibx", "t"}, b = {"casync"}, c = {"casync"};
		for (size_t i = 0; i < n; i++) {
			a.push_back(i % 2 ? "e" : "t");
			b.push_back(i % 3 ? "--seed=e" : "--store=t");
			c.push_back("--seed");
			c.push_back("e");
		}
		for (const char *s : {"extract", "i.caibx", "t"}) {
			b.push_back(s);
			c.push_back(s);
		}
		for (auto &q : {a, b, c})
			add(strf("command line with %zu stores", n), [=](Exec &x) { command(x, P_CSN, q); });
	}
	// the files exchanged: every file in every role
	std::vector<std::string> F = {"i.caibx", "t", "l", "d", "e", "l.ix", "nope"};
	for (auto &a : F)
		for (auto &b : F)
			for (auto &c : F)
				for (auto &d : F)
					if (t.thorough || c != d)
						add("command line" + show({"csn", a, b, c + ":" + d, "http://h/s"}), [=](Exec &x) { command(x, P_CSN, {"csn", a, b, c + ":" + d, "http://h/s"}); });
	for (const std::string &s : {std::string("sha256"), std::string(""), L5000, std::string(63, 'k'), std::string(64, 'k'), std::string("%s%n")})
		for (bool kc : {false, true})
			add("CSN_KCAPI_DRIVER" + show({s}), [=](Exec &x) {
				x.env.kcapi = kc;
				command(x, P_CSN, {"csn", "i.caibx", "t", "l"}, {{"CSN_KCAPI_DRIVER", s}});
			});
	for (const std::string &s : {std::string("debug"), std::string("info"), std::string("warn"), std::string("warning"), std::string("err"), std::string("error"), std::string(""), std::string("7"), L5000, std::string("%s%n%n")})
		for (int tty = 0; tty < 2; tty++)
			for (auto &v : std::vector<std::vector<std::string>>{{"csn", "i.caibx", "t", "l"}, {"csn", "i.caibx", "t", "http://h/s"}, {"csn", "i.caibx", "t", "http://h/s#encrypt=env:K"}, {"csn", "i.caibx", "t", L5000}, {"csn", "i.caibx", "t", "l:i.caibx", "t", "e"}, {"csn", "nope", "t", "l"}, {"casync", "--help", "x"}, {"csn", "i.caibx", "t", "e"}})
				add("LOGLEVEL" + show({s}) + (tty ? " on a terminal:" : ":") + show(v), [=](Exec &x) { command(x, P_CSN, v, {{"LOGLEVEL", s}}, {}, tty); });

	// --- names that are long or look like format strings, of stores that exist and work, have nothing, or fail
	{
		std::vector<std::string> names = {"%s%s%s%n%n", "a%20b%n", "100%", "%1$s%2$n", "%*d%*d%*d%n", "%x/%s", "s p a c e", "\xff\xfe", "-", "--store", "#", "http"};
		for (size_t n : {100u, 120u, 126u, 127u, 128u, 129u, 130u, 136u, 144u, 160u, 200u, 255u, 256u, 300u, 512u, 1000u, 1023u, 1024u, 1025u, 2047u, 2048u, 4000u, 4095u}) {
			std::string s(n, 'n');
			for (size_t i = 100; i + 1 < n; i += 101)
				s[i] = '/';
			names.push_back(s);
		}
		for (auto &nm : names)
			for (int kind = 0; kind < 8; kind++)
				for (int debug = 0; debug < 2; debug++)
					for (int second = 0; second < 2; second++)
						add(strf("name '%s' (%zu) used as %d, debug %d, behind another store %d", nm.substr(0, 20).c_str(), nm.size(), kind, debug, second), [=](Exec &x) {
							World w(x);
							w.ix.p = SMALL;
							for (int i = 0; i < 4; i++)
								w.entry((*al)[i]);
							if (kind == 6)
								w.index_path = nm;
							w.write_index();
							if (kind == 7)
								w.target_path = nm;
							w.set_target({});
							if (second)
								w.http("http://h/t");
							Bytes all = cat({(*al)[1], (*al)[0], (*al)[2], (*al)[3]});
							switch (kind) {
							case 0: w.local(nm, all); w.stores.push_back(nm); break;
							case 1: // fails after its scan
							case 2: {
								VF f = w.local(nm, all);
								Ix s;
								s.p = SMALL;
								for (int i : {1, 0, 2, 3})
									s.add((*al)[i].size(), sha256((*al)[i]));
								x.env.add("l.ix", s.bytes());
								w.stores.push_back(nm + ":l.ix");
								if (kind == 1)
									x.env.io = [f](const IoReq &r) {
										IoAns a;
										if (r.f == f.get()) {
											a.k = IoAns::Err;
											a.err = EIO;
										}
										return a;
									};
								break;
							}
							case 3: w.local("l", fill(500, 3)); x.env.add(nm, w.ixb); w.stores.push_back("l:" + nm); break;
							case 4: w.http("http://" + nm + "/s"); break;
							case 5: w.http("http://" + nm); break;
							case 6: case 7: w.local("l", all); w.stores.push_back("l"); break;
							}
							int k = 0;
							w.policy = [&](int store, const Id &, int) {
								if (second && store == 0)
									return (int)A_404;
								static const int an[] = {A_HIT, A_500, A_WRONG, A_GARBAGE, A_TIMEOUT_MID, A_HIT, A_FATAL};
								return kind == 5 ? (int)A_FATAL : an[k++ % 7];
							};
							if (debug)
								x.env.env["LOGLEVEL"] = "debug";
							Result r = w.run();
							x.env.io = nullptr;
							verdict(x, r);
						});
	}

	// --- csn-tool
	std::string cn = hex(sha256((*al)[0])) + ".cacnk", en = std::string(64, 'a') + ".cacnk.enc";
	words({"crypt", "", "-h", "--help", "env:K", "key:0", "file:key", "file:d", cn, en, "./" + cn, "-", "o", "d", "/", L5000}, t.thorough ? 4 : 3, [&](const std::vector<std::string> &v) {
		std::vector<std::string> a = v;
		a.insert(a.begin(), "csn-tool");
		add("command line" + show(a), [=](Exec &x) { command(x, P_TOOL, a); });
	});
	words({"env:K", "file:key", "file:badkey", cn, en, "-", "o", "d", "nope", "x/" + cn, "", L5000, L300 + "/" + en}, 4, [&](const std::vector<std::string> &v) {
		std::vector<std::string> a = v;
		a.insert(a.begin(), "crypt");
		a.insert(a.begin(), "csn-tool");
		if (v.size() == 4 && v[0] != "env:K")
			return;
		add("command line" + show(a), [=](Exec &x) { command(x, P_TOOL, a); });
	});
	// names of every length around the limits
	for (size_t n : {0u, 1u, 5u, 6u, 9u, 10u, 63u, 64u, 65u, 69u, 70u, 71u, 73u, 74u, 75u, 254u, 255u, 256u, 4080u, 4085u, 4086u, 4090u, 4091u, 4092u, 4093u, 4094u, 4095u, 4096u, 4097u, 4100u, 8192u})
		for (int k = 0; k < 5; k++) {
			std::string s(n, k == 4 ? '.' : 'a');
			auto tail = [&](const std::string &q) {
				if (q.size() <= n)
					s = s.substr(0, n - q.size()) + q;
			};
			if (k == 0)
				tail(".cacnk");
			if (k == 1)
				tail(".cacnk.enc");
			if (k == 2)
				for (size_t i = 1; i + 75 < n; i += 2)
					s[i] = '/';
			if (k == 2)
				tail("/" + cn);
			if (k == 3) {
				for (size_t i = 1; i + 79 < n; i += 2)
					s[i] = '/';
				tail("/" + en);
			}
			add(strf("csn-tool name of length %zu (%d)", n, k), [=](Exec &x) { command(x, P_TOOL, {"csn-tool", "crypt", "env:K", s}); });
			add(strf("csn-tool output name of length %zu (%d)", n, k), [=](Exec &x) { command(x, P_TOOL, {"csn-tool", "crypt", "env:K", cn, s}); });
			for (const char *e : {"", "\n", "\r\n", "\n\n"})
				add(strf("csn-tool list line of length %zu (%d) + %zu", n, k, strlen(e)), [=](Exec &x) { command(x, P_TOOL, {"csn-tool", "crypt", "env:K"}, {}, str(s + e)); });
		}
	// names with any byte anywhere
	for (int c = 1; c < 256; c++)
		for (size_t pos = 0; pos < en.size(); pos++) {
			if (!t.thorough && pos > 1 && pos < 62)
				continue;
			std::string s = en;
			s[pos] = (char)c;
			add("csn-tool name" + show({s}), [=](Exec &x) { command(x, P_TOOL, {"csn-tool", "crypt", "env:K", s}); });
		}
	words({cn, en, "\n", "\r", std::string(1, '\0'), "nope", "/"}, t.thorough ? 5 : 4, [&](const std::vector<std::string> &v) {
		std::string s;
		for (auto &q : v)
			s += q;
		add("csn-tool list" + show(v), [=](Exec &x) { command(x, P_TOOL, {"csn-tool", "crypt", "env:K"}, {}, str(s), false, {3, 4, 70}); });
	});
	// chunk files of every small size and some larger ones
	for (size_t n = 0; n < 300; n += n < 70 || n > 250 ? 1 : 9)
		add(strf("csn-tool file of %zu bytes", n), [=](Exec &x) {
			x.env.add(en, fill(n, 1));
			verdict(x, sut_run(x, P_TOOL, {"csn-tool", "crypt", std::string("key:") + KEY0_HEX, en}));
		});
	for (size_t n : {65535u, 65536u, 1000000u})
		add(strf("csn-tool file of %zu bytes", n), [=](Exec &x) {
			x.env.add(en, fill(n, 1));
			verdict(x, sut_run(x, P_TOOL, {"csn-tool", "crypt", std::string("key:") + KEY0_HEX, en, "-"}));
		});

	// --- patchdd
	words({"l", "t", "e", "d", "nope", "", "-h", "--help", L5000, "i.caibx", "-"}, t.thorough ? 4 : 3, [&](const std::vector<std::string> &v) {
		std::vector<std::string> a = v;
		a.insert(a.begin(), "patchdd");
		for (int tty = 0; tty < 2; tty++)
			add("command line" + show(a) + (tty ? " on a terminal" : ""), [=](Exec &x) { command(x, P_PATCHDD, a, {}, {}, tty); });
	});
	return (u64)cases.size();
}

static Property prop = {
	.id = "C10",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &, u64) { return 0; },
	.describe = [](u64 n) { return cases[n].name; },
	.space = "indices and side-loaded indices (truncations, all u64 fields over a menu of 25, bytes, pairs of entry ends); 23^3 chunk size triples x store contents; responses (10 "
	         "bodies x truncations, bit flips, header bytes; hand-made frames; x pieces x encryption; every curl error x position; every status); key specifications and key files; "
	         "all command lines up to 3-4 tokens over alphabets of 11-22 tokens for csn, casync, csn-tool and patchdd; names and lists around all length limits",
	.bounds = "every element of the space is executed under ASan/UBSan with a limit on events and time",
};
static RegisterProperty reg(&prop);
