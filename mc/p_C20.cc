// What is requested from HTTP servers.
#include "chains.h"

static bool thorough;
static Alpha *al;
struct Case { std::string name; std::function<void(Exec &)> f; int bound; };
static std::vector<Case> cases;

static std::string url_of(const HttpDef &d, const Id &id)
{
	std::string h = hex(id);
	return d.base + "/" + h.substr(0, 4) + "/" + h + (d.enc ? ".cacnk.enc" : ".cacnk");
}

// every request is for an entry that is not in place at this moment, from one of the stores configured
static void judge(Exec &x, World &w, bool expect_requests = false)
{
	x.outcome(w.res.str());
	if (w.res.end != End::Exit) {
		x.fail("%s", w.res.str().c_str());
		return;
	}
	Ix p;
	IxVerdict v = ref_index(w.ixb, &p);
	if (v == IxVerdict::Bad && !w.gets.empty()) {
		x.fail("the index is rejected, but %s was requested", w.gets[0].url.c_str());
		return;
	}
	// which bytes the run has written so far
	u64 lead = w.prefix_entries(w.target_before);
	Bytes done;
	size_t ei = 0;
	for (size_t i = 0; i < w.gets.size(); i++) {
		Get &g = w.gets[i];
		for (; ei < g.ev && ei < x.ev.size(); ei++) {
			Ev &e = x.ev[ei];
			if ((e.op == Op::Write || e.op == Op::Pwrite) && e.f == w.target.get() && e.ret > 0) {
				if (done.size() < e.off + (u64)e.ret)
					done.resize(e.off + (u64)e.ret);
				std::fill(done.begin() + (long)e.off, done.begin() + (long)(e.off + (u64)e.ret), 1);
			}
		}
		bool ok = false, known = false;
		u64 pos = 0;
		for (size_t k = 0; k < p.e.size(); k++) {
			u64 end = p.e[k].end;
			if (end <= pos)
				break;
			bool this_one = false;
			for (auto &d : w.https)
				if (g.url == url_of(d, p.e[k].id))
					this_one = true;
			if (this_one) {
				known = true;
				bool in_place = k < lead || (end <= done.size() && memchr(done.data() + pos, 0, end - pos) == nullptr);
				if (!in_place)
					ok = true;
			}
			pos = end;
		}
		if (!known) {
			x.fail("request %zu is for %s, which is not the address of any entry in any store", i, g.url.c_str());
			return;
		}
		if (!ok) {
			x.fail("request %zu is for %s, although all entries with this id are in place", i, g.url.c_str());
			return;
		}
	}
	if (expect_requests && w.gets.empty())
		x.fail("nothing was requested");
	if (w.res.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
}

static void run(Exec &x) { cases[x.scenario].f(x); }

static const char *PROGS[] = {"csn", "casync"};

static u64 prepare(const Tier &tr)
{
	thorough = tr.thorough;
	al = new Alpha();
	auto add = [&](const std::string &n, std::function<void(Exec &)> f, int b = 0) { cases.push_back({n, f, b}); };

	// --- every byte value in every position of the id
	static const u8 FILL[] = {0x00, 0xff, 0x5a, 0x09};
	for (int pos = 0; pos < 32; pos++)
		for (int v = 0; v < 256; v++)
			for (int f = 0; f < (thorough ? 4 : 2); f++)
				for (int enc = 0; enc < 2; enc++) {
					if (!thorough && (pos + v + f + enc) % 2)
						continue;
					add(strf("id byte %d is %02x, others %02x%s", pos, v, FILL[f + (thorough ? 0 : 2)], enc ? ", encrypted" : ""), [=](Exec &x) {
						World w(x);
						w.ix.p = SMALL;
						Id id;
						for (int i = 0; i < 32; i++)
							id[(size_t)i] = i == pos ? (u8)v : (u8)(FILL[f + (thorough ? 0 : 2)] + (f & 1 ? i : 0));
						w.ix.add(100, id);
						w.write_index();
						w.set_target({});
						w.http("http://h/s", enc ? KEY0_HEX : nullptr);
						w.run(PROGS[(v + pos) & 1]);
						judge(x, w, true);
						if (w.res.ok())
							x.fail("success without any data");
						if (w.gets.size() != 1)
							x.fail("%zu requests for one chunk that is not there", w.gets.size());
					});
				}
	// ids of real data, many in one run (buffers are reused)
	for (int enc = 0; enc < 2; enc++)
		for (int k = 0; k < (thorough ? 60 : 12); k++)
			add(strf("real ids, set %d%s", k, enc ? ", encrypted" : ""), [=](Exec &x) {
				World w(x);
				w.ix.p = SMALL;
				for (int i = 0; i < 48; i++)
					w.entry(fill(20 + (u64)((i * 7 + k) % 40), (u64)(k * 1000 + i)));
				w.write_index();
				w.set_target({});
				w.http("http://h/s", enc ? KEY0_HEX : nullptr);
				w.run(PROGS[k & 1]);
				judge(x, w, true);
				if (!w.res.ok() || w.gets.size() != 48)
					x.fail("%s after %zu requests", w.res.str().c_str(), w.gets.size());
			});

	// --- the base URL
	struct U { std::string arg, base; };
	std::vector<U> us;
	std::vector<std::string> hosts = {"http://h", "https://h", "http://h:8080", "http://[::1]:80", "http://u:p@h", "http://example.com.", "http://h,i"};
	std::vector<std::string> paths = {"", "/s", "/a/b/c", "/s.castr", "/a%41b", "/a b", "/\xc3\xa9", "/a/../b", "/a//b", "//a", "/?q=1", "/s?a=b&c=d", "/~u/+x", "/%s%n%d", "/a:b", "/a=b,c=d", "/encrypt=key:00", "/store.cacnk", "/." };
	for (auto &h : hosts)
		for (auto &p : paths) {
			us.push_back({h + p, h + p});
			us.push_back({h + p + "/", h + p});
			us.push_back({h + p + "//", h + p + "/"});
			us.push_back({h + p + "///", h + p + "//"});
		}
	// base URLs of every length up to something
	for (size_t n = 1; n < 600; n += n < 300 || thorough ? 1 : 37)
		for (const char *e : {"", "/"})
			us.push_back({"http://" + std::string(n, 'a') + e, "http://" + std::string(n, 'a')});
	for (size_t n : {1000u, 1023u, 1024u, 4095u, 4096u, 5000u, 70000u})
		us.push_back({"http://h/" + std::string(n, 'b') + "/", "http://h/" + std::string(n, 'b')});
	struct Sfx { const char *s; bool enc; };
	static const std::string K = std::string("#encrypt=key:") + KEY0_HEX;
	std::vector<Sfx> sfx = {{"", false}, {"#", false}, {K.c_str(), true}, {"#encrypt=env:K", true}, {"#encrypt=file:k", true}, {"#encrypt=file:./k", true}, {"#encrypt=file:/w/d/k", true}, {"#encrypt=file:///w//d//k", true}};
	for (auto &u : us)
		for (auto &s : sfx)
			for (int pr = 0; pr < 2; pr++) {
				if (!thorough && pr && u.arg.size() > 100)
					continue;
				std::string un = u.arg.size() > 80 ? u.arg.substr(0, 80) + strf("...(%zu)", u.arg.size()) : u.arg;
				add(strf("%s: store %s%s", PROGS[pr], un.c_str(), s.s), [=](Exec &x) {
					World w(x);
					w.ix.p = SMALL;
					for (int k : {0, 1})
						w.entry((*al)[k]);
					w.write_index();
					w.set_target({});
					w.http(u.base, s.enc ? KEY0_HEX : nullptr);
					w.stores = {u.arg + s.s};
					x.env.env["K"] = KEY0_HEX;
					x.env.add("k", str(std::string(KEY0_HEX) + "\n"));
					x.env.add("d", {})->dir = true;
					x.env.add("d/k", str(KEY0_HEX));
					// libcurl normalizes what it sends
					bool plain = !strchr(s.s, '/') && u.arg.size() < 2000;
					for (size_t i = 7; i < u.base.size(); i++)
						if (!isalnum((u8)u.base[i]) && !(u.base[i] == '/' && u.base[i - 1] != '/'))
							plain = false;
					w.tweak = [&](HttpReply &, int, const Id &) {
						if (!plain)
							mark_unreal();
					};
					w.run(PROGS[pr]);
					judge(x, w, true);
					if (!w.res.ok() || w.gets.size() != 2)
						x.fail("%s after %zu requests", w.res.str().c_str(), w.gets.size());
				});
			}

	// --- several stores, repeated and present chunks, answers
	struct Set { const char *name; std::vector<int> kinds; };
	static const char *bases[] = {"http://h", "http://h/s", "http://h/s/x", "https://h/s", "http://h/S"};
	std::vector<std::vector<int>> sets = {{1}, {1, 2}, {2, 1}, {0, 1, 2}, {11, 1}, {1, 12}, {12, 11, 0}, {3, 4}, {4, 13}};
	if (thorough)
		sets.insert(sets.end(), {{11, 12, 13}, {10, 11, 2}, {1, 11}, {4, 3, 2, 1, 0}});
	for (int q = 1; q < 40; q++)
		for (int ti = 0; ti < Chains::T_N; ti++)
			for (size_t si = 0; si < sets.size(); si++)
				for (int tstore = 0; tstore < 2; tstore++) {
					// sequences over three symbols, by length
					int n = q, len = 0, cnt = 1;
					while (n >= cnt) {
						n -= cnt;
						cnt *= 3;
						len++;
					}
					std::vector<int> seq;
					for (int i = 0; i < len; i++) {
						seq.push_back(n % 3);
						n /= 3;
					}
					if (!thorough && len == 3 && seq[0] != 0)
						continue;
					std::string nm;
					for (int k : seq)
						nm += "ABC"[k];
					std::vector<int> st = sets[si];
					std::string sn = tstore ? "t" : "";
					for (int k : st)
						sn += std::string(sn.empty() ? "" : ",") + bases[k % 10] + (k >= 10 ? "#enc" : "");
					add(strf("index %s, target %s, stores %s", nm.c_str(), Chains::tname(ti), sn.c_str()), [=](Exec &x) {
						World w(x);
						Chains c;
						c.index(w, seq);
						c.target(w, ti);
						if (tstore)
							w.stores.push_back("t");
						for (int k : st)
							w.http(bases[k % 10], k >= 10 ? KEY0_HEX : nullptr);
						static const int menu[] = {A_HIT, A_404, A_TIMEOUT_MID, A_WRONG, A_500, A_FATAL};
						w.policy = [&](int, const Id &, int) { return menu[x.choose(6, 1)]; };
						w.run();
						judge(x, w);
						// the suffix is that of the store
						for (auto &g : w.gets)
							if (!g.wellformed)
								x.fail("request for %s", g.url.c_str());
					}, thorough ? 3 : st.size() == 1 ? 2 : 1);
				}

	// --- indices that are rejected
	{
		Ix g;
		g.p = SMALL;
		for (int k : {0, 1})
			g.add((*al)[k].size(), sha256((*al)[k]));
		Bytes good = g.bytes();
		std::vector<std::pair<std::string, Bytes>> bad;
		for (size_t n = 0; n < good.size(); n++)
			bad.push_back({strf("truncated to %zu", n), Bytes(good.begin(), good.begin() + (long)n)});
		for (size_t n = 1; n < 100; n++)
			bad.push_back({strf("%zu bytes appended", n), cat({good, fill(n, 3)})});
		for (size_t o = 0; o < good.size(); o++) {
			bool entry = o >= 64 && o < 64 + 80;
			if (entry)
				continue;
			for (int bit = 0; bit < 8; bit++) {
				Bytes b = good;
				b[o] ^= (u8)(1 << bit);
				bad.push_back({strf("byte %zu bit %d", o, bit), b});
			}
		}
		for (auto &b : bad) {
			Bytes bb = b.second;
			add("index " + b.first, [=](Exec &x) {
				World w(x);
				for (int k : {0, 1})
					w.chunk((*al)[k]);
				w.ixb = bb;
				x.env.add(w.index_path, bb)->role = 1;
				w.set_target(fill(100, 7));
				w.http("http://h/s");
				w.run();
				judge(x, w);
			});
		}
	}

	// --- attributes that aren't understood, unusable keys
	{
		std::string k = KEY0_HEX;
		std::vector<std::string> bad = {"foo", "foo=bar", "Encrypt=key:" + k, "ENCRYPT=key:" + k, "encrypt", "encrypted=key:" + k, "encrypt=key:" + k + ",foo", "foo,encrypt=key:" + k,
			"key:" + k, " encrypt=key:" + k, "encrypt =key:" + k, "encrypt:key:" + k, "timeout=3", "decrypt=key:" + k, "xencrypt=key:" + k, "encrypt=key:" + k + ";foo", "=", "0", "encrypt=key:" + k + ",encrypt", "a,b,c",
			"encrypt=", "encrypt=" + k, "encrypt=key:", "encrypt=key:0", "encrypt=key:" + k.substr(1), "encrypt=key:" + k + "0", "encrypt=key:" + k + "00", "encrypt=key:" + k.substr(0, 63) + "g",
			"encrypt=key:g" + k.substr(1), "encrypt=key: " + k.substr(1), "encrypt=key:0x" + k.substr(2), "encrypt=key:" + k + " ", "encrypt=key:" + k + "\n", "encrypt=env:NOPE", "encrypt=env:EMPTY", "encrypt=env:", "encrypt=env:BAD",
			"encrypt=file:nope", "encrypt=file:", "encrypt=file:empty", "encrypt=file:bad", "encrypt=file:d", "encrypt=file:long", "encrypt=KEY:" + k, "encrypt=Env:K", "encrypt=kez:" + k,
			"encrypt=key:" + k + ",encrypt=key:1", "encrypt=key:1,encrypt=key:" + k,
			"a/b", "/", "/encrypt=key:" + k, "encrypt=key:" + k + "/", "encrypt=/key:" + k, "//h/s", "../x", "?a=b", "encrypt=key:" + k + "?x", "foo=a/b/c"};
		for (auto &b : bad)
			for (int where = 0; where < 5; where++)
				for (int pr = 0; pr < 2; pr++)
					add(strf("%s: store attributes %s (%d)", PROGS[pr], b.c_str(), where), [=](Exec &x) {
						World w(x);
						w.ix.p = SMALL;
						for (int i : {0, 1})
							w.entry((*al)[i]);
						w.write_index();
						w.set_target(where == 4 ? w.image() : Bytes());
						w.http("http://h/s");
						w.http("http://h/other");
						std::string st = "http://h/other#" + b;
						w.local("l", cat({(*al)[0], (*al)[1]}));
						if (where == 0 || where == 4)
							w.stores = {st};
						if (where == 1)
							w.stores = {"http://h/s", st};
						if (where == 2)
							w.stores = {st, "http://h/s"};
						if (where == 3)
							w.stores = {"l", st, "http://h/s"};
						x.env.env["K"] = KEY0_HEX;
						x.env.env["EMPTY"] = "";
						x.env.env["BAD"] = k + "1";
						x.env.add("empty", {});
						x.env.add("bad", str(k.substr(2)));
						x.env.add("long", str(k + "ab\n"));
						x.env.add("d", {})->dir = true;
						w.run(PROGS[pr]);
						x.outcome(w.res.str());
						if (!w.res.failed())
							x.fail("not refused: %s", w.res.str().c_str());
						else if (!w.gets.empty())
							x.fail("not refused at start: %s was requested", w.gets[0].url.c_str());
						else if (w.target->ver)
							x.fail("not refused at start: the target was written");
					});
	}

	// --- responses of the other kind
	for (int kind = 0; kind < 7; kind++)
		for (int z = 0; z < N_ZKIND; z++)
			for (u32 piece : {1u, 5u, 16384u})
				for (int fallback = 0; fallback < 3; fallback++) {
					static const char *kn[] = {"plain data from a store with a key", "encrypted data from a store without key", "data encrypted with another key", "data encrypted for another id",
						"data encrypted twice", "plain uncompressed data from a store with a key", "encrypted uncompressed data from a store without a key"};
					add(strf("%s, %s, pieces of %u, %s", kn[kind], zkind_name(z), piece, fallback == 0 ? "only store" : fallback == 1 ? "one more store" : "a store with a key behind"), [=](Exec &x) {
						World w(x);
						w.ix.p = SMALL;
						for (int i : {0, 1, 2})
							w.entry((*al)[i]);
						w.write_index();
						w.set_target({});
						bool enc = kind != 1 && kind != 6;
						w.http("http://h/s", enc ? KEY0_HEX : nullptr);
						w.https[0].zkind = z;
						if (fallback)
							w.http("http://h/b", fallback == 2 ? KEY0_HEX : nullptr);
						w.tweak = [&](HttpReply &r, int store, const Id &id) {
							r.max_piece = piece;
							if (store || id != w.ix.e[1].id)
								return;
							const Bytes &d = *w.dict.get(id);
							u8 k2[32];
							memcpy(k2, KEY0, 32);
							k2[31] ^= 1;
							Bytes zb = zcompress(d, z);
							Id other = w.ix.e[0].id;
							switch (kind) {
							case 0: r.body = zb; break;
							case 1: r.body = ref_xchacha20(KEY0, id.data(), zb); break;
							case 2: r.body = ref_xchacha20(k2, id.data(), zb); break;
							case 3: r.body = ref_xchacha20(KEY0, other.data(), zb); break;
							case 4: r.body = zb; break; // the keystream cancels out
							case 5: r.body = d; break;
							case 6: r.body = ref_xchacha20(KEY0, id.data(), d); break;
							}
						};
						w.run();
						judge(x, w, true);
						if (fallback ? !w.res.ok() : !w.res.failed())
							x.fail("%s", w.res.str().c_str());
						for (auto &g : w.gets)
							if (!g.wellformed)
								x.fail("request for %s", g.url.c_str());
						size_t want = fallback ? 4 : 2;
						if (w.gets.size() != want)
							x.fail("%zu requests, expected %zu", w.gets.size(), want);
					});
				}
	return cases.size();
}

static Property prop = {
	.id = "C20",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &, u64 n) { return cases[n].bound; },
	.describe = [](u64 n) { return cases[n].name; },
	.space = "ids with every byte value in every position (one entry each) and sets of 48 real ids in one run, plain and encrypted; base URLs (7 hosts x 19 paths x 0-3 trailing slashes; "
	         "every length up to 600) x 8 ways to give attributes x csn/casync; index sequences over three chunks up to length 3 x 8 target states x store sets (bases being prefixes of "
	         "each other, with and without key) x all sequences of answers within the bound; every truncation, extension and bit flip of the framing of an index; 48 attribute strings that "
	         "are unknown or have an unusable key x 5 positions x both programs; responses of the wrong kind (plain, encrypted, other key, other id, uncompressed) x zstd encodings x pieces x fallbacks",
	.bounds = "at most 1 (several stores) or 2 (one store) answers other than the chunk per run, thorough 3",
};
static RegisterProperty reg(&prop);
