// Chunk encryption: csn-tool and csn against an independent XChaCha20.
#include "chains.h"

struct Case { std::string name; std::function<void(Exec &)> f; };
static std::vector<Case> cases;

static std::string idname(const Id &i, bool enc) { return hex(i) + (enc ? ".cacnk.enc" : ".cacnk"); }
static Bytes key_bytes(const std::string &h)
{
	Bytes b;
	for (size_t i = 0; i + 1 < h.size(); i += 2)
		b.push_back((u8)strtol(h.substr(i, 2).c_str(), nullptr, 16));
	return b;
}
static std::string expect_file(Exec &x, const std::string &n, const Bytes &want)
{
	VF f = x.env.find(n);
	if (!f)
		return "no file " + n;
	Bytes c = f->content();
	if (c.size() != want.size())
		return strf("%s has %zu bytes instead of %zu", n.c_str(), c.size(), want.size());
	for (size_t i = 0; i < c.size(); i++)
		if (c[i] != want[i])
			return strf("%s differs at byte %zu", n.c_str(), i);
	return "";
}

// one conversion and back; `how`: 0 default name, 1 explicit output, 2 standard output, 3 list
static void convert(Exec &x, const std::string &keyspec, const std::string &keyhex, const Id &id, const Bytes &data, bool from_enc, int how, const std::string &dir = "")
{
	Bytes k = key_bytes(keyhex);
	Bytes want = ref_xchacha20(k.data(), id.data(), data);
	std::string in = dir + idname(id, from_enc), out = dir + idname(id, !from_enc);
	x.env.add(in, data);
	for (int pass = 0; pass < 2; pass++) {
		std::vector<std::string> a = {"csn-tool", "crypt", keyspec};
		x.env.stdin_data.clear();
		x.env.stdout_data.clear();
		std::string res = out;
		if (how == 1)
			res = "out" + std::to_string(pass);
		if (how == 3)
			x.env.stdin_data = str(in + "\n");
		else
			a.push_back(in);
		if (how == 1)
			a.push_back(res);
		if (how == 2)
			a.push_back("-");
		Result r = sut_run(x, P_TOOL, a);
		x.outcome(r.str());
		if (!r.ok()) {
			x.fail("pass %d: %s", pass + 1, r.str().c_str());
			return;
		}
		Bytes got;
		if (how == 2) {
			got = x.env.stdout_data;
			if (got != want) {
				x.fail("pass %d: standard output is not the converted chunk", pass + 1);
				return;
			}
		} else {
			std::string e = expect_file(x, res, want);
			if (!e.empty()) {
				x.fail("pass %d: %s", pass + 1, e.c_str());
				return;
			}
		}
		std::string e = expect_file(x, in, pass ? ref_xchacha20(k.data(), id.data(), data) : data);
		if (!e.empty()) {
			x.fail("pass %d: the input was changed: %s", pass + 1, e.c_str());
			return;
		}
		// the other way round
		x.env.fs.erase(x.env.norm(in));
		if (how != 0 && how != 3)
			x.env.add(out, want);
		std::swap(in, out);
		want = data;
	}
}

// an extraction from encrypted stores
static void extract(Exec &x, const std::string &keyspec, const std::string &keyhex, int nchunks, u64 seed, int zkind = Z_NORMAL, u32 piece = 16384)
{
	World w(x);
	w.ix.p = SMALL;
	for (int i = 0; i < nchunks; i++)
		w.entry(fill(60 + (u64)(i * 7 % 90), seed * 1000 + (u64)i));
	w.write_index();
	w.set_target({});
	int h = w.http("http://h/s", keyhex.c_str());
	w.https[(size_t)h].zkind = zkind;
	w.stores.back() = "http://h/s#encrypt=" + keyspec;
	w.tweak = [&](HttpReply &r, int, const Id &) { r.max_piece = piece; };
	Result r = w.run();
	x.outcome(r.str());
	if (!r.ok())
		x.fail("%s", r.str().c_str());
	else {
		std::string e = w.check_image();
		if (e.empty() && w.gets.size() != (size_t)nchunks)
			e = strf("%zu requests for %d chunks", w.gets.size(), nchunks);
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
}

// a key that must be refused
static void refused(Exec &x, const std::string &keyspec, int prog)
{
	World w(x);
	w.ix.p = SMALL;
	w.entry(fill(100, 1));
	w.write_index();
	w.set_target({});
	Result r;
	if (prog == 0 || prog == 4) {
		Bytes d = fill(50, 2);
		Id id = sha256(d);
		x.env.add(idname(id, false), d);
		size_t n = x.env.fs.size();
		x.env.stdin_data = str(idname(id, false) + "\n");
		r = sut_run(x, P_TOOL, prog == 4 ? std::vector<std::string>{"csn-tool", "crypt", keyspec} : std::vector<std::string>{"csn-tool", "crypt", keyspec, idname(id, false)});
		if (x.env.fs.size() != n)
			x.fail("a file was created");
	} else {
		w.http("http://h/a");
		w.https.push_back(w.https[0]);
		w.https.back().base = "http://h/s";
		std::string s = "http://h/s#encrypt=" + keyspec;
		x.env.http = [&w](const std::string &u, HttpReply &q) { w.serve(u, q); };
		r = sut_run(x, P_CSN, prog == 1 ? std::vector<std::string>{"csn", "i.caibx", "t", "http://h/a", s}
		                    : prog == 2 ? std::vector<std::string>{"csn", "i.caibx", "t", s, "http://h/a"}
		                                : std::vector<std::string>{"casync", "--store", "http://h/a", "--store", s, "extract", "i.caibx", "t"});
	}
	x.outcome(r.str());
	if (r.end != End::Exit)
		x.fail("%s", r.str().c_str());
	else if (r.ok())
		x.fail("the key was accepted");
	for (auto &e : x.ev)
		if (e.op == Op::Http)
			x.fail("something was requested");
		else if (e.op == Op::Write || e.op == Op::Pwrite)
			x.fail("something was written");
}

static u64 prepare(const Tier &t)
{
	auto add = [&](const std::string &n, std::function<void(Exec &)> f) { cases.push_back({n, f}); };
	std::string K = KEY0_HEX, U = K;
	for (auto &c : U)
		c = (char)toupper(c);
	auto keyed = [&](const Bytes &b) { return hex(b.data(), b.size()); };
	std::vector<std::string> keys = {K, std::string(64, '0'), std::string(64, 'f')};
	Bytes kb = key_bytes(K);
	for (int bit = 0; bit < 256; bit++) {
		Bytes b = kb;
		b[(size_t)bit / 8] ^= (u8)(1 << bit % 8);
		keys.push_back(keyed(b));
		b = rep(32, 0);
		b[(size_t)bit / 8] = (u8)(1 << bit % 8);
		keys.push_back(keyed(b));
	}
	std::vector<Id> ids;
	Id base = sha256(str("id"));
	ids.push_back(base);
	for (int bit = 0; bit < 256; bit++) {
		Id i = base;
		i[(size_t)bit / 8] ^= (u8)(1 << bit % 8);
		ids.push_back(i);
		i.fill(0);
		i[(size_t)bit / 8] = (u8)(1 << bit % 8);
		ids.push_back(i);
	}
	for (int v : {0, 1, 0x7f, 0x80, 0xff}) {
		Id i;
		i.fill((u8)v);
		ids.push_back(i);
	}
	Bytes d200 = fill(200, 3);
	static const char *hown[] = {"", "explicit output", "standard output", "list"};
	auto conv = [&](const std::string &spec, const std::string &kh, const Id &id, const Bytes &d, bool fe, int how, const std::string &dir = "") {
		add(strf("csn-tool %s %s%s (%zu bytes) %s", spec.substr(0, 80).c_str(), dir.size() > 50 ? "long/" : dir.c_str(), idname(id, fe).c_str(), d.size(), hown[how]),
		    [=](Exec &x) {
			    x.env.env["KEY"] = kh;
			    x.env.add("kf", str(kh + "\n"));
			    if (dir.size() > 5)
				    x.env.add(dir.substr(0, dir.size() - 1), {})->dir = true;
			    convert(x, spec, kh, id, d, fe, how, dir);
		    });
	};
	for (auto &k : keys)
		conv("key:" + k, k, base, d200, false, 0);
	for (auto &i : ids)
		conv("key:" + K, K, i, d200, false, 0);
	// every length
	for (size_t n = 0; n <= (t.thorough ? 1100u : 330u); n++)
		conv("key:" + K, K, base, fill(n, n), n % 2, (int)n % 4);
	for (size_t n : {4095u, 4096u, 4097u, 8191u, 8192u, 8193u, 65535u, 65536u, 65537u, 262144u, 262145u, 1000001u})
		for (int how = 0; how < 4; how++)
			conv("key:" + K, K, base, fill(n, n), how % 2, how);
	for (size_t n : {1048575u, 1048576u, 1048577u, 2097153u, 5000001u, 16777217u})
		conv("key:" + K, K, base, fill(n, n), n % 4 == 0, n % 2 ? 0 : 2);
	// forms of keys, names and invocations
	for (const std::string &spec : {"key:" + K, "key:" + U, std::string("env:KEY"), std::string("file:kf"), std::string("file:./kf"), std::string("file:/w/kf")})
		for (int how = 0; how < 4; how++)
			for (int fe = 0; fe < 2; fe++)
				for (const std::string &dir : {std::string(""), std::string("./"), std::string("/w/"), std::string("x.cacnk/"), std::string("q.cacnk.enc/")})
					for (size_t n : {0u, 1u, 63u, 64u, 65u, 300u}) {
						conv(spec, K, ids[how + 7], fill(n, 5), fe, how, dir);
					}
	// names with upper-case digits mean the same id
	{
		Id id = base;
		Bytes d = fill(90, 4);
		std::string n = hex(id);
		for (auto &c : n)
			c = (char)toupper(c);
		add("upper-case name", [=](Exec &x) {
			x.env.add(n + ".cacnk", d);
			Result r = sut_run(x, P_TOOL, {"csn-tool", "crypt", "key:" + K, n + ".cacnk"});
			x.outcome(r.str());
			if (r.ok()) {
				std::string e = expect_file(x, n + ".cacnk.enc", ref_xchacha20(kb.data(), id.data(), d));
				if (!e.empty())
					x.fail("%s", e.c_str());
			}
		});
	}
	// key files
	for (const std::string &tail : {"", "\n", "\r\n", "\n\n", "\r", "\n\r\n\r"})
		for (const std::string &k : {K, U})
			for (int p = 0; p < 3; p++)
				add(strf("key file ending in %s (%d)", hex((const u8 *)tail.data(), tail.size()).c_str(), p), [=](Exec &x) {
					x.env.add("kf", str(k + tail));
					if (p == 0)
						convert(x, "file:kf", K, base, d200, false, 0);
					else if (p == 1)
						convert(x, "file:kf", K, base, d200, true, 3);
					else
						extract(x, "file:kf", K, 3, 1);
				});
	// any number and order of chunks in a list
	{
		std::vector<Bytes> c = {fill(10, 1), fill(100, 2), fill(64, 3), {}};
		size_t len = t.thorough ? 6 : 5;
		std::vector<std::vector<int>> seqs = {{}};
		for (size_t i = 0; i < seqs.size(); i++) {
			if (seqs[i].size() < len)
				for (int k = 0; k < 4; k++) {
					std::vector<int> q = seqs[i];
					q.push_back(k);
					seqs.push_back(q);
				}
			std::vector<int> q = seqs[i];
			std::string nm;
			for (int k : q)
				nm += strf("%d", k);
			for (int encmask : {0, 5}) {
				add("list of chunks " + nm + (encmask ? ", some of them encrypted" : ""), [=](Exec &x) {
					std::string l;
					for (int k = 0; k < 4; k++)
						x.env.add(idname(sha256(c[(size_t)k]), encmask >> k & 1), c[(size_t)k]);
					for (int k : q)
						l += idname(sha256(c[(size_t)k]), encmask >> k & 1) + "\n";
					x.env.stdin_data = str(l);
					size_t nf = x.env.fs.size();
					Result r = sut_run(x, P_TOOL, {"csn-tool", "crypt", "key:" + K});
					x.outcome(r.str());
					if (!r.ok()) {
						x.fail("%s", r.str().c_str());
						return;
					}
					std::set<int> did(q.begin(), q.end());
					for (int k : did) {
						Id id = sha256(c[(size_t)k]);
						std::string e = expect_file(x, idname(id, !(encmask >> k & 1)), ref_xchacha20(kb.data(), id.data(), c[(size_t)k]));
						if (!e.empty()) {
							x.fail("%s", e.c_str());
							return;
						}
					}
					if (x.env.fs.size() != nf + did.size())
						x.fail("unexpected files");
				});
			}
		}
	}
	// extraction
	for (size_t i = 0; i < keys.size(); i++) {
		std::string k = keys[i];
		add("extraction with key " + k, [=](Exec &x) { extract(x, "key:" + k, k, 2, 7); });
	}
	for (int z = 0; z < N_ZKIND; z++)
		for (u32 pc : {1u, 2u, 3u, 5u, 13u, 63u, 64u, 65u, 16384u})
			for (int s = 0; s < (t.thorough ? 40 : 8); s++)
				for (const char *spec : {"key", "env", "file"})
					add(strf("extraction of frames of kind %s in pieces of %u (%d), %s", zkind_name(z), pc, s, spec), [=](Exec &x) {
						x.env.env["KEY"] = K;
						x.env.add("kf", str(K));
						extract(x, spec[0] == 'k' ? "key:" + K : spec[0] == 'e' ? "env:KEY" : "file:kf", K, 6, (u64)s * 50 + 3, z, pc);
					});
	for (int n : {1, 2, 10, 100, 400})
		add(strf("extraction of %d chunks", n), [=](Exec &x) { extract(x, "key:" + U, K, n, 3); });
	// two stores with different keys and one without, each having some of the chunks
	for (int m = 0; m < 27 * 27; m++)
		add(strf("chunks from stores with different keys (%d)", m), [=](Exec &x) {
			World w(x);
			w.ix.p = SMALL;
			std::map<Id, int> at;
			int q = m;
			for (int i = 0; i < 6; i++) {
				w.entry(fill(80, (u64)i));
				at[w.ix.e.back().id] = q % 3;
				q /= 3;
			}
			w.write_index();
			w.set_target({});
			w.http("http://h/1", KEY0_HEX);
			w.http("http://h/2", keys[40].c_str());
			w.http("http://h/3");
			w.policy = [&](int s, const Id &id, int) { return s == at[id] ? A_HIT : s == 0 ? A_WRONG : A_404; };
			Result r = w.run();
			x.outcome(r.str());
			std::string e = r.ok() ? w.check_image() : r.str();
			if (!e.empty())
				x.fail("%s", e.c_str());
		});
	// chunks of the maximal size, more than one block of the transfer
	for (size_t n : {100000u, 262144u})
		for (u32 pc : {1000u, 16384u, 1000000u})
			add(strf("extraction of chunks of %zu bytes in pieces of %u", n, pc), [=](Exec &x) {
				World w(x);
				w.ix.p = SMALL;
				for (int i = 0; i < 3; i++)
					w.entry(fill(n, (u64)i));
				w.write_index();
				w.set_target({});
				w.http("http://h/1", KEY0_HEX);
				w.tweak = [&](HttpReply &q, int, const Id &) { q.max_piece = pc; };
				Result r = w.run();
				x.outcome(r.str());
				std::string e = r.ok() ? w.check_image() : r.str();
				if (!e.empty())
					x.fail("%s", e.c_str());
			});

	// keys that must be refused
	std::vector<std::string> bad; // as values
	for (size_t n = 0; n < 64; n++)
		bad.push_back(K.substr(0, n));
	for (size_t n = 65; n < 132; n++)
		bad.push_back((K + K + K).substr(0, n));
	for (int c = 1; c < 256; c++)
		if (!isxdigit(c) && c != ',' && c != '#')
			for (size_t pos = 0; pos < 64; pos++) {
				if (!t.thorough && pos > 1 && pos != 31 && pos < 62)
					continue;
				std::string s = K;
				s[pos] = (char)c;
				bad.push_back(s);
			}
	for (const char *s : {"0x", " ", "+", "-", "\t", "key:", "\n"}) {
		bad.push_back(s + K);
		bad.push_back(s + K.substr(strlen(s)));
		bad.push_back(K + s);
		bad.push_back(K.substr(0, 64 - strlen(s)) + s);
	}
	for (const char *sep : {"\n", "\r\n", " ", "\r", ":", ";", "\t", "/", "-", "x"})
		for (const std::string &more : {K, std::string("x"), std::string("comment"), std::string("0"), std::string("00"), K.substr(0, 20)})
			bad.push_back(K + sep + more);
	for (size_t i = 0; i < bad.size(); i++) {
		std::string b = bad[i];
		for (int p = 0; p < 5; p++) {
			if (!t.thorough && p && (i + (size_t)p) % 4)
				continue;
			add("key " + hex((const u8 *)b.data(), b.size()) + strf(" must be refused (%d)", p), [=](Exec &x) { refused(x, "key:" + b, p); });
			add("key in the environment " + hex((const u8 *)b.data(), b.size()) + strf(" must be refused (%d)", p), [=](Exec &x) {
				x.env.env["KEY"] = b;
				refused(x, "env:KEY", p);
			});
			std::string chomped = b;
			while (!chomped.empty() && (chomped.back() == '\n' || chomped.back() == '\r'))
				chomped.pop_back();
			if (chomped != K)
				add("key in a file " + hex((const u8 *)b.data(), b.size()) + strf(" must be refused (%d)", p), [=](Exec &x) {
					x.env.add("kf", str(b));
					refused(x, "file:kf", p);
				});
		}
	}
	for (int p = 0; p < 5; p++) {
		for (const std::string &s : {K, "key" + K, "KEY:" + K, "key=" + K, std::string("env:NOPE"), std::string("env:"), std::string("file:nope"), std::string("file:"), std::string("file:d"), std::string(""), std::string("x"), ":" + K})
			add("key specification " + s + strf(" must be refused (%d)", p), [=](Exec &x) {
				x.env.add("d", {})->dir = true;
				refused(x, s, p);
			});
		// files with more in them than a key
		std::vector<Bytes> fb;
		for (const char *sep : {"\n", "\r\n", " ", "\r", "\n\n", ",", "\t"})
			for (const std::string &more : {K, std::string("x"), std::string("# comment\n"), std::string("0")})
				fb.push_back(str(K + sep + more));
		for (size_t n : {0u, 1u, 32u, 63u, 64u})
			fb.push_back(cat({str(K.substr(0, n)), Bytes{0}, str(K.substr(n))}));
		fb.push_back(cat({str(K), Bytes{0}}));
		fb.push_back(cat({str(K), Bytes{'\n', 0}}));
		fb.push_back(cat({str(K), Bytes{0}, str("\n")}));
		fb.push_back(cat({str(K), Bytes{0}, fill(100, 1)}));
		fb.push_back(cat({str(K), rep(10000, ' ')}));
		fb.push_back(str("\n" + K));
		fb.push_back(kb);
		for (auto &b : fb)
			add("key file " + hex(b.data(), std::min<size_t>(b.size(), 100)) + strf(" must be refused (%d)", p), [=](Exec &x) {
				x.env.add("kf", b);
				refused(x, "file:kf", p);
			});
	}
	return (u64)cases.size();
}

static Property prop = {
	.id = "C13",
	.prepare = prepare,
	.run = [](Exec &x) { cases[x.scenario].f(x); },
	.bound = [](const Tier &, u64) { return 0; },
	.describe = [](u64 n) { return cases[n].name; },
	.space = "keys and ids with every single bit flipped or set, every length up to 330 (thorough: 1100) and some around block and buffer sizes, all lists of up to 5-6 chunks, "
	         "default/explicit/standard output, forwards and backwards; extractions with 515 keys, 8 kinds of frames, 9 piece sizes and mixed keys; keys from argument, environment and "
	         "file; malformed keys of every length and with every wrong character",
	.bounds = "every element of the space is decided",
};
static RegisterProperty reg(&prop);
