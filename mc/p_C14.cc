// csn-tool: success means that every output is there and complete, whatever happened before.
#include "chains.h"

static const std::string K = KEY0_HEX;
struct Scen {
	std::string name;
	int bound = 0;
	std::function<void(Exec &)> f;
};
static std::vector<Scen> scens;

static std::string nm(int i, bool enc)
{
	Bytes b = {(u8)i};
	return hex(sha256(b)) + (enc ? ".cacnk.enc" : ".cacnk");
}
static Bytes conv(int i, const Bytes &d)
{
	return ref_xchacha20(KEY0, sha256(Bytes{(u8)i}).data(), d);
}

struct Want { std::string path; Bytes data; bool out = false; };

// files of the environment that must stay as they are
struct Keep {
	std::map<std::string, Bytes> files;
	void take(Exec &x)
	{
		for (auto &p : x.env.fs)
			if (!p.second->dir)
				files[p.first] = p.second->content();
	}
	std::string check(Exec &x)
	{
		for (auto &p : files) {
			auto it = x.env.fs.find(p.first);
			if (it == x.env.fs.end())
				return p.first + " is gone";
			if (it->second->content() != p.second)
				return p.first + " was changed";
		}
		return "";
	}
};

// runs the same command until it succeeds; faults and interruptions in every run
static void history(Exec &x, const std::vector<std::string> &args, const Bytes &in, const std::vector<Want> &want, bool to_stdout, const Bytes &stdout_want, int max_runs)
{
	Keep keep;
	keep.take(x);
	auto hook = [&](const IoReq &r) -> IoAns {
		IoAns a;
		auto err = [&](std::initializer_list<int> l, bool crash, bool crash_after) {
			int n = (int)l.size() + crash + crash_after;
			int k = x.choose(n + 1, 1);
			if (!k)
				return;
			k--;
			if (k < (int)l.size()) {
				a.k = IoAns::Err;
				a.err = l.begin()[k];
			} else if (k == (int)l.size() && crash)
				a.k = IoAns::CrashBefore;
			else
				a.k = IoAns::CrashAfter;
		};
		switch (r.op) {
		case Op::Open: err({EMFILE, EACCES}, true, false); break;
		case Op::Access: err({}, true, false); break;
		case Op::Fstat: err({EIO}, false, false); break;
		case Op::Unlink: err({EACCES}, true, true); break;
		case Op::Rename: err({EIO, ENOSPC}, true, true); break;
		case Op::Fsync: err({EIO}, true, true); break;
		case Op::Alloc: err({ENOMEM}, false, false); break;
		case Op::Read:
		case Op::Pread:
			switch (x.choose(6, 1)) {
			case 1: a.k = IoAns::Err; a.err = EIO; break;
			case 2: a.k = IoAns::Err; a.err = EINTR; break;
			case 3: a.k = IoAns::Short; a.n = 1; break;
			case 4: a.k = IoAns::Short; a.n = r.len > 1 ? r.len - 1 : 1; break;
			case 5: a.k = IoAns::Eof; break;
			}
			break;
		case Op::Write:
		case Op::Pwrite: {
			int k = x.choose(r.f ? 9 : 5, 1);
			switch (k) {
			case 1: a.k = IoAns::Err; a.err = ENOSPC; break;
			case 2: a.k = IoAns::Err; a.err = EINTR; break;
			case 3: a.k = IoAns::Short; a.n = 1; break;
			case 4: a.k = IoAns::Short; a.n = r.len > 1 ? r.len - 1 : 1; break;
			case 5: a.k = IoAns::CrashBefore; a.n = 0; break;
			case 6: a.k = IoAns::CrashBefore; a.n = 1; break;
			case 7: a.k = IoAns::CrashBefore; a.n = r.len - (r.len > 0); break;
			case 8: a.k = IoAns::CrashBefore; a.n = r.len; break;
			}
			break;
		}
		default: break;
		}
		return a;
	};
	std::string h;
	for (int n = 0; n < max_runs; n++) {
		x.env.stdout_data.clear();
		x.env.stdin_data = in;
		x.env.io = hook;
		x.env.log_alloc = true;
		int used = x.used;
		Result r = sut_run(x, P_TOOL, args);
		x.env.io = nullptr;
		h += r.end == End::Crash ? "C" : r.ok() ? "S" : r.failed() ? "F" : "?";
		if (r.end != End::Exit && r.end != End::Crash) {
			x.fail("run %d: %s", n + 1, r.str().c_str());
			break;
		}
		std::string e = keep.check(x);
		if (!e.empty()) {
			x.fail("run %d: %s", n + 1, e.c_str());
			break;
		}
		if (r.ok()) {
			for (auto &w : want) {
				VF f = x.env.find(w.path);
				if (!f) {
					x.fail("run %d: exit 0, but there is no %s", n + 1, w.path.c_str());
					return;
				}
				if (f->content() != w.data) {
					x.fail("run %d: exit 0, but %s is not complete (%llu of %zu bytes)", n + 1, w.path.c_str(), (unsigned long long)f->size, w.data.size());
					return;
				}
			}
			if (to_stdout && x.env.stdout_data != stdout_want) {
				x.fail("run %d: exit 0, but standard output is not complete", n + 1);
				return;
			}
			break;
		}
		if (n == 0 && x.used == used && r.end == End::Exit) {
			x.fail("%s without any fault", r.str().c_str());
			break;
		}
	}
	x.outcome(h);
}

// the outcome of single conversions, for comparison with a list
struct Single { bool ok; };
static bool chunk_name(const std::string &p)
{
	std::string b = p.substr(p.rfind('/') + 1); // npos + 1 == 0
	if (b.size() != 70 && b.size() != 74)
		return false;
	for (int i = 0; i < 64; i++)
		if (!isxdigit((u8)b[(size_t)i]))
			return false;
	return b.substr(64) == ".cacnk" || b.substr(64) == ".cacnk.enc";
}
static Id id_of(const std::string &p)
{
	std::string b = p.substr(p.rfind('/') + 1);
	Id id;
	for (int i = 0; i < 32; i++)
		id[(size_t)i] = (u8)strtol(b.substr((size_t)(2 * i), 2).c_str(), nullptr, 16);
	return id;
}
static std::string out_of(const std::string &p)
{
	return p.size() > 4 && p.substr(p.size() - 4) == ".enc" ? p.substr(0, p.size() - 4) : p + ".enc";
}
// the model of one conversion; applies it to the files
static bool model_one(std::map<std::string, Bytes> &fs, Env &env, const std::string &in, std::string out)
{
	if (!chunk_name(in))
		return false;
	if (out.empty())
		out = out_of(in);
	if (fs.count(env.norm(out)))
		return true;
	auto it = fs.find(env.norm(in));
	if (it == fs.end())
		return false;
	fs[env.norm(out)] = ref_xchacha20(KEY0, id_of(in).data(), it->second);
	return true;
}

static void check_model(Exec &x, const std::vector<std::string> &args, const std::vector<std::pair<std::string, std::string>> &steps, bool refuse = false)
{
	std::map<std::string, Bytes> fs;
	for (auto &p : x.env.fs)
		if (!p.second->dir)
			fs[p.first] = p.second->content();
	std::map<std::string, Bytes> before = fs;
	bool ok = !refuse;
	for (auto &s : steps)
		ok = ok && model_one(fs, x.env, s.first, s.second);
	Result r = sut_run(x, P_TOOL, args);
	x.outcome(r.str());
	if (r.end != End::Exit) {
		x.fail("%s", r.str().c_str());
		return;
	}
	if (r.ok() != ok) {
		x.fail("%s, expected %s", r.str().c_str(), ok ? "success" : "failure");
		return;
	}
	std::map<std::string, Bytes> now;
	for (auto &p : x.env.fs)
		if (!p.second->dir)
			now[p.first] = p.second->content();
	if (ok) {
		if (now != fs) {
			for (auto &p : fs)
				if (!now.count(p.first) || now[p.first] != p.second) {
					x.fail("exit 0, but %s is missing or wrong", p.first.c_str());
					return;
				}
			for (auto &p : now)
				if (!fs.count(p.first))
					x.fail("an unexpected file %s appeared", p.first.c_str());
		}
		return;
	}
	for (auto &p : before)
		if (!now.count(p.first) || now[p.first] != p.second)
			x.fail("%s was changed or removed", p.first.c_str());
	// nothing that looks like a result unless it is one
	for (auto &p : now)
		if (!before.count(p.first) && (!fs.count(p.first) || fs[p.first] != p.second))
			x.fail("an unexpected or incomplete file %s was left", p.first.c_str());
}

static void words(const std::vector<std::string> &a, size_t len, const std::function<void(const std::vector<std::string> &)> &f)
{
	std::vector<std::string> cur;
	std::function<void()> rec = [&]() {
		f(cur);
		if (cur.size() == len)
			return;
		for (auto &t : a) {
			cur.push_back(t);
			rec();
			cur.pop_back();
		}
	};
	rec();
}

static u64 prepare(const Tier &t)
{
	auto add = [&](const std::string &n, int bound, std::function<void(Exec &)> f) { scens.push_back({n, bound, f}); };
	int B = t.thorough ? 3 : 2;
	// histories with faults and interruptions
	for (size_t len : {0u, 1u, 2u, 100u, 70000u, 1500000u})
		for (int enc = 0; enc < 2; enc++)
			for (int how = 0; how < 5; how++)
				for (int src = 0; src < 2; src++) {
					Bytes d = fill(len, 6), q = conv(1, d);
					std::string in = nm(1, enc), out = nm(1, !enc);
					static const char *hn[] = {"default name", "explicit name", "standard output", "list", "in a directory"};
					if (len > 1000000 && src)
						continue;
					add(strf("%zu bytes, %s, %s, key from a %s", len, enc ? "decrypt" : "encrypt", hn[how], src ? "file" : "string"), len > 1000000 ? 1 : B, [=](Exec &x) {
						std::string i = in, o = out;
						if (how == 4) {
							x.env.add("x", {})->dir = true;
							i = "x/" + in;
							o = "x/" + out;
						}
						x.env.add(i, d);
						x.env.add("other", str("keep me"));
						std::vector<std::string> a = {"csn-tool", "crypt", src ? "file:kf" : "key:" + K};
						if (src)
							x.env.add("kf", str(K + "\n"));
						Bytes in_data;
						if (how == 3)
							in_data = str(i + "\n");
						else
							a.push_back(i);
						if (how == 1)
							a.push_back(o = "result");
						if (how == 2)
							a.push_back("-");
						std::vector<Want> w;
						if (how != 2)
							w.push_back({o, q});
						history(x, a, in_data, w, how == 2, q, B + 1);
					});
				}
	for (int m = 0; m < 4; m++)
		add(strf("list of three chunks (%d)", m), B, [=](Exec &x) {
			std::string l;
			std::vector<Want> w;
			for (int i = 0; i < 3; i++) {
				Bytes d = fill(50 + (u64)i, (u64)i);
				bool e = m >> i & 1;
				x.env.add(nm(i, e), d);
				l += nm(i, e) + "\n";
				w.push_back({nm(i, !e), conv(i, d)});
			}
			history(x, {"csn-tool", "crypt", "key:" + K}, str(l), w, false, {}, B + 1);
		});
	// left-overs of all kinds: the output or something else exists already
	for (int how = 0; how < 3; how++)
		for (size_t len : {0u, 5u, 100u, 200u})
			for (int perm = 0; perm < 4; perm++)
			add(strf("output of %zu bytes exists already (%d), permissions %d", len, how, perm), 1, [=](Exec &x) {
				Bytes d = fill(100, 1), old = fill(len, 2);
				x.env.add(nm(1, false), d);
				std::string out = how == 1 ? "result" : nm(1, true);
				VF of = x.env.add(out, old);
				of->noread = perm & 1;
				of->nowrite = perm & 2;
				if (perm)
					mark_unreal(); // root isn't subject to them
				std::vector<std::string> a = {"csn-tool", "crypt", "key:" + K};
				Bytes in;
				if (how == 2)
					in = str(nm(1, false) + "\n");
				else
					a.push_back(nm(1, false));
				if (how == 1)
					a.push_back(out);
				history(x, a, in, {{out, old}}, false, {}, 2);
			});
	// directories whose names look like those of chunks
	for (const std::string &dir : {std::string("x.enc"), std::string("x.cacnk"), std::string("x.cacnk.enc"), nm(2, true), nm(2, false), std::string("a.enc/b.cacnk"), std::string("-"), std::string(".enc"), std::string("a b.enc"), std::string("./x.enc"), std::string("%s.enc")})
		for (int enc = 0; enc < 2; enc++)
			for (int how = 0; how < 2; how++)
				add(strf("in directory %s, %s (%d)", dir.c_str(), enc ? "decrypt" : "encrypt", how), 0, [=](Exec &x) {
					if (dir == "a.enc/b.cacnk")
						x.env.add("a.enc", {})->dir = true;
					x.env.add(dir, {})->dir = true;
					std::string in = dir + "/" + nm(1, enc);
					x.env.add(in, fill(70, 4));
					std::vector<std::string> a = {"csn-tool", "crypt", "key:" + K};
					if (how)
						x.env.stdin_data = str(in + "\n");
					else
						a.push_back(in);
					check_model(x, a, {{in, ""}});
				});
	add("a file called '-' exists", 1, [=](Exec &x) {
		Bytes d = fill(100, 1);
		x.env.add(nm(1, false), d);
		x.env.add("-", str("keep"));
		history(x, {"csn-tool", "crypt", "key:" + K, nm(1, false), "-"}, {}, {}, true, conv(1, d), 2);
	});
	// errors and pieces of standard input
	{
		std::string l = nm(0, false) + "\n" + nm(1, true) + "\r\n" + nm(2, false);
		for (int at = -1; at <= (int)l.size(); at++)
			for (int cut = 0; cut < 3; cut++)
				for (int nl = 0; nl < 2; nl++)
					add(strf("list with a read error at %d, pieces %d, %s end of line", at, cut, nl ? "with" : "without"), 0, [=](Exec &x) {
						std::string s = l + (nl ? "\n" : "");
						for (int i = 0; i < 3; i++)
							x.env.add(nm(i, i == 1), fill(80, (u64)i));
						x.env.stdin_data = str(s);
						x.env.stdin_err_at = at;
						for (u32 p = cut ? (cut == 1 ? 1 : 37) : 100000; p < s.size(); p += cut == 1 ? 1 : 37)
							x.env.stdin_cuts.push_back(p);
						Keep keep;
						keep.take(x);
						Result r = sut_run(x, P_TOOL, {"csn-tool", "crypt", "key:" + K});
						x.outcome(r.str());
						if (r.end != End::Exit || r.ok() != (at < 0)) {
							x.fail("%s", r.str().c_str());
							return;
						}
						std::string e = keep.check(x);
						if (!e.empty())
							x.fail("%s", e.c_str());
						for (int i = 0; i < 3; i++) {
							VF f = x.env.find(nm(i, i != 1));
							if (r.ok() && !f)
								x.fail("exit 0, but %s is missing", nm(i, i != 1).c_str());
							if (f && f->content() != conv(i, fill(80, (u64)i)))
								x.fail("%s is not complete", nm(i, i != 1).c_str());
						}
					});
		for (size_t at = 1; at < l.size(); at++)
			add(strf("list in two pieces, cut at %zu", at), 0, [=](Exec &x) {
				for (int i = 0; i < 3; i++)
					x.env.add(nm(i, i == 1), fill(80, (u64)i));
				x.env.stdin_data = str(l);
				x.env.stdin_cuts = {(u32)at};
				check_model(x, {"csn-tool", "crypt", "key:" + K}, {{nm(0, false), ""}, {nm(1, true), ""}, {nm(2, false), ""}});
			});
	}
	// lists mean the same as single files
	std::vector<std::string> W = {nm(0, false), nm(1, true), "./" + nm(2, false), "x/" + nm(3, true), nm(4, false), "bad", "", nm(0, true), nm(1, false), "x", "nope/" + nm(0, false)};
	words(W, t.thorough ? 5 : 4, [&](const std::vector<std::string> &v) {
		if (v.empty())
			return;
		for (const char *eol : {"\n", "\r\n"}) {
			if (!strcmp(eol, "\r\n") && v.size() > 3)
				continue;
			std::string l;
			for (auto &s : v)
				l += s + eol;
			add("list " + l, 0, [=](Exec &x) {
				x.env.add("x", {})->dir = true;
				for (int i = 0; i < 3; i++)
					x.env.add(nm(i, i == 1), fill(30 + (u64)i, (u64)i));
				x.env.add("x/" + nm(3, true), fill(33, 3));
				x.env.stdin_data = str(l);
				std::vector<std::pair<std::string, std::string>> steps;
				for (auto &s : v)
					steps.push_back({s, ""});
				check_model(x, {"csn-tool", "crypt", "key:" + K}, steps);
			});
		}
	});
	// white space belongs to the names
	for (const char *pre : {"", " ", "\t", "\""})
		for (const char *suf : {"", " ", "\t", "  ", "\v", "\f", "\"", "#", "\\", "\x01"})
			for (int there = 0; there < 2; there++)
				for (int enc = 0; enc < 2; enc++)
					for (const char *eol : {"\n", "\r\n", ""})
						add(strf("list line with white space around (%s|%s) %d %d%s", pre, suf, there, enc, *eol ? "" : " without end"), 0, [=](Exec &x) {
							std::string f = pre + nm(0, enc) + suf;
							x.env.add(nm(0, enc), fill(30, 0));
							x.env.add(nm(2, false), fill(31, 0));
							if (there)
								x.env.add(f, fill(32, 1));
							x.env.stdin_data = str(nm(2, false) + "\n" + f + eol);
							check_model(x, {"csn-tool", "crypt", "key:" + K}, {{nm(2, false), ""}, {f, ""}});
						});
	// long lists
	for (int n : {300, 1100, 3000})
		for (int kind = 0; kind < 4; kind++)
			add(strf("list of %d chunks (%d)", n, kind), 0, [=](Exec &x) {
				// all are new; some results exist; the last one is bad; the last is missing
				std::string l;
				std::vector<std::pair<std::string, std::string>> steps;
				for (int i = 0; i < n; i++) {
					Bytes b = {(u8)i, (u8)(i >> 8), 1};
					bool e = i % 3 == 1;
					std::string f = hex(sha256(b)) + (e ? ".cacnk.enc" : ".cacnk");
					if (kind == 2 && i == n - 1)
						f = "bad";
					if (kind != 3 || i != n - 1)
						x.env.add(f, fill((u64)(i % 50), (u64)i));
					if (kind == 1 && i % 2)
						x.env.add(out_of(f), str("there"));
					l += f + "\n";
					steps.push_back({f, ""});
				}
				x.env.stdin_data = str(l);
				check_model(x, {"csn-tool", "crypt", "key:" + K}, steps);
			});
	// the last line without an end
	for (auto &s : W)
		for (const char *first : {"", "\n", "good\n"})
			add("unterminated last line " + std::string(first) + s, 0, [=](Exec &x) {
				x.env.add("x", {})->dir = true;
				for (int i = 0; i < 3; i++)
					x.env.add(nm(i, i == 1), fill(30 + (u64)i, (u64)i));
				x.env.add("x/" + nm(3, true), fill(33, 3));
				std::vector<std::pair<std::string, std::string>> steps;
				std::string f = first;
				if (f == "\n")
					steps.push_back({"", ""});
				if (f == "good\n") {
					f = nm(2, false) + "\n";
					steps.push_back({nm(2, false), ""});
				}
				if (!s.empty())
					steps.push_back({s, ""});
				x.env.stdin_data = str(f + s);
				check_model(x, {"csn-tool", "crypt", "key:" + K}, steps);
			});
	// names
	{
		std::vector<std::string> names;
		for (int enc = 0; enc < 2; enc++) {
			std::string g = nm(1, enc);
			for (size_t pos = 0; pos < g.size(); pos++) {
				for (int c = 1; c < 256; c++) {
					if (c == '/' || c == '\n' || c == '\r')
						continue;
					if (!t.thorough && pos > 1 && pos < 62 && c % 16 != (int)pos % 16)
						continue;
					std::string s = g;
					s[pos] = (char)c;
					names.push_back(s);
				}
				std::string s = g;
				names.push_back(s.substr(0, pos));
				names.push_back(s.substr(pos));
				s.insert(pos, "0");
				names.push_back(s);
				s = g;
				s.erase(pos, 1);
				names.push_back(s);
				s = g;
				s.insert(pos, "/");
				names.push_back(s);
			}
			std::string h = g.substr(0, 64);
			for (const char *suf : {"", ".", ".cacn", ".cacnk.", ".cacnk.en", ".cacnk.enc.", ".cacnk.enc.enc", ".cacnk.cacnk", ".enc", ".enc.cacnk", ".CACNK", ".cacnk.ENC", "xcacnk", ".cacnkxenc", "abcd.cacnk", "\n.cacnk", ".cacnk/", ".cacnk.enc/", ".cacnk ", ".cacnk\t"}) {
				names.push_back(h + suf);
				names.push_back(h.substr(0, 60) + suf);
				names.push_back(h + "0000" + suf);
			}
			names.push_back("x/" + g);
			names.push_back("/w/" + g);
			names.push_back("././" + g);
			names.push_back("x//" + g);
		}
		std::set<std::string> seen;
		for (auto &n : names)
			if (seen.insert(n).second)
				for (int how = 0; how < 4; how++) {
					if (!t.thorough && how && chunk_name(n) && n.find('/') == std::string::npos && n.size() % 4 != (size_t)how)
						continue;
					bool nlin = n.find('\n') != std::string::npos || n.find('\r') != std::string::npos;
					if (how == 1 && nlin)
						continue;
					add("name " + n + strf(" (%d)", how), 0, [=](Exec &x) {
						x.env.add("x", {})->dir = true;
						// the file exists if it can
						if (!n.empty() && n.back() != '/') {
							std::string dir = n.substr(0, n.rfind('/') == std::string::npos ? 0 : n.rfind('/'));
							if (n.find('/') != std::string::npos && dir.substr(0, 1) != "." && dir.substr(0, 1) != "/" && dir.substr(0, 2) != "x/" && dir != "x")
								x.env.add(dir.empty() ? "/" : dir, {})->dir = true;
							x.env.add(n, fill(40, 4));
						}
						std::vector<std::string> a = {"csn-tool", "crypt", "key:" + K};
						std::string o;
						if (how == 1)
							x.env.stdin_data = str(n + "\n");
						else
							a.push_back(n);
						if (how == 2)
							a.push_back(o = "result");
						if (how == 3) {
							a.push_back("-");
							Result r = sut_run(x, P_TOOL, a);
							x.outcome(r.str());
							if (r.end != End::Exit || r.ok() != chunk_name(n))
								x.fail("%s", r.str().c_str());
							else if (!r.ok() && !x.env.stdout_data.empty())
								x.fail("something was written for a refused name");
							else if (r.ok() && x.env.stdout_data != ref_xchacha20(KEY0, id_of(n).data(), fill(40, 4)))
								x.fail("wrong output");
							return;
						}
						check_model(x, a, {{n, o}});
					});
				}
	}
	// lines around the length limits: refused as a whole or processed as a whole
	for (size_t n = 4080; n < 4110; n++)
		for (int k = 0; k < 4; k++)
			for (const char *eol : {"", "\n", "\r\n"})
				for (size_t split : {0u, 4094u, 4095u, 4096u, 4097u, 4098u})
					add(strf("list line of length %zu (%d), valid name ending at %zu%s", n, k, split, *eol ? "" : " without end"), 0, [=](Exec &x) {
						// "./././<name>" with another valid name ending where the buffer might end
						std::string s(n, '/');
						for (size_t i = 0; i < n; i += 2)
							s[i] = '.';
						std::string g = nm(1, k & 1), h = nm(2, k & 2);
						x.env.add(g, fill(40, 1));
						x.env.add(h, fill(40, 2));
						auto put = [&](size_t end, const std::string &q) {
							if (end <= s.size() && end > q.size() + 3) {
								s.replace(end - q.size() - 1, q.size() + 1, "/" + q);
								// keep "./" pairs in front of it
								size_t b = end - q.size() - 1;
								for (size_t i = b; i-- > 0;)
									s[i] = (b - i) % 2 ? '.' : '/';
							}
						};
						put(n, g);
						if (split && split + 2 < n)
							s.replace(split - h.size() - 1, h.size() + 1, "/" + h);
						x.env.stdin_data = str(s + eol);
						mark_unreal(); // the name of the temporary file holds the process id: its length decides
						Keep keep;
						keep.take(x);
						Result r = sut_run(x, P_TOOL, {"csn-tool", "crypt", "key:" + K});
						x.outcome(r.str());
						std::string e = keep.check(x);
						if (r.end != End::Exit)
							e = r.str();
						// h is never requested
						if (e.empty() && split && split < n && x.env.find(out_of(h)))
							e = "a part of a line was taken for a name";
						if (e.empty() && r.ok() && !x.env.find(out_of(g)))
							e = "exit 0, but the output is missing";
						if (e.empty() && n > 4095 && r.ok())
							e = "exit 0 for a name that no file can have";
						if (!e.empty())
							x.fail("%s", e.c_str());
					});
	// other command lines
	for (auto &v : std::vector<std::vector<std::string>>{{"csn-tool"}, {"csn-tool", ""}, {"csn-tool", "encrypt", "key:" + K, nm(0, false)}, {"csn-tool", "cryp", "key:" + K, nm(0, false)}, {"csn-tool", "crypt2", "key:" + K, nm(0, false)},
		     {"csn-tool", "CRYPT", "key:" + K, nm(0, false)}, {"csn-tool", "crypt"}, {"csn-tool", "crypt", "key:" + K, nm(0, false), "o", "p"}, {"csn-tool", "key:" + K, nm(0, false)},
		     {"csn-tool", "crypt", "key:" + K, "nope"}, {"csn-tool", "crypt", "key:" + K, nm(5, false)}, {"csn-tool", "crypt", "key:" + K, nm(5, false), "o"}, {"csn-tool", "crypt", "key:" + K, nm(5, false), "-"},
		     {"csn-tool", "crypt", "key:" + K, nm(0, false), "nope/o"}, {"csn-tool", "crypt", "key:" + K, ""}, {"csn-tool", "crypt", "key:" + K, nm(0, false), ""}, {"csn-tool", "crypt", "key:" + K, nm(6, false)}})
		add("must fail:" + [&] { std::string s; for (auto &q : v) s += " " + q; return s; }(), 0, [=](Exec &x) {
			x.env.add(nm(0, false), fill(10, 1));
			x.env.add(nm(6, false), {})->dir = true;
			check_model(x, v, {}, true);
		});
	return (u64)scens.size();
}

static Property prop = {
	.id = "C14",
	.prepare = prepare,
	.run = [](Exec &x) { scens[x.scenario].f(x); },
	.bound = [](const Tier &, u64 n) { return scens[n].bound; },
	.describe = [](u64 n) { return scens[n].name; },
	.space = "conversions (5 lengths, both directions, 5 ways to name the output, 2 key sources, lists) repeated until success with faults of every system call and allocation, short "
	         "and interrupted transfers and interruptions at every point; existing outputs; list reading errors and splits at every position; all lists of up to 4-5 names over 11; "
	         "names with every wrong character, length and suffix; lines around all buffer limits",
	.bounds = "faults and interruptions per history: 2 (thorough: 3), up to 3 (4) runs; interruptions end the process (no loss of flushed data)",
};
static RegisterProperty reg(&prop);
