// What is printed, and whether it can be printed, has no influence on what the programs do.
#include "chains.h"

struct Variant { const char *level; bool out, err; int sink; };
enum { K_OK, K_OUT, K_ERR, K_BOTH, K_BYTES, K_LATE, K_N };
static std::string vname(const Variant &v)
{
	static const char *s[] = {"", ", standard output fails", ", standard error fails", ", all output fails", ", output cut off after a byte", ", output fails after a while"};
	return strf("LOGLEVEL %s%s%s%s%s", v.level ? "'" : "unset", v.level ? v.level : "", v.level ? "'" : "", v.out && v.err ? ", terminal" : v.out ? ", stdout is a terminal" : v.err ? ", stderr is a terminal" : "",
		s[v.sink]);
}

// everything about a run but what it prints
struct Obs {
	Result r;
	std::vector<std::string> urls;
	std::vector<std::pair<u64, Bytes>> writes;      // of the file that is the result
	std::map<std::string, Bytes> files;
	Bytes data;                                     // written to standard output by descriptor
	std::string out, err;
	std::vector<std::pair<size_t, std::string>> outs; // with the position in the history
	size_t last_write = 0;
};

// the choices of the run with the variant are repeated in the one without
struct Script {
	bool rec = true;
	std::map<std::tuple<int, Id, int>, int> ans;
	std::map<int, int> always; // by store
	std::vector<int> io;
	size_t pos = 0;
};
struct Job {
	std::string name;
	std::function<Result(Exec &, Script &, VF &result)> run;
	Prog prog;
	u64 entries = 0; // of an extraction that shows its progress
	int bound = 0;
	bool data_out = false; // standard output is data
	bool slow = false, big = false;
};
static std::vector<Job> jobs;
static std::vector<Variant> variants, some_v, few, one_v;
struct Scen { size_t job; Variant v; int bound; };
static std::vector<Scen> scens;
static bool thorough;

static const u64 M = 1024 * 1024;
static const int ALWAYS = 1000; // from now on, for every chunk of the store
static const std::vector<int> MENU = {A_HIT, A_404, A_GARBAGE, A_TIMEOUT, A_FATAL, A_500, A_WRONG, ALWAYS + A_TIMEOUT, ALWAYS + A_CONN, ALWAYS + A_500, ALWAYS + A_WRONG};

static Obs observe(Exec &x, const Job &j, const Variant &v, Script &sc)
{
	Obs o;
	x.reset_env();
	if (v.level)
		x.env.env["LOGLEVEL"] = v.level;
	x.env.tty_out = v.out;
	x.env.tty_err = v.err;
	u64 count = 0;
	x.env.text = [&o, &x, &v, &count](int fd, const char *b, size_t n) -> ssize_t {
		count++;
		bool bad = v.sink == K_BOTH || (v.sink == K_OUT && fd == 1) || (v.sink == K_ERR && fd == 2) || (v.sink == K_LATE && count > 2);
		if (bad)
			return -1;
		if (v.sink == K_BYTES)
			n = 1;
		std::string s(b, n);
		if (fd == 1) {
			o.out += s;
			o.outs.push_back({x.ev.size(), s});
		} else
			o.err += s;
		return (ssize_t)n;
	};
	VF res;
	if (j.big)
		x.env.horizon = 3000000;
	o.r = j.run(x, sc, res);
	x.env.text = nullptr;
	for (auto &e : x.ev) {
		if (e.op == Op::Http)
			o.urls.push_back(e.s);
		if ((e.op == Op::Write || e.op == Op::Pwrite) && e.f && e.ret > 0) {
			o.writes.push_back({e.off, Bytes(e.data.begin(), e.data.begin() + (long)e.ret)});
			if (e.f == res.get())
				o.last_write = (size_t)(&e - x.ev.data());
		}
		if (e.op == Op::Fsync && e.ret == 0 && e.f)
			o.writes.push_back({~0ull, {}});
	}
	for (auto &f : x.env.fs)
		if (!f.second->dir)
			o.files[f.first] = f.second->content();
	o.data = x.env.stdout_data;
	return o;
}

static void progress(Exec &x, const Job &j, const Variant &v, const Obs &o)
{
	int last = -1, shown = 0;
	std::string num;
	bool dot = false;
	size_t at = 0;
	for (auto &p : o.outs)
		for (char c : p.second) {
			if ((c >= '0' && c <= '9') || c == '.') {
				num += c;
				dot |= c == '.';
				continue;
			}
			if (c == '%' && !num.empty() && !dot) {
				int n = atoi(num.c_str());
				shown++;
				if (n < last) {
					x.fail("progress goes from %d%% to %d%%", last, n);
					return;
				}
				if (n > 100) {
					x.fail("progress of %d%%", n);
					return;
				}
				if (n == 100 && last < 100)
					at = p.first;
				last = n;
			}
			num.clear();
			dot = false;
		}
	if (v.sink == K_BYTES)
		return;
	if (last == 100 && at <= o.last_write && o.last_write)
		x.fail("progress of 100%% before the last write");
	bool debug = v.level && !strcmp(v.level, "debug");
	if (o.r.ok() && v.out && (v.sink == K_OK || v.sink == K_ERR) && j.entries) {
		if (shown && last != 100)
			x.fail("the last progress shown is %d%%", last);
		if (!shown && !debug)
			x.fail("no progress is shown");
	}
	if (!v.out && shown)
		x.fail("progress is shown without a terminal");
}

static std::string compare(const Obs &a, const Obs &b)
{
	if (a.r.str() != b.r.str())
		return "the run ends with " + a.r.str() + " instead of " + b.r.str();
	if (a.urls != b.urls)
		return strf("%zu requests instead of %zu, or others", a.urls.size(), b.urls.size());
	if (a.writes != b.writes)
		return strf("%zu writes instead of %zu, or others", a.writes.size(), b.writes.size());
	if (a.files != b.files)
		return "the files differ";
	return "";
}

// so many entries that a hundred times their number doesn't fit into 32 bits
static void huge(Exec &x)
{
	const u64 n = 43000000;
	x.reset_env();
	x.env.no_history = true;
	x.env.keep_write_data = false;
	x.env.horizon = 1000 * 1000 * 1000;
	x.env.tty_out = true;
	{
		Ix ix;
		Bytes head = ix.bytes(), b;
		Bytes one = rep(1, 0);
		Id id = sha256(one);
		b.reserve(head.size() + 40 * n);
		b.assign(head.begin(), head.begin() + 64);
		b.resize(64 + 40 * n);
		for (u64 i = 0; i < n; i++) {
			u64 end = i + 1;
			memcpy(&b[64 + 40 * i], &end, 8);
			memcpy(&b[64 + 40 * i + 8], id.data(), 32);
		}
		u64 tail[5] = {0, 0, 48, 40 * n + 56, 0x4b4f050e5549ecd1ull};
		b.insert(b.end(), (u8 *)tail, (u8 *)(tail + 5));
		VF f = x.env.add("i.caibx", {});
		f->size = b.size();
		f->data.swap(b);
		x.env.add("t", {})->size = n;
		x.env.add("l", one);
	}
	int last = -1, bad = 0, num = -1;
	x.env.text = [&](int fd, const char *b, size_t len) -> ssize_t {
		if (fd == 1)
			for (size_t i = 0; i < len; i++) {
				if (b[i] >= '0' && b[i] <= '9') {
					num = (num < 0 ? 0 : num) * 10 + b[i] - '0';
					continue;
				}
				if (b[i] == '%' && num >= 0) {
					if ((num < last || num > 100) && !bad++)
						x.fail("progress goes from %d%% to %d%%", last, num);
					last = num;
				}
				num = -1;
			}
		return (ssize_t)len;
	};
	Result r = sut_run(x, P_CSN, {"csn", "i.caibx", "t", "l"});
	x.env.text = nullptr;
	x.outcome(r.str());
	if (r.ok() && last != 100)
		x.fail("the last progress shown is %d%%", last);
}

static void run(Exec &x)
{
	if (x.scenario == scens.size())
		return huge(x);
	const Scen &s = scens[x.scenario];
	const Job &j = jobs[s.job];
	Script sc;
	Obs a = observe(x, j, s.v, sc);
	x.outcome(a.r.str());
	sc.rec = false;
	Obs b = observe(x, j, {nullptr, false, false, K_OK}, sc);
	std::string d = compare(a, b);
	if (!d.empty())
		x.fail("%s", d.c_str());
	if (a.r.end == End::Abort)
		x.fail("the run is aborted");
	if (j.data_out && a.data != b.data)
		x.fail("standard output differs");
	if (j.data_out && !a.out.empty())
		x.fail("messages among the data on standard output");
	if (j.prog == P_CSN && !s.v.out && !(a.out.empty() && a.data.empty()))
		x.fail("an extraction prints to standard output: %s", a.out.substr(0, 60).c_str());
	if (j.prog != P_TOOL)
		progress(x, j, s.v, a);
	if (a.r.failed() && (s.v.sink == K_OK || s.v.sink == K_OUT || s.v.sink == K_BYTES) && a.err.empty())
		x.fail("the run fails without a word");
}

// ---- what is run -----------------------------------------------------------------------------

static Chains *proto;
static const char *SEQ[] = {"A", "AAB", "ABA", "HABC", "ABCDEFG"};

static void arm_io(Exec &x, Script &sc, VF t)
{
	VFile *f = t.get();
	auto inner = x.env.io;
	x.env.io = [&x, &sc, f, inner](const IoReq &r) -> IoAns {
		IoAns a;
		if (inner) {
			a = inner(r);
			if (a.k != IoAns::Normal)
				return a;
		}
		if (r.f != f || (r.op != Op::Write && r.op != Op::Pwrite && r.op != Op::Fsync && r.op != Op::Pread))
			return a;
		int c;
		if (sc.rec) {
			c = x.choose(r.op == Op::Fsync ? 3 : 4, 1);
			sc.io.push_back(c);
		} else
			c = sc.pos < sc.io.size() ? sc.io[sc.pos++] : 0;
		if (c == 1 || c == 2) {
			a.k = IoAns::Err;
			a.err = c == 1 ? EIO : EINTR;
			if (c == 2 && r.op == Op::Fsync)
				a.err = ENOSPC;
		}
		if (c == 3 && r.len > 1) {
			a.k = IoAns::Short;
			a.n = r.len / 2;
		}
		return a;
	};
}

static Result extraction(Exec &x, Script &sc, VF &res, const char *seq, int t, const std::vector<int> &stores, const char *prog)
{
	World w(x);
	Chains c = *proto;
	c.index(w, digits(seq));
	c.target(w, t);
	int n = 0;
	for (int k : stores)
		c.add(w, k, n++);
	c.arm(w);
	arm_io(x, sc, w.target);
	res = w.target;
	w.policy = [&](int s, const Id &i, int nth) {
		auto key = std::make_tuple(s, i, nth);
		if (sc.rec) {
			int a;
			if (sc.always.count(s))
				a = sc.always[s];
			else {
				a = MENU[(size_t)x.choose((int)MENU.size(), 1)];
				if (a >= ALWAYS)
					sc.always[s] = a -= ALWAYS;
			}
			return sc.ans[key] = a;
		}
		auto it = sc.ans.find(key);
		return it == sc.ans.end() ? (int)A_404 : it->second;
	};
	return w.run(prog);
}

static std::string joined(const std::vector<std::string> &a)
{
	std::string s;
	for (auto &i : a)
		s += " '" + i + "'";
	return s;
}

// command lines and inputs that can't be used
static void add_bad()
{
	typedef std::vector<std::string> A;
	auto bad = [](const std::string &what, Prog p, const A &args, std::function<void(Exec &, World &)> prep) {
		Job j;
		j.name = what + joined(args);
		j.prog = p;
		j.run = [=](Exec &x, Script &, VF &res) {
			World w(x);
			Chains c = *proto;
			c.index(w, digits("ABC"));
			c.target(w, Chains::T_EMPTY);
			w.local("l", cat({c.a[0], c.a[1]}));
			x.env.add("s", fill(3000, 5));
			x.env.add("d", fill(2000, 5));
			if (prep)
				prep(x, w);
			res = w.target;
			if (p == P_CSN)
				return w.run_args(args);
			return sut_run(x, p, args);
		};
		jobs.push_back(j);
	};
	for (const A &a : std::vector<A>{{"csn"}, {"csn", "i.caibx"}, {"csn", "i.caibx", "t"}, {"csn", "nope", "t", "l"}, {"csn", "i.caibx", "nope", "l"}, {"csn", "i.caibx", "t", "nope"},
		     {"csn", "i.caibx", "t", "l"}, {"csn", "i.caibx", "t", "l:nope"}, {"csn", "i.caibx", "t", "http://h/#foo"}, {"csn", "i.caibx", "t", "http://h/#encrypt=key:12"},
		     {"csn", "i.caibx", "t", "http://h/#encrypt=env:NOPE"}, {"csn", "i.caibx", "t", "http://h/#encrypt=file:nope"}, {"csn", "s", "t", "l"}, {"csn", "i.caibx", "dir", "l"}, {"csn", "dir", "t", "l"},
		     {"casync"}, {"casync", "extract"}, {"casync", "extract", "i.caibx"}, {"casync", "--store=l", "extract", "i.caibx", "t"}, {"casync", "--bad", "extract", "i.caibx", "t"},
		     {"casync", "make", "i.caibx", "t"}, {"casync", "extract", "nope", "t"}, {"casync", "extract", "i.caibx", "nope"}, {"casync", "--store", "nope", "extract", "i.caibx", "t"},
		     {"casync", "--store"}, {"casync", "--help"}, {"foo", "i.caibx", "t", "l"}, {"csn", "i.caibx", "t", "t"}})
		bad("csn:", P_CSN, a, [](Exec &x, World &) { x.env.add("dir", {})->dir = true; });
	{
		World *w = nullptr;
		(void)w;
		for (int cut : {0, 1, 40, 47, 48, 60, 63, 64, 100, 104, 143, 150, 180, 200})
			bad(strf("index cut off after %d bytes:", cut), P_CSN, {"csn", "i.caibx", "t", "l"}, [cut](Exec &x, World &w) {
				Bytes b = w.ixb;
				b.resize(std::min<size_t>(b.size(), (size_t)cut));
				x.env.find("i.caibx")->set(b);
			});
		for (int at = 0; at < 230; at += 8)
			bad(strf("index damaged at %d:", at), P_CSN, {"csn", "i.caibx", "t", "l", "http://h/"}, [at](Exec &x, World &w) {
				Bytes b = w.ixb;
				if ((size_t)at < b.size())
					b[(size_t)at] ^= 0x5a;
				x.env.find("i.caibx")->set(b);
				w.policy = [](int, const Id &, int) { return (int)A_HIT; };
			});
	}
	for (const A &a : std::vector<A>{{"patchdd"}, {"patchdd", "s"}, {"patchdd", "s", "nope"}, {"patchdd", "nope", "d"}, {"patchdd", "s", "d"}, {"patchdd", "dir", "d"}, {"patchdd", "-h"}})
		bad("patchdd:", P_PATCHDD, a, [](Exec &x, World &) { x.env.add("dir", {})->dir = true; });
	std::string id(64, 'a'), key = std::string("key:") + KEY0_HEX;
	for (const A &a : std::vector<A>{{"csn-tool"}, {"csn-tool", "foo"}, {"csn-tool", "crypt"}, {"csn-tool", "crypt", "key:1"}, {"csn-tool", "crypt", key, "x"}, {"csn-tool", "crypt", key, id + ".cacnk"},
		     {"csn-tool", "crypt", key, id + ".cacnk", "a", "b"}, {"csn-tool", "crypt", key, "s"}, {"csn-tool", "crypt", "foo", id + ".cacnk"}, {"csn-tool", "crypt", "env:NOPE", id + ".cacnk"}})
		bad("csn-tool:", P_TOOL, a, nullptr);
	for (const char *list : {"x\n", "\n", "s\n"})
		bad(strf("csn-tool with the list %s:", list), P_TOOL, {"csn-tool", "crypt", key}, [list](Exec &x, World &) { x.env.stdin_data = str(list); });
}

static void add_tools()
{
	for (u64 n : {u64(0), u64(1), u64(1000), M - 1, M, M + 1, 3 * M + 7})
		for (int diff = 0; diff < 3; diff++) {
			Job j;
			j.name = strf("patchdd of %llu bytes, %s", (unsigned long long)n, diff == 0 ? "equal" : diff == 1 ? "different" : "different at the end");
			j.prog = P_PATCHDD;
			j.entries = n;
			j.bound = 1;
			j.slow = n > 5000;
			j.run = [=](Exec &x, Script &sc, VF &res) {
				Bytes s = fill(n, 11), d = diff == 1 ? fill(n + 100, 12) : cat({s, fill(20, 13)});
				if (diff == 2 && n)
					d[n - 1] ^= 1;
				x.env.add("s", s);
				res = x.env.add("d", d);
				arm_io(x, sc, res);
				return sut_run(x, P_PATCHDD, {"patchdd", "s", "d"});
			};
			jobs.push_back(j);
		}
	for (int how = 0; how < 5; how++)
		for (u64 n : {u64(0), u64(1), u64(5000)}) {
			Job j;
			static const char *hn[] = {"default name", "given name", "standard output", "list", "list with one that is missing"};
			j.name = strf("csn-tool, %llu bytes, %s", (unsigned long long)n, hn[how]);
			j.prog = P_TOOL;
			j.data_out = how == 2;
			j.bound = 1;
			j.run = [=](Exec &x, Script &sc, VF &res) {
				std::string id = hex(sha256(fill(n, 21))), id2 = hex(sha256(fill(n, 22)));
				res = x.env.add(id + ".cacnk", fill(n, 21));
				x.env.add(id2 + ".cacnk.enc", fill(n, 22));
				VFile *in = res.get();
				x.env.io = [&x, &sc, in](const IoReq &r) -> IoAns {
					IoAns a;
					bool w = (r.op == Op::Write || r.op == Op::Pwrite) && r.f != in;
					bool q = (r.op == Op::Read || r.op == Op::Pread) && r.f == in;
					if (!w && !q && r.op != Op::Rename && r.op != Op::Open)
						return a;
					int c;
					if (sc.rec) {
						c = x.choose(w || q ? 4 : 2, 1);
						sc.io.push_back(c);
					} else
						c = sc.pos < sc.io.size() ? sc.io[sc.pos++] : 0;
					if (c == 1 || c == 2) {
						a.k = IoAns::Err;
						a.err = c == 1 ? EIO : EINTR;
					}
					if (c == 3 && r.len > 1) {
						a.k = IoAns::Short;
						a.n = r.len / 2;
					}
					return a;
				};
				std::vector<std::string> a = {"csn-tool", "crypt", std::string("key:") + KEY0_HEX};
				if (how < 3)
					a.push_back(id + ".cacnk");
				if (how == 1)
					a.push_back("o");
				if (how == 2)
					a.push_back("-");
				if (how >= 3)
					x.env.stdin_data = str(id + ".cacnk\n" + (how == 4 ? std::string(64, 'b') + ".cacnk\n" : "") + id2 + ".cacnk.enc\n");
				return sut_run(x, P_TOOL, a);
			};
			jobs.push_back(j);
		}
}

static Property prop = {
	.id = "C23",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		for (const char *l : {(const char *)nullptr, "debug", "info", "warn", "warning", "err", "error", "", "DEBUG", "verbose"})
			for (int tty = 0; tty < 4; tty++)
				for (int k = 0; k < K_N; k++)
				{
					Variant v = {l, (tty & 1) != 0, (tty & 2) != 0, k};
					variants.push_back(v);
					if (!l || !strcmp(l, "err") || ((tty == 0 || tty == 3) && (k == K_OK || k == K_BOTH)))
						some_v.push_back(v);
				}
		for (const char *l : {"debug", "err", "warn", ""})
			for (auto &v : std::vector<Variant>{{l, false, false, K_OK}, {l, true, true, K_OK}, {l, true, false, K_BOTH}, {l, false, true, K_LATE}})
				few.push_back(v);
		few.push_back({nullptr, true, true, K_OK});
		one_v.push_back(few.back());
		one_v.push_back({"err", true, false, K_OK});
		std::vector<std::vector<int>> lists = {{S_H}, {S_T, S_H}, {S_LALL, S_H}, {S_LX, S_H}, {S_TA, S_HE}, {S_L1, S_HE}, {S_LBAD, S_H}, {S_H, S_H}, {S_LBAD1, S_T, S_HE, S_H}};
		for (auto &l : lists)
			for (const char *q : SEQ)
				for (int tg = 0; tg < Chains::T_N; tg++)
					for (const char *p : {"csn", "casync"}) {
						if (*p == 'c' && p[1] == 'a' && &l - &lists[0] > 1)
							continue;
						Job j;
						j.name = strf("%s of %s onto %s from", p, q, Chains::tname(tg));
						for (int k : l)
							j.name += std::string(" ") + sk_name(k);
						j.prog = P_CSN;
						j.entries = strlen(q);
						j.bound = thorough ? strlen(q) < 5 ? 2 : 1 : 1;
						j.run = [=](Exec &x, Script &sc, VF &res) { return extraction(x, sc, res, q, tg, l, p); };
						jobs.push_back(j);
					}
		add_bad();
		add_tools();
		// many entries
		for (int n : {30, 99, 100, 101, 300, 1000, 66000, 140000}) {
			Job j;
			j.name = strf("extraction of %d entries", n);
			j.prog = P_CSN;
			j.entries = (u64)n;
			std::string q;
			for (int i = 0; i < n; i++)
				q += n > 1000 ? 'B' : (char)('A' + i * i % 7);
			j.big = n > 1000;
			static std::deque<std::string> keep;
			keep.push_back(q);
			const char *s = keep.back().c_str();
			j.run = [=](Exec &x, Script &sc, VF &res) { return extraction(x, sc, res, s, n > 100000 || n % 2 ? Chains::T_EMPTY : n > 1000 ? Chains::T_DONE : Chains::T_PREFIX, n == 30 ? std::vector<int>{S_H, S_H} : std::vector<int>{S_T, S_H}, "csn"); };
			j.bound = n == 30;
			jobs.push_back(j);
		}
		for (size_t i = 0; i < jobs.size(); i++) {
			bool some = ((jobs[i].prog == P_CSN && jobs[i].bound) || jobs[i].slow) && !thorough;
			for (auto &v : jobs[i].big ? one_v : jobs[i].slow && !thorough ? some_v : variants) {
				if (jobs[i].data_out && v.sink != K_OK && v.sink != K_ERR)
					continue;
				scens.push_back({i, v, some ? 0 : jobs[i].bound});
			}
			if (some && (!jobs[i].slow || jobs[i].entries == M + 1))
				for (auto &v : few)
					scens.push_back({i, v, jobs[i].bound});
		}
		if (thorough)
			the_property->timeout_s = 800;
		return (u64)scens.size() + (thorough || getenv("MC_HUGE") ? 1 : 0);
	},
	.run = run,
	.bound = [](const Tier &, u64 n) { return n < scens.size() ? scens[n].bound : 0; },
	.describe = [](u64 n) { return n == scens.size() ? std::string("43 million entries") : jobs[scens[n].job].name + "; " + vname(scens[n].v); },
	.space = "10 log levels x 4 combinations of terminals x 6 ways in which output succeeds or fails, each for 5 indices x 8 targets x 9 store lists, 70 command lines and indices that can't be used, "
	         "patchdd and csn-tool; choices: answers to every HTTP request, failing, interrupted and short reads, writes and flushes; every run is compared with the one that logs nothing special",
	.bounds = "deviations per run: 0-1 (quick), 0-2 (thorough)",
	.conformance = false,
};
static RegisterProperty reg(&prop);
