// Command lines: casync and csn mean the same, anything not understood is refused untouched.
#include "chains.h"

typedef std::vector<std::string> A;
struct Case { std::string name; int bound; std::function<void(Exec &)> f; };
static std::vector<Case> cases;
static Chains *proto;
static bool thorough;

static std::string show(const A &v)
{
	std::string s;
	for (auto &a : v)
		s += " '" + (a.size() > 60 ? a.substr(0, 60) + "..." : a) + "'";
	return s;
}

struct Outcome {
	Result r;
	Bytes target;
	std::vector<std::string> trace;  // requests, everything done with the target and the local stores
	std::vector<std::string> coarse; // requests and writes
};
static Outcome take(World &w)
{
	Outcome o;
	o.r = w.res;
	o.target = w.target->content();
	for (auto &e : w.x.ev) {
		bool wr = e.op == Op::Write || e.op == Op::Pwrite, rd = e.op == Op::Read || e.op == Op::Pread;
		if (e.op == Op::Http) {
			o.trace.push_back("GET");
			o.coarse.push_back("GET");
		} else if ((wr || rd || e.op == Op::Fsync) && e.f)
			o.trace.push_back(strf("%s %s %llu %llu %lld", op_name(e.op), e.f->path.c_str(), (unsigned long long)e.off, (unsigned long long)e.len, (long long)e.ret));
		if (wr && e.f)
			o.coarse.push_back(o.trace.back());
	}
	for (auto &g : w.gets) {
		o.trace.push_back(g.url);
		o.coarse.push_back(g.url);
	}
	return o;
}

// the same world twice
struct Setup {
	std::vector<int> seq;
	int t;
	std::vector<int> kinds;
};
static void build(World &w, const Setup &s)
{
	Chains c = *proto;
	c.index(w, s.seq);
	c.target(w, s.t);
	int n = 0;
	for (int k : s.kinds)
		c.add(w, k, n++);
}

// forms of one store option
static const int NFORM = 10;
static void put(A &a, int form, const std::string &s)
{
	switch (form) {
	case 0: a.insert(a.end(), {"--store", s}); break;
	case 1: a.push_back("--store=" + s); break;
	case 2: a.insert(a.end(), {"--seed", s}); break;
	case 3: a.push_back("--seed=" + s); break;
	case 4: a.insert(a.end(), {"--sto", s}); break;
	case 5: a.push_back("--st=" + s); break;
	case 6: a.insert(a.end(), {"--seed-output", "no", "--store", s}); break;
	case 7: a.insert(a.end(), {"--store", s, "--seed-output=/nope/x"}); break;
	case 8: a.insert(a.end(), {"--seed-o=extract", "--seed=" + s}); break;
	case 9: a.insert(a.end(), {"--seed", s, "--seed-output", "t"}); break;
	}
}

static const std::vector<int> MENU = {A_HIT, A_404, A_WRONG, A_FATAL, A_TIMEOUT, A_500};

static A command(const World &w, const std::string &prog, const std::vector<int> &forms, int where)
{
	// where: 0 options first, 1 behind "extract", 2 behind the index, 3 last, 4 spread
	A a = {prog};
	auto opts = [&](size_t from, size_t to) {
		for (size_t i = from; i < to && i < w.stores.size(); i++)
			put(a, forms[i % forms.size()], w.stores[i]);
	};
	size_t n = w.stores.size();
	if (where == 0)
		opts(0, n);
	if (where == 4)
		opts(0, 1);
	a.push_back("extract");
	if (where == 1)
		opts(0, n);
	if (where == 4)
		opts(1, 2);
	a.push_back(w.index_path);
	if (where == 2)
		opts(0, n);
	if (where == 4)
		opts(2, 3);
	a.push_back(w.target_path);
	if (where == 3)
		opts(0, n);
	if (where == 4)
		opts(3, n);
	return a;
}

static void equivalent(Exec &x, const Setup &s, const std::vector<int> &forms, int where, const std::string &prog)
{
	std::map<std::pair<int, std::pair<Id, int>>, int> answers;
	World w(x);
	build(w, s);
	w.policy = [&](int st, const Id &id, int nth) {
		int a = MENU[(size_t)x.choose((int)MENU.size(), 1)];
		answers[{st, {id, nth}}] = a;
		return a;
	};
	A args = command(w, prog, forms, where);
	w.run_args(args);
	Outcome o = take(w);
	x.outcome(o.r.str());

	// the same as csn, in a world of its own
	Exec y;
	y.scenario = x.scenario;
	World v(y);
	build(v, s);
	bool other = false;
	v.policy = [&](int st, const Id &id, int nth) {
		auto it = answers.find({st, {id, nth}});
		if (it == answers.end()) {
			other = true;
			return (int)A_404;
		}
		return it->second;
	};
	v.run();
	Outcome b = take(v);
	if (o.r.end != End::Exit || b.r.end != End::Exit)
		x.fail("casync: %s, csn: %s", o.r.str().c_str(), b.r.str().c_str());
	else if (o.r.code != b.r.code)
		x.fail("casync: %s, csn: %s (%s)", o.r.str().c_str(), b.r.str().c_str(), show(args).c_str());
	else if (o.target != b.target)
		x.fail("casync and csn leave different targets (%s)", show(args).c_str());
	else if (other || (o.r.ok() ? o.trace != b.trace : o.coarse != b.coarse))
		x.fail("casync and csn make different requests, reads or writes (%s)", show(args).c_str());
}

// the meaning of a casync command line, by the manual and getopt_long(3)
struct Parsed {
	enum K { FAIL, HELP, RUN, UNSURE } k = FAIL;
	A stores;
	std::string index, target;
};
static Parsed parse(const A &a)
{
	Parsed p;
	A pos;
	static const char *L[] = {"help", "store", "seed", "seed-output"};
	bool rest = false;
	for (size_t i = 1; i < a.size(); i++) {
		const std::string &s = a[i];
		if (rest || s.size() < 2 || s[0] != '-') {
			pos.push_back(s);
			continue;
		}
		if (s == "--") {
			rest = true;
			continue;
		}
		if (s[1] != '-') {
			p.k = s[1] == 'h' ? Parsed::HELP : Parsed::FAIL;
			return p;
		}
		size_t eq = s.find('=');
		std::string name = s.substr(2, eq == std::string::npos ? std::string::npos : eq - 2);
		int hit = -1, hits = 0;
		for (int k = 0; k < 4; k++) {
			if (name == L[k]) {
				hit = k;
				hits = 1;
				break;
			}
			if (std::string(L[k]).compare(0, name.size(), name) == 0) {
				hit = k;
				hits++;
			}
		}
		if (hits != 1)
			return p;
		if (hit == 0) {
			p.k = eq == std::string::npos ? Parsed::HELP : Parsed::FAIL;
			return p;
		}
		std::string val;
		if (eq != std::string::npos)
			val = s.substr(eq + 1);
		else if (i + 1 < a.size())
			val = a[++i];
		else
			return p;
		if (hit != 3)
			p.stores.push_back(val);
	}
	if (pos.size() < 3 || pos[0] != "extract")
		return p;
	if (pos.size() > 3) {
		p.k = Parsed::UNSURE;
		return p;
	}
	p.k = Parsed::RUN;
	p.index = pos[1];
	p.target = pos[2];
	return p;
}

static void words_world(World &w)
{
	Chains c = *proto;
	c.index(w, {0, 1});
	c.target(w, Chains::T_PREFIX);
	w.http("http://h/s");
	w.stores.clear();
	w.local("l", cat({(*proto).a[1], (*proto).a[0]}));
	w.local("e", {});
	w.policy = [](int, const Id &, int) { return (int)A_HIT; };
}
static std::string untouched(World &w, const std::set<std::string> &names, const std::map<std::string, u64> &vers)
{
	for (auto &e : w.x.ev) {
		if ((e.op == Op::Write || e.op == Op::Pwrite || e.op == Op::Ftruncate) && e.f && e.ret >= 0)
			return strf("%s was written to", e.f->path.c_str());
		if (e.op == Op::Http)
			return "a request was made";
	}
	if (w.x.env.fs.size() != names.size())
		return "a file appeared or disappeared";
	for (auto &f : w.x.env.fs)
		if (!names.count(f.first) || vers.at(f.first) != f.second->ver)
			return "file " + f.first + " changed";
	return "";
}
static void snapshot(Exec &x, std::set<std::string> &names, std::map<std::string, u64> &vers)
{
	for (auto &f : x.env.fs) {
		names.insert(f.first);
		vers[f.first] = f.second->ver;
	}
}

static void line(Exec &x, const A &args)
{
	World w(x);
	words_world(w);
	std::set<std::string> names;
	std::map<std::string, u64> vers;
	snapshot(x, names, vers);
	Parsed p = parse(args);
	w.run_args(args);
	Outcome o = take(w);
	x.outcome(o.r.str());
	if (o.r.end != End::Exit) {
		x.fail("%s", o.r.str().c_str());
		return;
	}
	if (p.k == Parsed::UNSURE) {
		for (auto &f : x.env.fs)
			if (!names.count(f.first))
				x.fail("file %s was created", f.first.c_str());
		return;
	}
	if (p.k != Parsed::RUN) {
		if (p.k == Parsed::FAIL && o.r.ok())
			x.fail("exit 0");
		std::string e = untouched(w, names, vers);
		if (!e.empty())
			x.fail("%s", e.c_str());
		return;
	}
	Exec y;
	y.scenario = x.scenario;
	World v(y);
	words_world(v);
	A b = {"csn", p.index, p.target};
	for (auto &s : p.stores)
		b.push_back(s);
	if (p.stores.empty())
		b.push_back("e");
	v.run_args(b);
	Outcome q = take(v);
	bool same = o.r.code == q.r.code && o.target == q.target && (p.stores.empty() || !o.r.ok() ? o.coarse == q.coarse : o.trace == q.trace);
	if (!same)
		x.fail("%s, but%s: %s%s", o.r.str().c_str(), show(b).c_str(), q.r.str().c_str(), o.r.code == q.r.code ? ", with other effects" : "");
	if (x.env.fs.size() != names.size())
		x.fail("a file appeared or disappeared");
}

static void refused(Exec &x, const A &args, bool may_read = true, std::function<void(World &)> prep = nullptr)
{
	World w(x);
	words_world(w);
	if (prep)
		prep(w);
	std::set<std::string> names;
	std::map<std::string, u64> vers;
	snapshot(x, names, vers);
	(void)may_read;
	w.run_args(args);
	x.outcome(w.res.str());
	if (!w.res.failed())
		x.fail("%s", w.res.str().c_str());
	std::string e = untouched(w, names, vers);
	if (!e.empty())
		x.fail("%s", e.c_str());
}

static void words(const A &al, int n, std::function<void(const A &)> f)
{
	std::vector<size_t> d;
	for (int len = 0; len <= n; len++) {
		d.assign((size_t)len, 0);
		for (;;) {
			A v;
			for (size_t i : d)
				v.push_back(al[i]);
			f(v);
			size_t i = 0;
			while (i < d.size() && ++d[i] == al.size())
				d[i++] = 0;
			if (i == d.size())
				break;
		}
	}
}

static u64 prepare(const Tier &t)
{
	thorough = t.thorough;
	proto = new Chains();
	auto add = [](const std::string &n, int bound, std::function<void(Exec &)> f) { cases.push_back({n, bound, f}); };

	// --- equivalence: lists of stores, spellings and positions
	static const int K[] = {S_H, S_T, S_L1, S_LX, S_LALL, S_TA, S_HE};
	std::vector<std::vector<int>> lists;
	for (int a : K) {
		lists.push_back({a});
		for (int b : K) {
			lists.push_back({a, b});
			for (int c : K)
				if (thorough || (a == S_H) + (b == S_H) + (c == S_H) == 1)
					lists.push_back({a, b, c});
		}
	}
	lists.push_back({S_L1, S_L1, S_LX, S_LREST, S_T, S_H, S_H, S_HE});
	lists.push_back({S_LX, S_L1, S_T, S_T, S_H, S_LALL, S_TA, S_H, S_HE, S_LREST, S_L0, S_LTINY});
	lists.push_back(std::vector<int>(9, S_L1));
	lists.back().push_back(S_H);
	static const char *SEQ[] = {"", "A", "AB", "ABAHB", "ABCDEFG"};
	int rot = 0;
	for (auto &l : lists)
		for (int q = 0; q < 5; q++)
			for (int ti : {Chains::T_EMPTY, Chains::T_PREFIX, Chains::T_DONE, Chains::T_HOLE, Chains::T_BLK})
				for (int where = 0; where < 5; where++) {
					if (l.size() > 2 && !thorough && (where + q + ti + rot) % 3)
						continue;
					rot++;
					Setup s{digits(SEQ[q]), ti, l};
					std::vector<std::vector<int>> F;
					if (l.size() == 1 || (l.size() == 2 && q == 2 && thorough))
						for (int f = 0; f < NFORM; f++)
							for (int g = 0; g < (l.size() == 1 ? 1 : NFORM); g++)
								F.push_back({f, g});
					else
						F = {{rot % NFORM, (rot / 3) % NFORM, (rot + 5) % NFORM, (rot / 7) % NFORM}, {0, 2}, {1, 3, 5}};
					for (auto &f : F)
						add(strf("stores=%zu index=%s target=%s options %d", l.size(), SEQ[q], Chains::tname(ti), where), q >= 2 && q <= 3 && l.size() <= 2 && F.size() < 5 ? (thorough ? 2 : 1) : thorough ? 1 : 0,
							[=](Exec &x) { equivalent(x, s, f, where, where % 2 ? "casync" : "/usr/bin/casync"); });
				}

	// --- very many options
	for (size_t n : {17u, 40u, 150u})
		for (int kind = 0; kind < 3; kind++)
			for (int where = 0; where < 5; where++)
				for (int ti : {Chains::T_EMPTY, Chains::T_HOLE})
					for (int f = 0; f < NFORM; f++) {
						if (n == 150 && !thorough && (f + where) % 5)
							continue;
						std::vector<int> l;
						for (size_t i = 0; i + 1 < n; i++)
							l.push_back(kind == 0 ? S_L1 : kind == 1 ? (i % 3 ? S_LTINY : S_T) : i % 7 == 6 ? S_LX : S_L0);
						l.push_back(S_H);
						add(strf("%zu stores (%d), target=%s options %d, form %d", n, kind, Chains::tname(ti), where, f), 0,
						    [=](Exec &x) { equivalent(x, {digits("ABCD"), ti, l}, {f, f, (f + 3) % NFORM}, where, "casync"); });
					}

	// --- all short command lines, compared with what they mean
	A al = {"extract", "i.caibx", "t", "--store=http://h/s", "--seed", "l", "--seed-output", "--store", "http://h/s", "--help", "-h", "--bogus", "--", "-x", "nope", "--se=l", "--sto=l", "-", "--seed-output=no", "x", "", "--help=1", "--store=", "extrac"};
	words(al, thorough ? 4 : 3, [&](const A &v) {
		A a = v;
		a.insert(a.begin(), "casync");
		add("casync" + show(v), 0, [a](Exec &x) { line(x, a); });
	});
	// --- additions to a complete one, at any place
	A ins = al;
	for (auto s : {"--store=nope", "--seed=l", "--stor=http://h/s", "--seed=t", "--seed=./t", "--seed=l:i.caibx", "--store=http://h/s#bogus=1", "--store=http://h/s#encrypt=key:00", "-store=l", "-hh", "-xh", "--h", "--store=d", "---store=l", "--STORE=l", "--seedoutput=no"})
		ins.push_back(s);
	std::vector<A> bases = {{"extract", "i.caibx", "t"}, {"--store", "http://h/s", "extract", "i.caibx", "t"}, {"extract", "--seed=l", "i.caibx", "--store=http://h/s", "t"},
		{"--seed", "l", "--seed-output", "no", "extract", "i.caibx", "t"}, {"extract", "--store", "http://h/s", "--seed=e", "--seed=l", "i.caibx", "t"}};
	for (auto &b : bases)
		for (size_t i = 0; i <= b.size(); i++)
			for (auto &s : ins)
				for (int del = 0; del < 3; del++) {
					A a = b;
					if (del && i >= b.size())
						continue;
					if (del == 1)
						a[i] = s;
					else if (del == 2) {
						if (&s != &ins[0])
							continue;
						a.erase(a.begin() + (long)i);
					} else
						a.insert(a.begin() + (long)i, s);
					a.insert(a.begin(), "casync");
					add(show(a), 0, [a](Exec &x) { line(x, a); });
					if (!thorough && !(b.size() == 5 && b[0] == "extract"))
						continue;
					for (size_t j = 0; j <= b.size() && !del; j++)
						for (auto &s2 : ins) {
							A c = a;
							c.insert(c.begin() + 1 + (long)j, s2);
							add(show(c), 0, [c](Exec &x) { line(x, c); });
						}
				}

	// --- csn
	for (auto &v : std::vector<A>{{"csn"}, {"csn", "i.caibx"}, {"csn", "i.caibx", "t"}, {"csn", "--help"}, {"csn", "-h"}, {"csn", "-h", "t", "l"}, {"csn", "nope", "t", "l"}, {"csn", "i.caibx", "nope", "l"}, {"csn", "i.caibx", "t", "nope"},
		     {"csn", "i.caibx", "t", "l", "nope"}, {"csn", "i.caibx", "t", "nope", "l"}, {"csn", "i.caibx", "t", "d"}, {"csn", "d", "t", "l"}, {"csn", "i.caibx", "d", "l"}, {"csn", "i.caibx", "nope/t", "l"}, {"csn", "i.caibx", "", "l"},
		     {"csn", "", "t", "l"}, {"csn", "i.caibx", "t", ""}, {"csn", "i.caibx", "t", "http://h/s#bogus=1"}, {"csn", "i.caibx", "t", "http://h/s", "http://h/s#encrypt=key:00"}, {"csn", "i.caibx", "t", "http://h/s#encrypt=env:NOPE", "l"},
		     {"csn", "i.caibx", "t", "l", "http://h/s#encrypt=file:nope"}, {"csn", "l", "t", "l"}, {"csn", "t", "t", "l"}, {"csn", "extract", "i.caibx", "t"}, {"csn", "i.caibx", "nope", "nope"}})
		add("refused:" + show(v), 0, [v](Exec &x) { refused(x, v, true, [](World &w) { w.x.env.add("d", {})->dir = true; }); });
	// --- the same as casync
	for (auto &v : std::vector<A>{{"nope", "t", "l"}, {"i.caibx", "nope", "l"}, {"i.caibx", "t", "nope"}, {"i.caibx", "t", "l", "nope"}, {"i.caibx", "t", "nope", "l"}, {"i.caibx", "t", "d"}, {"d", "t", "l"}, {"i.caibx", "d", "l"},
		     {"i.caibx", "nope/t", "l"}, {"i.caibx", "", "l"}, {"", "t", "l"}, {"i.caibx", "t", ""}, {"i.caibx", "t", "http://h/s#bogus=1"}, {"i.caibx", "t", "http://h/s", "http://h/s#encrypt=key:00"},
		     {"i.caibx", "t", "l", "http://h/s#encrypt=file:nope"}, {"l", "t", "l"}, {"t", "t", "l"}, {"nope", "t"}, {"i.caibx", "nope"}, {"i.caibx", "d"}})
		for (int where = 0; where < 4; where++) {
			A a = {"casync"};
			auto opts = [&]() {
				for (size_t i = 2; i < v.size(); i++) {
					a.push_back(i % 2 ? "--seed" : "--store");
					a.push_back(v[i]);
				}
			};
			if (where == 0)
				opts();
			a.push_back("extract");
			if (where == 1)
				opts();
			a.push_back(v[0]);
			if (where == 2)
				opts();
			a.push_back(v[1]);
			if (where == 3)
				opts();
			add("refused:" + show(a), 0, [a](Exec &x) { refused(x, a, true, [](World &w) { w.x.env.add("d", {})->dir = true; }); });
		}
	// --- unknown names
	for (std::string n : {"", "casyn", "casync2", "csn2", "cs", "CSN", "Casync", "csn ", "/", "/csn/x", "casync.bin", "csn-tool", "sh", "x/y", ".", "..", "-csn", "casync-nano"})
		for (const A &r : {A{"i.caibx", "t", "l"}, A{"--seed=l", "extract", "i.caibx", "t"}, A{}}) {
			A a = r;
			a.insert(a.begin(), n);
			add("unknown name:" + show(a), 0, [a](Exec &x) { refused(x, a); });
		}
	for (std::string n : {"csn", "./csn", "/usr/bin/csn", "a/b/../csn", "casync/csn"})
		add("name: " + n, 0, [n](Exec &x) {
			World w(x);
			words_world(w);
			w.run_args({n, "i.caibx", "t", "l"});
			std::string e = w.check_image();
			if (!w.res.ok() || !e.empty())
				x.fail("%s %s", w.res.str().c_str(), e.c_str());
		});
	for (std::string n : {"casync", "./casync", "/usr/bin/casync", "a/b/../casync", "csn/casync"})
		add("name: " + n, 0, [n](Exec &x) {
			World w(x);
			words_world(w);
			w.run_args({n, "--seed=l", "extract", "i.caibx", "t"});
			std::string e = w.check_image();
			if (!w.res.ok() || !e.empty())
				x.fail("%s %s", w.res.str().c_str(), e.c_str());
		});
	// --- a target that can't be opened for writing, an index that can't be read
	for (int prog = 0; prog < 2; prog++)
		for (int what = 0; what < 3; what++)
			for (int e : {EACCES, EROFS, EBUSY, ENXIO, EMFILE})
				add(strf("%s: opening the %s fails with errno %d", prog ? "casync" : "csn", what == 0 ? "target" : what == 1 ? "index" : "store", e), 0, [=](Exec &x) {
					refused(x, prog ? A{"casync", "extract", "--store=http://h/s", "--seed=l", "i.caibx", "t"} : A{"csn", "i.caibx", "t", "http://h/s", "l"}, true, [=](World &w) {
						w.x.env.io = [=](const IoReq &r) -> IoAns {
							IoAns a;
							if (r.op == Op::Open && std::string(r.path) == (what == 0 ? "t" : what == 1 ? "i.caibx" : "l")) {
								a.k = IoAns::Err;
								a.err = e;
							}
							return a;
						};
					});
				});
	return cases.size();
}

static Property prop = {
	.id = "C19",
	.prepare = prepare,
	.run = [](Exec &x) { cases[x.scenario].f(x); },
	.bound = [](const Tier &, u64 n) { return cases[n].bound; },
	.describe = [](u64 n) { return cases[n].name; },
	.assumptions = {"extra positional arguments of casync are accepted or refused", "an explicit request for help may end with any exit status"},
	.space = "store lists up to length 3 (and 8-12) over 7 kinds x 5 indices x 5 targets x 5 positions and 10 spellings of the options, each compared with csn; all casync command "
	         "lines up to 3-4 words over an alphabet of 24 and all insertions, replacements and omissions in complete ones, judged by a reference parser and compared with csn; "
	         "unusable indices, targets, stores, names; choices: the answers of the server",
	.bounds = "deviations from ideal answers: 0-1 (quick), 1-2 (thorough)",
};
static RegisterProperty reg(&prop);
