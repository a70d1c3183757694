#include "chains.h"

static Alpha *al;
static bool thorough;

// what the side-loaded index file contains
struct Side {
	std::string name;
	bool exists = true, dir = false;
	Bytes b;
	std::string file = "l.ix";
};
static std::vector<Side> sides;
// what the store contains
struct Content {
	std::string name;
	Bytes b;
};
static std::vector<Content> contents;
// h: the first bytes of chunk A, r: its other bytes
static const char *SEQ[] = {"ABC", "CBA", "BABH", "GDA", "FFEA", "ABCDEFGH", "AhB", "hr", "A", "D"};
enum { NSEQ = 10, HALF = 33 };
enum { CH_ALONE, CH_HTTP, CH_LOCAL, CH_MISSES, CH_N };
struct Scen { int side, content, seq, chain, fault; };
static std::vector<Scen> scens;

static const int ORDER[] = {1, 3, 0, 2, 4, 5, 6, 7};

static Bytes part(char c)
{
	const Bytes &a = (*al)[0];
	if (c == 'h')
		return Bytes(a.begin(), a.begin() + HALF);
	if (c == 'r')
		return Bytes(a.begin() + HALF, a.end());
	return (*al)[c - 'A'];
}
static Ix good_index()
{
	Ix s;
	s.p = SMALL;
	for (int i : ORDER)
		s.add((*al)[i].size(), sha256((*al)[i]));
	return s;
}
static Bytes good_content()
{
	Bytes b;
	for (int i : ORDER)
		b = cat({b, (*al)[i]});
	return b;
}

static void judge(Exec &x, World &w, Result res, const Bytes &L, VF l, VF sf, const Side &sd, const std::set<Id> &other, int http, bool faulty, bool complete);

// Large side-loaded indices
struct Big { int n, shape, content, order, chain; };
static std::vector<Big> bigs;
enum { B_RIGHT, B_REPEATS, B_RUNS, B_WRONG_MIDDLE, B_WRONG_LAST, B_UNKNOWN, B_LONG, B_SHIFTED_HALF, B_SHAPES };
static const char *BSHAPE[] = {"right", "right, chunks occur twice in a row", "right, one chunk 40 times in a row", "wrong id in the middle", "wrong id at the end", "an unknown chunk per ten", "an overlong entry in the middle", "wrong from the middle on"};
static const char *BCONTENT[] = {"as indexed", "last chunk damaged", "middle chunk damaged", "cut in the middle", "byte inserted in the middle"};
static const char *BORDER[] = {"in order", "reversed", "every seventh", "the last only"};

static void run_big(Exec &x)
{
	Big b = bigs[x.scenario - scens.size()];
	World w(x);
	w.ix.p = SMALL;
	static std::map<int, std::vector<Bytes>> pools;
	std::vector<Bytes> ch = pools[b.n];
	if (ch.empty()) {
		Bytes big = fill((u64)(b.n + 3) * 200, 78);
		u64 pos = 0;
		for (u64 e : ref_chunks(big, SMALL)) {
			if ((int)ch.size() < b.n && e != big.size())
				ch.push_back(Bytes(big.begin() + (long)pos, big.begin() + (long)e));
			pos = e;
		}
		pools[b.n] = ch;
	}
	if (b.shape == B_REPEATS)
		for (size_t i = 3; i + 1 < ch.size(); i += 5)
			ch[i + 1] = ch[i];
	if (b.shape == B_RUNS)
		for (size_t i = 10; i < 50 && i < ch.size(); i++)
			ch[i] = ch[10];
	size_t mid = ch.size() / 2;
	Ix si;
	si.p = SMALL;
	Bytes L;
	for (size_t i = 0; i < ch.size(); i++) {
		Id id = sha256(ch[i]);
		u64 len = ch[i].size();
		if ((b.shape == B_WRONG_MIDDLE && i == mid) || (b.shape == B_WRONG_LAST && i + 1 == ch.size()))
			id = sha256(ch[0]);
		if (b.shape == B_UNKNOWN && i % 10 == 4)
			id[7] ^= 0x10;
		if (b.shape == B_LONG && i == mid)
			len = 300000;
		if (b.shape == B_SHIFTED_HALF && i >= mid)
			len--;
		si.add(len, id);
		L.insert(L.end(), ch[i].begin(), ch[i].end());
	}
	switch (b.content) {
	case 1: L[L.size() - 9] ^= 1; break;
	case 2: L[(size_t)si.e[b.shape == B_LONG ? mid - 1 : mid].end - 20] ^= 1; break;
	case 3: L.resize(L.size() / 2); break;
	case 4: L.insert(L.begin() + (long)(L.size() / 2), 5); break;
	}
	std::set<Id> other;
	auto want = [&](size_t i) {
		w.entry(ch[i]);
		if (b.chain)
			other.insert(sha256(ch[i]));
	};
	switch (b.order) {
	case 0: for (size_t i = 0; i < ch.size(); i++) want(i); break;
	case 1: for (size_t i = ch.size(); i-- > 0;) want(i); break;
	case 2: for (size_t i = 0; i < ch.size(); i += 7) want(i); break;
	case 3: want(ch.size() - 1); break;
	}
	w.write_index();
	w.set_target({});
	VF l = w.local("l", L);
	Side sd;
	sd.b = si.bytes();
	VF sf = x.env.add(sd.file, sd.b);
	w.stores.push_back("l:" + sd.file);
	int http = -1;
	if (b.chain)
		http = w.http("http://h/s");
	w.policy = [&](int, const Id &id, int) { return other.count(id) ? A_HIT : A_404; };
	x.env.horizon = 1000 * (u64)b.n + 400000;
	Result res = w.run();
	x.outcome(res.str());
	if (res.end != End::Exit) {
		x.fail("%s", res.str().c_str());
		return;
	}
	if (res.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
	judge(x, w, res, L, l, sf, sd, other, http, false, b.chain);
}

static void run(Exec &x)
{
	if (x.scenario >= scens.size())
		return run_big(x);
	Scen s = scens[x.scenario];
	World w(x);
	w.ix.p = SMALL;
	for (const char *q = SEQ[s.seq]; *q; q++)
		w.entry(part(*q));
	w.write_index();
	w.set_target({});
	const Bytes &L = contents[(size_t)s.content].b;
	const Side &sd = sides[(size_t)s.side];
	VF l = w.local("l", L);
	VF sf;
	if (sd.exists) {
		sf = x.env.add(sd.file, sd.b);
		sf->dir = sd.dir;
	}
	w.stores.push_back("l:" + sd.file);
	std::set<Id> other;
	int http = -1;
	if (s.chain == CH_HTTP || s.chain == CH_MISSES) {
		http = w.http("http://h/s");
		if (s.chain == CH_HTTP)
			for (const char *q = "ABCDEFGHhr"; *q; q++)
				other.insert(sha256(part(*q)));
	} else if (s.chain == CH_LOCAL) {
		Bytes b;
		for (int i = 7; i >= 0; i--) {
			b = cat({b, (*al)[i]});
			other.insert(sha256((*al)[i]));
		}
		w.local("m", b);
		w.stores.push_back("m");
	}
	w.policy = [&](int, const Id &id, int) { return other.count(id) ? A_HIT : A_404; };
	bool faulty = false;
	if (s.fault)
		x.env.io = [&](const IoReq &r) {
			IoAns a;
			if (r.f == l.get() && (r.op == Op::Pread || r.op == Op::Read)) {
				int k = x.choose(3, 1);
				if (k) {
					faulty = true;
					a.k = k == 1 ? IoAns::Err : IoAns::Eof;
					a.err = 5;
				}
			}
			if (r.f == sf.get() && r.f && (r.op == Op::Pread || r.op == Op::Read) && x.choose(2, 1)) {
				faulty = true;
				a.k = IoAns::Err;
				a.err = 5;
			}
			return a;
		};
	Result res = w.run();
	x.env.io = nullptr;
	x.outcome(res.str());
	if (res.end != End::Exit) {
		x.fail("%s", res.str().c_str());
		return;
	}
	if (res.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
	judge(x, w, res, L, l, sf, sd, other, http, faulty, s.chain == CH_HTTP || s.chain == CH_LOCAL);
}

// the model
static void judge(Exec &x, World &w, Result res, const Bytes &L, VF l, VF sf, const Side &sd, const std::set<Id> &other, int http, bool faulty, bool complete)
{
	std::map<Id, Bytes> scan;
	u64 pos = 0;
	for (u64 e : ref_chunks(L, SMALL)) {
		scan[sha256(L.data() + pos, e - pos)] = Bytes(L.begin() + (long)pos, L.begin() + (long)e);
		pos = e;
	}
	Ix si;
	bool side = sd.exists && !sd.dir && ref_index(sd.b, &si) != IxVerdict::Bad && si.p.min == 64 && si.p.avg == 128 && si.p.max == 256;
	struct Place { u64 off, len; bool ok; };
	std::map<Id, std::vector<Place>> places;
	bool describes = side;
	if (side) {
		pos = 0;
		for (auto &e : si.e) {
			Place p = {pos, e.end - pos, false};
			p.ok = e.end <= L.size() && p.len <= 256 * 1024 && sha256(L.data() + pos, p.len) == e.id;
			describes &= p.ok;
			places[e.id].push_back(p);
			pos = e.end;
		}
	}
	if (faulty) {
		// what becomes of it depends on where the fault hits; but with another complete store nothing may fail,
		// unless the store can't even be opened
		bool started = false;
		for (auto &e : x.ev)
			if (e.op == Op::Http || ((e.op == Op::Pread || e.op == Op::Read || e.op == Op::Pwrite) && e.f == w.target.get()))
				started = true;
		if (side && complete && !res.ok()) {
			// a damaged side-loaded index makes the program scan at once, in which case a second error counts
			bool sideerr = false;
			for (auto &e : x.ev)
				if (e.f == sf.get() && (e.op == Op::Read || e.op == Op::Pread) && e.ret < 0)
					sideerr = true;
			if (!sideerr || started)
				x.fail("%s after a read error, although another store has all chunks", res.str().c_str());
		}
		return;
	}
	bool rescanned = !side, unsure = false;
	size_t gi = 0;
	bool success = true;
	std::set<Id> asked;
	Id last{};
	for (size_t i = 0; i < w.ix.e.size() && !unsure; i++) {
		Id id = w.ix.e[i].id;
		if (i && id == last)
			continue;
		last = id;
		asked.insert(id);
		bool got = false;
		if (!rescanned && places.count(id)) {
			auto &pl = places[id];
			size_t good = 0;
			for (auto &p : pl)
				good += p.ok;
			if (good && good < pl.size())
				unsure = true;
			else if (good)
				got = true;
			else
				rescanned = true;
		}
		if (rescanned)
			got = scan.count(id) > 0;
		if (unsure)
			break;
		if (got)
			continue;
		if (http >= 0) {
			if (gi >= w.gets.size() || w.gets[gi].id != id) {
				x.fail("entry %zu should come from the HTTP store", i);
				return;
			}
			gi++;
		}
		if (!other.count(id)) {
			success = false;
			break;
		}
	}
	if (unsure) {
		bool all = true;
		for (auto &e : w.ix.e)
			all &= other.count(e.id) > 0;
		if (all && !res.ok())
			x.fail("%s, although another store has all chunks", res.str().c_str());
		return;
	}
	if (gi < w.gets.size()) {
		x.fail("request %s, although the local store serves this chunk", w.gets[gi].url.c_str());
		return;
	}
	if (res.ok() != success)
		x.fail("%s, expected %s", res.str().c_str(), success ? "success" : "failure");
	if (side && describes) {
		// only what was asked for is read
		std::map<u64, u64> allowed;
		for (auto &a : asked)
			if (places.count(a))
				for (auto &p : places[a])
					allowed[p.off] = std::max(allowed[p.off], p.off + p.len);
		for (auto &e : x.ev) {
			if (e.f != l.get() || e.ret <= 0 || (e.op != Op::Pread && e.op != Op::Read))
				continue;
			bool in = false;
			auto near = allowed.upper_bound(e.off);
			if (near != allowed.begin())
				in = e.off + (u64)e.ret <= (--near)->second;
			if (!in) {
				x.fail("bytes %llu-%llu of the store were read, although the index describes the store", (unsigned long long)e.off,
				       (unsigned long long)(e.off + (u64)e.ret));
				return;
			}
		}
	}
}

static u64 prepare(const Tier &t)
{
	thorough = t.thorough;
	al = new Alpha();
	Ix g = good_index();
	Bytes gb = g.bytes();
	auto add = [&](const std::string &n, const Bytes &b) {
		Side s;
		s.name = n;
		s.b = b;
		sides.push_back(s);
	};
	auto addx = [&](const std::string &n, std::function<void(Ix &)> f) {
		Ix i = g;
		f(i);
		add(n, i.bytes());
	};
	add("right", gb);
	{
		Side s;
		s.name = "missing";
		s.exists = false;
		sides.push_back(s);
		s.name = "directory";
		s.exists = s.dir = true;
		sides.push_back(s);
	}
	{
		Side s;
		s.name = "missing (no name)";
		s.exists = false;
		s.file = "";
		sides.push_back(s);
	}
	addx("no entries", [](Ix &i) { i.e.clear(); });
	addx("other min", [](Ix &i) { i.p.min = 65; });
	addx("other avg", [](Ix &i) { i.p.avg = 129; });
	addx("other max", [](Ix &i) { i.p.max = 255; });
	addx("default params", [](Ix &i) { i.p = DEFAULT_PARAMS; });
	addx("params in wrong order", [](Ix &i) { std::swap(i.p.min, i.p.max); });
	// finer than the chunker cuts: right chunks, but none a scan would find
	auto finer = [&](Ix &i) {
		for (size_t k = 0; k < i.e.size(); k++)
			if (i.e[k].id == sha256((*al)[0])) {
				IxEntry e = i.e[k];
				i.e[k].id = sha256(part('r'));
				e.end = (k ? i.e[k - 1].end : 0) + HALF;
				e.id = sha256(part('h'));
				i.e.insert(i.e.begin() + (long)k, e);
				return;
			}
	};
	addx("finer", finer);
	addx("finer, other min", [&](Ix &i) { finer(i); i.p.min = 63; });
	addx("finer, other avg", [&](Ix &i) { finer(i); i.p.avg = 127; });
	addx("finer, other max", [&](Ix &i) { finer(i); i.p.max = 257; });
	addx("finer, default params", [&](Ix &i) { finer(i); i.p = DEFAULT_PARAMS; });
	for (const char *f : {"l:ix", ":l.ix", "l.ix:", "a:b:c", "t:l"}) {
		Side sd;
		sd.name = strf("right, called %s", f);
		sd.b = gb;
		sd.file = f;
		sides.push_back(sd);
		Ix i = g;
		finer(i);
		sd.name = strf("finer, called %s", f);
		sd.b = i.bytes();
		sides.push_back(sd);
	}
	addx("reversed ids", [](Ix &i) {
		for (size_t a = 0, b = i.e.size() - 1; a < b; a++, b--)
			std::swap(i.e[a].id, i.e[b].id);
	});
	addx("shifted by one", [](Ix &i) {
		for (auto &e : i.e)
			e.end++;
	});
	addx("shifted beyond the end", [&](Ix &i) {
		for (auto &e : i.e)
			e.end += good_content().size();
	});
	addx("shifted by 4 GiB", [&](Ix &i) {
		u64 k = 1;
		for (auto &e : i.e)
			e.end += 0xf0000000ull * k++;
	});
	for (size_t k = 0; k < g.e.size(); k++) {
		auto nm = [&](const char *s) { return strf("%s@%zu", s, k); };
		addx(nm("swap"), [&](Ix &i) { std::swap(i.e[k].id, i.e[(k + 1) % i.e.size()].id); });
		addx(nm("unknown id"), [&](Ix &i) { i.e[k].id[31] ^= 1; });
		addx(nm("end+1"), [&](Ix &i) { i.e[k].end++; });
		addx(nm("end-1"), [&](Ix &i) { i.e[k].end--; });
		addx(nm("omitted"), [&](Ix &i) { i.e.erase(i.e.begin() + (long)k); });
		addx(nm("table cut"), [&](Ix &i) { i.e.resize(k); });
		addx(nm("repeated id"), [&](Ix &i) { i.e[(k + 3) % i.e.size()].id = i.e[k].id; });
		addx(nm("empty entry"), [&](Ix &i) { i.e.insert(i.e.begin() + (long)k, i.e[k]); });
		addx(nm("split"), [&](Ix &i) {
			IxEntry e = i.e[k];
			e.end = (k ? i.e[k - 1].end : 0) + 70;
			e.id.fill(0x42);
			i.e.insert(i.e.begin() + (long)k, e);
		});
		addx(nm("too long"), [&](Ix &i) {
			for (size_t j = k; j < i.e.size(); j++)
				i.e[j].end += 300000;
		});
		addx(nm("too long to represent"), [&](Ix &i) {
			for (size_t j = k; j < i.e.size(); j++)
				i.e[j].end += 0x100000000ull;
		});
		addx(nm("end zero"), [&](Ix &i) { i.e[k].end = 0; });
		addx(nm("end huge"), [&](Ix &i) { i.e[k].end = ~0ull; });
		addx(nm("end 2^63"), [&](Ix &i) { i.e[k].end = 1ull << 63; });
	}
	size_t nstruct = sides.size();
	// every truncation, every field, every byte
	for (size_t n = 0; n < gb.size(); n++)
		add(strf("truncated to %zu", n), Bytes(gb.begin(), gb.begin() + (long)n));
	for (size_t n : {1u, 39u, 40u, 41u, 80u})
		add(strf("extended by %zu", n), cat({gb, rep(n, 0)}));
	for (size_t o = 0; o + 8 <= gb.size(); o += 8)
		for (u64 v : {0ull, 1ull, ~0ull, 1ull << 63, 0x100000000ull}) {
			Bytes b = gb;
			for (int i = 0; i < 8; i++)
				b[o + (size_t)i] = (u8)(v >> (8 * i));
			add(strf("u64 at %zu is %llx", o, (unsigned long long)v), b);
		}
	for (size_t o = 0; o < gb.size(); o++)
		for (u8 v : {0x01, 0x80}) {
			Bytes b = gb;
			b[o] ^= v;
			add(strf("byte %zu ^ %02x", o, v), b);
		}

	Bytes gc = good_content();
	contents.push_back({"as indexed", gc});
	contents.push_back({"empty", {}});
	contents.push_back({"tiny", fill(20, 3)});
	contents.push_back({"one byte in front", cat({rep(1, 9), gc})});
	contents.push_back({"first byte gone", Bytes(gc.begin() + 1, gc.end())});
	contents.push_back({"longer", cat({gc, fill(500, 7)})});
	contents.push_back({"last byte gone", Bytes(gc.begin(), gc.end() - 1)});
	contents.push_back({"first half", Bytes(gc.begin(), gc.begin() + (long)(gc.size() / 2))});
	{
		Bytes b;
		for (int i = 7; i >= 0; i--)
			b = cat({b, (*al)[ORDER[i]]});
		contents.push_back({"other order", b});
	}
	for (int k = 0; k < 8; k++) {
		contents.push_back({strf("only chunk %d", k), (*al)[k]});
		contents.push_back({strf("chunks %d and %d", k, (k + 3) % 8), cat({(*al)[k], (*al)[(k + 3) % 8]})});
	}
	u64 pos = 0;
	for (int k = 0; k < 8; k++) {
		Bytes b = gc;
		b[pos + 20] ^= 4;
		contents.push_back({strf("damaged in chunk %d", k), b});
		b = gc;
		b.insert(b.begin() + (long)pos + 3, 0x33);
		contents.push_back({strf("byte inserted in chunk %d", k), b});
		pos += (*al)[ORDER[k]].size();
	}
	for (int sd = 0; sd < (int)sides.size(); sd++)
		for (int c = 0; c < (int)contents.size(); c++)
			for (int q = 0; q < NSEQ; q++)
				for (int ch = 0; ch < CH_N; ch++) {
					bool st = sd < (int)nstruct;
					// byte level mutations with a few contents, structural ones with all
					if (!st && !thorough && (c > 1 || q > 1 || ch > 1))
						continue;
					if (!st && thorough && (c > 8 || q > 3))
						continue;
					if (st && !thorough && (ch == CH_LOCAL) && q != 0)
						continue;
					scens.push_back({sd, c, q, ch, 0});
				}
	// read errors
	for (int sd = 0; sd < (int)nstruct; sd++)
		for (int c : {0, 1, 3, 9})
			for (int q = 0; q < 4; q++)
				for (int ch = 0; ch < 3; ch++)
					if (thorough || sd == 0 || (sd < 14 && q < 2) || (sd % 7 == 0 && q == 1))
						scens.push_back({sd, c, q, ch, 1});
	for (int n : {63, 64, 65, 129, 300, 1025, 5000})
		for (int sh = 0; sh < B_SHAPES; sh++)
			for (int c = 0; c < 5; c++)
				for (int o = 0; o < 4; o++)
					for (int k = 0; k < 2; k++)
						if (n < 5000 || thorough || (c < 2 && o < 2))
							bigs.push_back({n, sh, c, o, k});
	return (u64)(scens.size() + bigs.size());
}

static Property prop = {
	.id = "C07",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &t, u64 n) { return n < scens.size() && scens[n].fault ? (t.thorough ? 3 : 2) : 0; },
	.describe = [](u64 n) {
		if (n >= scens.size()) {
			Big b = bigs[n - scens.size()];
			return strf("side-loaded index of %d entries: %s; store: %s; index=%s stores=L:ix%s", b.n, BSHAPE[b.shape], BCONTENT[b.content], BORDER[b.order], b.chain ? ",H" : "");
		}
		Scen s = scens[n];
		static const char *ch[] = {"L:ix", "L:ix,H", "L:ix,L", "L:ix,H(404)"};
		return strf("side-loaded index: %s; store: %s; index=%s stores=%s%s", sides[(size_t)s.side].name.c_str(), contents[(size_t)s.content].name.c_str(),
		            SEQ[s.seq], ch[s.chain], s.fault ? " with read errors" : "");
	},
	.space = "side-loaded indices (right, missing, every truncation, every u64 field over a menu, every byte, structural changes at every entry) x store contents "
	         "(as indexed, empty, shifted, reordered, damaged or grown in every chunk) x 8 indices x 4 chains; 8 kinds of indices of 63 to 5000 entries x 5 store contents x 4 orders x 2 chains; choices: read errors and premature ends of file",
	.bounds = "read faults per extraction: 2 (quick), 3 (thorough)",
};
static RegisterProperty reg(&prop);
