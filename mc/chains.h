// The scenario space shared by the properties about the choice of stores (C03, C04, C05, ...).
#pragma once
#include "world.h"

static const Params SMALL = {64, 128, 256};

// Contents that the chunker cuts exactly at their ends, so that they can be concatenated in any order.
struct Alpha {
	Bytes c[8];
	Alpha()
	{
		Bytes big = fill(60000, 1);
		std::vector<u64> cut = ref_chunks(big, SMALL);
		u64 pos = 0;
		int n = 0;
		std::set<u64> lens;
		for (u64 e : cut) {
			u64 l = e - pos;
			if (n < 7 && l < 256 && e != big.size() && lens.insert(l).second)
				c[n++] = Bytes(big.begin() + (long)pos, big.begin() + (long)e);
			pos = e;
		}
		c[7] = rep(256, 0);
		if (n < 7 || ref_chunks(cat({c[7], c[7]}), SMALL).size() != 2)
			abort();
	}
	const Bytes &operator[](int i) const { return c[i]; }
};

static std::vector<int> digits(const char *s)
{
	std::vector<int> v;
	for (; *s; s++)
		v.push_back(*s - 'A');
	return v;
}

enum SK {
	S_H,       // HTTP
	S_T,       // the target
	S_L0,      // an empty file
	S_LTINY,   // a file shorter than the chunker's window
	S_L1,      // a file with the first chunk of the alphabet
	S_LREST,   // a file with all chunks but the first
	S_LALL,    // a file with all chunks, some of them twice
	S_LX,      // the same with a side-loaded index
	S_LBAD,    // a file with all chunks that turns out to be unreadable when a chunk is asked for
	S_LBAD1,   // a file with all chunks of which the second one is unreadable
	S_TA,      // the target by another name, containing what it contains at the start
	S_HE,      // HTTP with encryption
	S_N
};
static const char *sk_name(int k)
{
	static const char *n[] = {"H", "T", "L()", "L(tiny)", "L(A)", "L(B..)", "L(*)", "L(*):ix", "L(unreadable)", "L(B unreadable)", "./t", "H+enc"};
	return n[k];
}

struct Chains {
	Alpha a;
	std::vector<RefStore> ref;
	std::vector<VF> locals;
	std::vector<size_t> localpos;
	std::map<VFile *, std::vector<std::pair<u64, u64>>> bad;

	// add a store to the world; `n` makes names unique
	void add(World &w, int kind, int n)
	{
		RefStore r;
		auto local = [&](std::initializer_list<int> l) {
			Bytes b;
			for (int i : l) {
				b = cat({b, a[i]});
				r.has.insert(sha256(a[i]));
			}
			std::string name = strf(n % 2 ? "l%d" : "t%d", n); // the target's name is "t"
			r.k = RefStore::LOCAL;
			VF f = w.local(name, b);
			locals.push_back(f);
			localpos.push_back(ref.size());
			w.stores.push_back(name);
			return f;
		};
		switch (kind) {
		case S_H:
			r.k = RefStore::HTTP;
			r.http = w.http(strf("http://h/%d", n));
			break;
		case S_HE:
			r.k = RefStore::HTTP;
			r.http = w.http(strf("http://h/%d", n), KEY0_HEX);
			break;
		case S_T:
			r.k = RefStore::TARGET;
			w.stores.push_back("t");
			break;
		case S_L0: local({}); break;
		case S_LTINY: {
			VF f = local({});
			f->set(fill(17, 4));
			r.has.insert(sha256(fill(17, 4)));
			break;
		}
		case S_L1: local({0}); break;
		case S_LREST: local({4, 3, 2, 1, 5, 6, 7}); break;
		case S_LALL: local({1, 3, 0, 2, 1, 4, 5, 6, 7, 0}); break;
		case S_LX: {
			local({1, 3, 0, 2, 4, 5, 6, 7});
			Ix s;
			s.p = w.ix.p;
			for (int i : {1, 3, 0, 2, 4, 5, 6, 7})
				s.add(a[i].size(), sha256(a[i]));
			w.x.env.add(strf("l%d.ix", n), s.bytes());
			w.stores.back() += strf(":l%d.ix", n);
			break;
		}
		case S_LBAD: {
			VF f = local({3, 0, 2, 1});
			r.unreadable = r.has;
			bad[f.get()].push_back({0, f->size});
			break;
		}
		case S_LBAD1: {
			VF f = local({3, 0, 2, 1});
			r.unreadable.insert(sha256(a[1]));
			u64 o = a[3].size() + a[0].size() + a[2].size();
			bad[f.get()].push_back({o, o + a[1].size()});
			break;
		}
		case S_TA: {
			r.k = RefStore::LOCAL;
			Bytes t = w.target ? w.target->content() : Bytes();
			u64 pos = 0;
			for (u64 e : ref_chunks(t, w.ix.p)) {
				r.has.insert(sha256(t.data() + pos, e - pos));
				pos = e;
			}
			w.stores.push_back("./t");
			break;
		}
		}
		ref.push_back(r);
	}
	// errors appear when chunks are retrieved, not during the scan
	void arm(World &w)
	{
		auto scanned = std::make_shared<bool>(false);
		auto end = std::make_shared<std::set<VFile *>>(); // read up to their end
		VFile *t = w.target.get();
		auto b = bad;
		if (b.empty())
			return;
		w.x.env.io = [=](const IoReq &r) -> IoAns {
			if (r.f && r.f == t && (r.op == Op::Pread || r.op == Op::Read || r.op == Op::Write || r.op == Op::Pwrite))
				*scanned = true;
			auto it = r.f ? b.find(r.f) : b.end();
			if (it != b.end() && (r.op == Op::Pread || r.op == Op::Read)) {
				if (!*scanned && !end->count(r.f)) {
					if (r.off + r.len >= r.f->size)
						end->insert(r.f);
					return IoAns();
				}
				for (auto &q : it->second)
					if (r.off < q.second && r.off + r.len > q.first) {
						IoAns x;
						x.k = IoAns::Err;
						x.err = 5;
						return x;
					}
			}
			return IoAns();
		};
	}
	void index(World &w, const std::vector<int> &seq)
	{
		w.ix.p = SMALL;
		for (int k : seq)
			w.entry(a[k]);
		w.write_index();
	}
	// initial contents of the target
	enum { T_EMPTY, T_DONE, T_PREFIX, T_GARBAGE, T_LONG, T_SWAPPED, T_BLK, T_HOLE, T_N };
	static const char *tname(int t)
	{
		static const char *n[] = {"empty", "complete", "first-chunk-ok", "garbage", "complete+more", "reversed", "blockdev", "second-chunk-bad"};
		return n[t];
	}
	void target(World &w, int t)
	{
		Bytes im = w.image(), b;
		bool blk = false;
		switch (t) {
		case T_EMPTY: break;
		case T_DONE: b = im; break;
		case T_PREFIX:
			if (!w.ix.e.empty())
				b = Bytes(im.begin(), im.begin() + (long)w.ix.e[0].end);
			break;
		case T_GARBAGE: b = fill(im.size() + 10, 3); break;
		case T_LONG: b = cat({im, fill(33, 2)}); break;
		case T_SWAPPED:
			for (size_t i = w.ix.e.size(); i-- > 0;)
				b = cat({b, *w.dict.get(w.ix.e[i].id)});
			break;
		case T_BLK:
			b = cat({fill(im.size(), 6), fill(100, 7)});
			blk = true;
			break;
		case T_HOLE:
			b = im;
			if (w.ix.e.size() > 1)
				b[w.ix.e[0].end + 5] ^= 1;
			break;
		}
		w.set_target(b, blk);
	}
};

// Long extractions: what happened many chunks ago must not matter more than it should.
struct Long {
	enum { P_ALL, P_NONE, P_EVEN, P_FIFTH, P_FIRST, P_LAST, P_DIES, P_ERR, P_GARB, P_N };
	std::vector<int> pat;      // per HTTP store
	int n = 40;                // entries
	int t = -1;                // position of the target among the stores
	bool each = false;         // entry k only in store k modulo their number
	bool local = false;        // a side-loaded local store with every third chunk in front of the last store
	int dist = 3;              // every fifth chunk is that of so many entries (no multiple of 5) before, if the target is a store
	int bound = 1;
	static const char *pname(int p)
	{
		static const char *q[] = {"all", "none", "even", "fifth", "first", "last", "dies", "500", "garbage"};
		return q[p];
	}
	std::string describe() const
	{
		std::string q = strf("%d entries,", n);
		if (dist != 3)
			q += strf(" every fifth repeated after %d,", dist);
		if (pat.size() > 30)
			return q + strf(" %zu stores", pat.size()) + (each ? "" : strf(" (%s ... %s)", pname(pat[0]), pname(pat.back())));
		int i = 0;
		for (int p : pat) {
			if (i++ == t)
				q += " T";
			q += std::string(" H(") + (each ? "each" : pname(p)) + ")";
		}
		return q + (local ? " L" : "");
	}
	Bytes content(int k) const { return fill(60 + (u64)(k % 37), 3000 + (u64)k); }
	int source(int k) const { return t >= 0 && k % 5 == 4 && k >= dist ? k - dist : k; }
	int base(int store, int k) const
	{
		if (each)
			return k % (int)pat.size() == store ? A_HIT : A_404;
		switch (pat[(size_t)store]) {
		case P_ALL: return A_HIT;
		case P_NONE: return A_404;
		case P_EVEN: return k % 2 ? A_404 : A_HIT;
		case P_FIFTH: return k % 5 == 3 ? A_HIT : A_410;
		case P_FIRST: return k < n / 2 ? A_HIT : A_404;
		case P_LAST: return k < n / 2 ? A_404 : A_HIT;
		case P_DIES: return k < 3 ? A_HIT : A_FATAL;
		case P_ERR: return k % 12 == 11 ? A_HIT : A_500;
		case P_GARB: return k % 3 ? A_GARBAGE : A_WRONG;
		}
		return A_HIT;
	}
	// sets up everything; returns the reference stores
	std::vector<RefStore> setup(Exec &x, World &w) const
	{
		std::vector<RefStore> ref;
		w.ix.p = SMALL;
		std::map<Id, int> pos;
		for (int k = 0; k < n; k++) {
			Bytes b = content(source(k));
			pos.insert({sha256(b), k});
			w.entry(b);
		}
		w.write_index();
		w.set_target({});
		for (size_t i = 0; i < pat.size(); i++) {
			RefStore r;
			if ((int)i == t) {
				r.k = RefStore::TARGET;
				w.stores.push_back("t");
				ref.push_back(r);
			}
			if (local && i + 1 == pat.size()) {
				RefStore l;
				l.k = RefStore::LOCAL;
				Ix s;
				s.p = SMALL;
				Bytes all;
				for (int k = 0; k < n; k += 3) {
					Bytes b = content(source(k));
					s.add(b.size(), sha256(b));
					l.has.insert(sha256(b));
					all = cat({all, b});
				}
				w.local("l", all);
				w.x.env.add("l.ix", s.bytes());
				w.stores.push_back("l:l.ix");
				ref.push_back(l);
			}
			r = RefStore();
			r.k = RefStore::HTTP;
			r.http = w.http(strf("http://h/%zu", i));
			ref.push_back(r);
		}
		Long self = *this;
		w.policy = [&x, self, pos](int store, const Id &id, int nth) {
			int b = self.base(store, pos.at(id));
			if (nth)
				return b;
			static const int ev[] = {A_FATAL, A_GARBAGE, A_500, A_TIMEOUT, A_404};
			int c = x.choose(6, 1);
			return c ? ev[c - 1] : b;
		};
		return ref;
	}
	// very many entries or stores, with ideal answers only
	static std::vector<Long> scale()
	{
		std::vector<Long> v;
		auto add = [&](int n, std::vector<int> pat, int t, bool local, int dist) {
			Long l;
			l.n = n;
			l.pat = pat;
			l.t = t;
			l.local = local;
			l.dist = dist;
			l.bound = 0;
			v.push_back(l);
		};
		for (int n : {300, 1100}) {
			add(n, {P_DIES, P_ALL}, -1, false, 3);
			add(n, {P_NONE, P_ALL}, -1, false, 3);
			add(n, {P_LAST, P_ALL}, -1, false, 3);
			add(n, {P_GARB, P_DIES, P_ALL}, 1, true, 3);
			add(n, {P_ERR, P_ALL}, 0, false, n - 11);
			add(n, {P_FIRST, P_ALL}, 0, true, n / 2 + 1); // 151, 551
		}
		add(2200, {P_ALL}, 0, false, 501);
		add(700, {P_EVEN, P_ALL}, 0, false, 61);
		for (int k : {33, 65, 130, 260}) {
			std::vector<int> pat((size_t)k, P_ALL);
			add(k + 2, pat, -1, false, 3);
			v.back().each = true;
			pat.assign((size_t)k, P_DIES);
			pat.push_back(P_ALL);
			add(12, pat, -1, false, 3);
			pat.assign((size_t)k, P_NONE);
			pat.push_back(P_ALL);
			add(9, pat, k / 2, true, 3);
		}
		return v;
	}
	static std::vector<Long> all(bool thorough)
	{
		std::vector<Long> v = scale();
		for (int n : {13, 40}) {
			for (int a = 0; a < P_N; a++) {
				Long l;
				l.n = n;
				l.pat = {a};
				v.push_back(l);
				for (int b = 0; b < P_N; b++) {
					l.pat = {a, b};
					v.push_back(l);
					l.pat = {a, b, P_ALL};
					if (n == 40 || thorough)
						v.push_back(l);
				}
				for (int t = 0; t < 2; t++)
					for (int lo = 0; lo < 2; lo++) {
						l.pat = {a, P_ALL};
						l.t = t;
						l.local = lo;
						v.push_back(l);
					}
			}
		}
		for (int k = 2; k <= 24; k += k < 6 || thorough ? 1 : 3) {
			Long l;
			l.n = k < 8 ? 24 : k + 2;
			l.pat.assign((size_t)k, P_ALL);
			l.each = true;
			v.push_back(l);
		}
		if (thorough)
			for (int n : {100, 300}) {
				for (int a = 0; a < P_N; a++) {
					Long l;
					l.n = n;
					l.pat = {a, P_ALL};
					v.push_back(l);
					l.pat = {a, P_DIES, P_ALL};
					v.push_back(l);
				}
			}
		return v;
	}
};

// Indices of many or of large entries, with a target whose first entries are in place
struct Span {
	int n, shape, size, keep, list;
	bool full; // the rest of the target is there, but wrong
	enum { D_DISTINCT, D_RUNS, D_PAIRS, D_SAME, D_N, D_BACK = D_N };
	static u64 bytes(int k)
	{
		static const u64 q[] = {0, 16384, 65535, 65536, 65537, 131072, 262143, 262144};
		return q[k];
	}
	std::string describe() const
	{
		static const char *s[] = {"different", "in runs of 270", "alternating", "equal", "partly repeated"}, *l[] = {"H", "T,H", "H,T"};
		return strf("%d %s entries", n, s[shape]) + (size ? strf(" of %llu bytes", (unsigned long long)bytes(size)) : "") + strf(", the first %d in place, the rest %s; stores=%s", keep, full ? "wrong" : "missing", l[list]);
	}
	int which(int i) const { return shape == D_BACK ? (i < keep ? i : i % 4 == 1 ? i - keep : i % 4 == 3 ? i - 3 : i) : shape == D_RUNS ? i / 270 : shape == D_PAIRS ? i % 2 : shape == D_SAME ? 0 : i; }
	std::vector<RefStore> setup(Exec &x, World &w) const
	{
		std::vector<RefStore> ref;
		w.ix.p = SMALL;
		if (size)
			w.ix.p = Params{16384, 65536, 262144};
		static std::map<std::pair<int, int>, Bytes> cache;
		for (int i = 0; i < n; i++) {
			int k = which(i);
			Bytes &b = cache[{size, k}];
			if (b.empty())
				b = fill(size ? bytes(size) : 60 + (u64)(k % 37), 50000 + (u64)k);
			w.entry(b);
		}
		w.write_index();
		Bytes t = w.image();
		u64 p = keep ? w.ix.e[(size_t)keep - 1].end : 0;
		if (full)
			for (u64 i = p; i < t.size(); i += 30)
				t[i] ^= 0x11;
		else
			t.resize(p);
		w.set_target(t);
		RefStore h, o;
		h.k = RefStore::HTTP;
		o.k = RefStore::TARGET;
		if (list == 1) {
			w.stores.push_back("t");
			ref.push_back(o);
		}
		h.http = w.http("http://h/s");
		ref.push_back(h);
		if (list == 2) {
			w.stores.push_back("t");
			ref.push_back(o);
		}
		w.policy = [](int, const Id &, int) { return (int)A_HIT; };
		x.env.horizon = 60 * (u64)n + 400000;
		return ref;
	}
	static std::vector<Span> all(bool thorough)
	{
		std::vector<Span> v;
		std::set<int> marks;
		for (int n : {257, 300, 700, 1026, 2050, 5000, 70000}) {
			if (n == 70000)
				marks = {65535, 65536, 65537, 69999, 70000};
			else
				marks = {0, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, n / 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, n - 2, n - 1, n};
			for (int k : marks)
				for (int s = 0; s < D_N; s++)
					for (int l = 0; l < 3; l++)
						for (int f = 0; f < 2; f++)
							if (k <= n && (n < 5000 || thorough || (s < 2 && l < 1 && (n == 5000 || f))))
								v.push_back({n, s, 0, k, l, f == 1});
		}
		for (int l = 0; l < 3; l++) {
			for (int n : {300, 1300, 3000, 5000})
				v.push_back({n, D_BACK, 0, n - 80, l, n == 3000});
		}
		for (int z = 1; z < 8; z++)
			for (int s : {D_DISTINCT, D_PAIRS, D_SAME})
				for (int k = 0; k <= 4; k++)
					for (int l = 0; l < 3; l++)
						for (int f = 0; f < 2; f++)
							v.push_back({4, s, z, k, l, f == 1});
		return v;
	}
};

// Images of more than 4 GiB, nearly all of it zeroes
struct Beyond {
	int init, list, head;
	enum { I_EMPTY, I_DONE, I_LAST, I_TAIL, I_BIT_BEYOND, I_BIT_ACROSS, I_N };
	std::string describe() const
	{
		static const char *q[] = {"empty", "complete", "complete but for the last entry", "complete up to 4 GiB", "a wrong bit behind 4 GiB", "a wrong bit in the entry across 4 GiB"}, *l[] = {"H", "T,H"};
		return strf("image of more than 4 GiB beginning with %d bytes: target=%s stores=%s", head, q[init], l[list]);
	}
	static Bytes chunk(int k) { return fill(70 + (u64)k * 11, 61000 + (u64)k); }
	std::vector<std::pair<u64, Bytes>> parts; // all of the image that isn't zero
	size_t intact = 0;
	u64 size = 0;
	std::vector<RefStore> setup(Exec &x, World &w)
	{
		static const Bytes z = rep(262144, 0);
		static const Id zid = sha256(z);
		w.ix.p = Params{16384, 65536, 262144};
		w.dict.add(z);
		auto put = [&](const Bytes &b) {
			parts.push_back({w.ix.e.empty() ? 0 : w.ix.e.back().end, b});
			w.entry(b);
		};
		if (head)
			put(fill((u64)head, 60999));
		for (int i = 0; i < 16384; i++)
			w.ix.add(z.size(), zid);
		size_t base = w.ix.e.size();
		for (int k : {0, 1, 0, 2, 1})
			put(chunk(k));
		w.write_index();
		size = w.ix.e.back().end;
		w.set_target({});
		VFile &t = *w.target;
		t.discard = true;
		if (init == I_DONE || init == I_LAST || init >= I_BIT_BEYOND)
			for (auto &p : parts)
				t.put_at(p.first, p.second.data(), p.second.size());
		intact = base + 5;
		auto flip = [&](u64 at) {
			u8 b = 0;
			t.read_at(at, &b, 1);
			b ^= 8;
			t.put_at(at, &b, 1);
		};
		if (init == I_EMPTY)
			intact = 0;
		if (init == I_LAST) {
			t.size--;
			intact--;
		}
		if (init == I_TAIL) {
			if (head)
				t.put_at(0, parts[0].second.data(), parts[0].second.size());
			t.size = w.ix.e[base - 1].end;
			intact = base;
		}
		if (init == I_BIT_BEYOND) {
			flip(w.ix.e[base + 1].end + 5);
			intact = base + 2;
		}
		if (init == I_BIT_ACROSS) {
			flip((1ull << 32) - 1);
			intact = base - 1;
		}
		std::vector<RefStore> ref;
		RefStore r;
		if (list) {
			r.k = RefStore::TARGET;
			w.stores.push_back("t");
			ref.push_back(r);
		}
		r = RefStore();
		r.k = RefStore::HTTP;
		r.http = w.http("http://h/s");
		ref.push_back(r);
		w.policy = [](int, const Id &, int) { return (int)A_HIT; };
		x.env.horizon = 2000000;
		mark_unreal();
		return ref;
	}
	std::string check(World &w) const
	{
		VFile &t = *w.target;
		if (t.size != size)
			return strf("the target has %llu bytes, the image %llu", (unsigned long long)t.size, (unsigned long long)size);
		for (auto &p : parts) {
			Bytes b(p.second.size());
			t.read_at(p.first, b.data(), b.size());
			if (b != p.second)
				return strf("wrong content at %llu", (unsigned long long)p.first);
		}
		for (auto &g : t.pages)
			for (u64 i = 0; i < VFile::PAGE; i++)
				if (g.second[i]) {
					u64 at = g.first * VFile::PAGE + i;
					bool in = at >= size;
					for (auto &p : parts)
						in |= at >= p.first && at < p.first + p.second.size();
					if (!in)
						return strf("wrong content at %llu, which should be zero", (unsigned long long)at);
				}
		return "";
	}
	static std::vector<Beyond> all()
	{
		std::vector<Beyond> v;
		for (int i = 0; i < I_N; i++)
			for (int l = 0; l < 2; l++)
				for (int h : {0, 1000})
					if (i != I_BIT_ACROSS || h) {
						Beyond b;
						b.init = i;
						b.list = l;
						b.head = h;
						v.push_back(b);
					}
		return v;
	}
};
