// Lookups in local stores and in the target.
#include "chains.h"

static bool thorough;
struct Case { std::string name; std::function<void(Exec &)> f; };
static std::vector<Case> cases;

// chunks that are cut exactly at their ends in any order, ascending by id
static std::vector<Bytes> pool;
static std::vector<Bytes> shortpool;   // the shortest of them
static std::map<Id, const Bytes *> by_id;

static void mkpool(size_t n)
{
	std::vector<std::pair<Id, Bytes>> v;
	u64 seed = 40;
	while (v.size() < n) {
		Bytes big = fill(60000, seed++);
		u64 pos = 0;
		for (u64 e : ref_chunks(big, SMALL)) {
			u64 l = e - pos;
			if (l < 256 && e != big.size() && v.size() < n) {
				Bytes b(big.begin() + (long)pos, big.begin() + (long)e);
				v.push_back({sha256(b), b});
			}
			pos = e;
		}
	}
	std::sort(v.begin(), v.end());
	for (auto &p : v)
		pool.push_back(p.second);
	// many chunks much shorter than the average, so that a store has more of them than its size suggests
	v.clear();
	while (v.size() < 900) {
		Bytes big = fill(60000, seed++);
		u64 pos = 0;
		for (u64 e : ref_chunks(big, SMALL)) {
			if (e - pos <= 80 && e != big.size() && v.size() < 900) {
				Bytes b(big.begin() + (long)pos, big.begin() + (long)e);
				v.push_back({sha256(b), b});
			}
			pos = e;
		}
	}
	std::sort(v.begin(), v.end());
	for (auto &p : v)
		shortpool.push_back(p.second);
}

// an extraction that finds some chunks in a store and some not
static void lookups(Exec &x, const std::vector<const Bytes *> &content, const std::vector<const Bytes *> &query, int mode)
{
	World w(x);
	w.ix.p = SMALL;
	for (auto *b : query)
		w.entry(*b);
	w.write_index();
	w.set_target({});
	Bytes c;
	std::set<Id> has;
	Ix side;
	side.p = SMALL;
	for (auto *b : content) {
		c = cat({c, *b});
		Id i = sha256(*b);
		has.insert(i);
		side.add(b->size(), i);
	}
	if (mode == 2) // a tail that is cut off by the end of the file
		c = cat({c, rep(10, 3)});
	w.local("l", c);
	if (mode == 1) {
		x.env.add("l.ix", side.bytes());
		w.stores.push_back("l:l.ix");
	} else {
		w.stores.push_back("l");
	}
	w.http("http://h/s");
	w.run();
	x.outcome(w.res.str());
	if (!w.res.ok()) {
		x.fail("%s", w.res.str().c_str());
		return;
	}
	std::string e = w.check_image();
	if (!e.empty())
		x.fail("%s", e.c_str());
	// exactly those the store does not have are requested
	size_t g = 0;
	Id last;
	bool have_last = false;
	for (size_t i = 0; i < query.size(); i++) {
		Id id = w.ix.e[i].id;
		bool repeat = have_last && id == last;
		last = id;
		have_last = true;
		if (repeat || has.count(id))
			continue;
		if (g >= w.gets.size() || w.gets[g].id != id) {
			x.fail("entry %zu of %zu isn't in the store, but %s", i, query.size(), g >= w.gets.size() ? "was not requested" : "something else was requested");
			return;
		}
		g++;
	}
	if (g != w.gets.size())
		x.fail("chunk %s was requested although the store has it (%zu chunks, %zu lookups)", id_short(w.gets[g].id).c_str(), content.size(), query.size());
}

// ---- tens of thousands of chunks
static Bytes mass;
static std::vector<std::pair<u64, u64>> mass_chunks;   // begin, end
static std::vector<Id> mass_id;
static void mkmass(size_t n)
{
	mass = fill(n * 150, 77);
	u64 pos = 0;
	for (u64 e : ref_chunks(mass, SMALL)) {
		if (mass_id.size() < n) {
			mass_chunks.push_back({pos, e});
			mass_id.push_back(sha256(mass.data() + pos, e - pos));
		}
		pos = e;
	}
	if (mass_id.size() < n)
		abort();
	mass.resize(mass_chunks.back().second);
}
// a store of n chunks; lookups of all of them, every 101st is of one the store doesn't have
static void many(Exec &x, size_t n, int order, bool side)
{
	World w(x);
	w.ix.p = SMALL;
	std::vector<size_t> q(n);
	for (size_t i = 0; i < n; i++)
		q[i] = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7919 + 13) % n;
	std::set<Id> want;
	std::vector<Id> asked;
	for (size_t i = 0; i < n; i++) {
		if (i % 101 == 50) {
			Bytes b = fill(70, 1000000 + i);
			w.entry(b);
			asked.push_back(sha256(b));
			continue;
		}
		auto &c = mass_chunks[q[i]];
		w.ix.add(c.second - c.first, mass_id[q[i]]);
		w.dict.m[mass_id[q[i]]] = Bytes(mass.begin() + (long)c.first, mass.begin() + (long)c.second);
	}
	w.write_index();
	w.set_target({});
	w.local("l", Bytes(mass.begin(), mass.begin() + (long)mass_chunks[n - 1].second));
	Ix s;
	s.p = SMALL;
	for (size_t i = 0; i < n; i++)
		s.e.push_back({mass_chunks[i].second, mass_id[i]});
	x.env.add("l.ix", s.bytes());
	w.stores.push_back(side ? "l:l.ix" : "l");
	w.http("http://h/s");
	x.env.horizon = 20 * n + 400000;
	w.run();
	x.outcome(w.res.str());
	std::string e = w.res.ok() ? w.check_image() : w.res.str();
	if (!e.empty()) {
		x.fail("%s", e.c_str());
		return;
	}
	for (size_t i = 0; i < std::max(asked.size(), w.gets.size()); i++)
		if (i >= w.gets.size() || i >= asked.size() || w.gets[i].id != asked[i]) {
			x.fail("store of %zu chunks: the %zu. request %s", n, i + 1, i >= w.gets.size() ? "is missing" : "is for a chunk the store has");
			return;
		}
}

// an extraction with the target as a store in front of an HTTP store
static void self(Exec &x, const std::vector<const Bytes *> &query, size_t prefix, int extra)
{
	World w(x);
	w.ix.p = SMALL;
	for (auto *b : query)
		w.entry(*b);
	w.write_index();
	Bytes im = w.image(), t(im.begin(), im.begin() + (long)(prefix ? w.ix.e[prefix - 1].end : 0));
	if (extra == 1)
		t = cat({t, rep(300, 0x77)});
	w.set_target(t);
	if (extra == 2) {
		w.local("l", *query[0]);
		w.stores.push_back("l");
	}
	w.stores.push_back("t");
	w.http("http://h/s");
	w.run(extra == 3 ? "casync" : "csn");
	if (extra == 3) {
		// casync takes the target as a seed only
	}
	x.outcome(w.res.str());
	if (!w.res.ok()) {
		x.fail("%s", w.res.str().c_str());
		return;
	}
	std::string e = w.check_image();
	if (!e.empty())
		x.fail("%s", e.c_str());
	std::set<Id> seen;
	size_t g = 0;
	if (extra == 2)
		seen.insert(w.ix.e[0].id);
	for (size_t i = 0; i < query.size(); i++) {
		Id id = w.ix.e[i].id;
		bool known = !seen.insert(id).second;
		if (i < prefix || known)
			continue;
		if (g >= w.gets.size() || w.gets[g].id != id) {
			x.fail("entry %zu of %zu is new, but %s", i, query.size(), g >= w.gets.size() ? "was not requested" : "something else was requested");
			return;
		}
		g++;
	}
	if (g != w.gets.size())
		x.fail("chunk %s was requested although the target has it", id_short(w.gets[g].id).c_str());
}

// ---- huge stores

// chunks at chosen places of a sparse file, by a side-loaded index
static void far(Exec &x, const std::vector<u64> &at, bool blk, u64 size)
{
	World w(x);
	w.ix.p = SMALL;
	for (size_t i = at.size(); i-- > 0;)
		w.entry(pool[i]);
	for (size_t i = 0; i < at.size(); i += 2)
		w.entry(pool[i]);
	w.write_index();
	w.set_target({});
	VF f = blk ? x.env.mkblk("l", {}) : x.env.add("l", {});
	f->role = 2;
	f->discard = true;
	f->size = size;
	Ix s;
	s.p = SMALL;
	u64 pos = 0;
	int n = 0;
	for (size_t i = 0; i < at.size(); i++) {
		while (pos < at[i]) {
			// what lies between isn't asked for
			u64 l = std::min<u64>(at[i] - pos, 0xffffffffull);
			Id id = sha256(str(strf("%d", n++)));
			pos += l;
			s.e.push_back({pos, id});
		}
		f->put_at(at[i], pool[i].data(), pool[i].size());
		pos += pool[i].size();
		s.e.push_back({pos, sha256(pool[i])});
	}
	f->size = std::max(size, pos);
	x.env.add("l.ix", s.bytes());
	w.stores.push_back("l:l.ix");
	w.http("http://h/s");
	w.run();
	x.outcome(w.res.str());
	if (!w.res.ok() || !w.check_image().empty())
		x.fail("%s %s", w.res.str().c_str(), w.check_image().c_str());
	else if (!w.gets.empty())
		x.fail("chunk %s was requested although the store has it", id_short(w.gets[0].id).c_str());
}

// a store that is scanned over more than 4 GiB
static void scan_far(Exec &x, u64 size, u32 maxsize, bool blk)
{
	World w(x);
	w.ix.p = {maxsize / 4, maxsize / 2, maxsize};
	u64 tail = size % maxsize;
	Bytes last = fill(tail, 5), zero = rep(maxsize, 0), first = fill(maxsize / 8, 6);
	// zeroes are only cut at the maximal size
	w.entry(last);
	w.entry(zero);
	w.entry(last);
	w.write_index();
	w.set_target({});
	VF f = blk ? x.env.mkblk("l", {}) : x.env.add("l", {});
	f->role = 2;
	f->discard = true;
	f->size = size - tail;
	f->put_at(size - tail, last.data(), tail);
	x.env.keep_write_data = true;
	x.env.horizon = size / 4096 + 100000;
	w.stores.push_back("l");
	w.http("http://h/s");
	w.run();
	x.outcome(w.res.str());
	if (!w.res.ok() || !w.check_image().empty())
		x.fail("%s %s", w.res.str().c_str(), w.check_image().c_str());
	else if (!w.gets.empty())
		x.fail("chunk %s was requested although the store has it", id_short(w.gets[0].id).c_str());
}

// an image of more than 4 GiB, with the target as a store
static void far_target(Exec &x, u64 zeroes, bool blk, bool resume)
{
	World w(x);
	w.ix.p = DEFAULT_PARAMS;
	Bytes zero = rep(262144, 0);
	Id zid = w.chunk(zero);
	auto put = [&](int i) { w.entry(pool[(size_t)i]); };
	put(0);
	put(1);
	for (u64 i = 0; i < zeroes; i++)
		w.ix.add(zero.size(), zid);
	put(2);
	put(3);
	put(0);
	for (u64 i = 0; i < 4; i++)
		w.ix.add(zero.size(), zid);
	put(3);
	put(2);
	put(1);
	put(4);
	put(2);
	w.write_index();
	VF t = w.set_target({}, blk);
	t->discard = true;
	u64 total = w.ix.image_size();
	if (blk)
		t->size = total + 4096;
	u64 intact = 0;
	if (resume) {
		// everything up to and including chunk 3 is there already
		u64 pos = 0;
		for (size_t i = 0; i < 2 + zeroes + 2; i++) {
			if (i < 2 || i >= 2 + zeroes) {
				const Bytes &b = *w.dict.get(w.ix.e[i].id);
				t->put_at(pos, b.data(), b.size());
			}
			pos = w.ix.e[i].end;
		}
		t->size = std::max(t->size, pos);
		intact = 2 + zeroes + 2;
	}
	w.target_before.clear();
	w.stores.push_back("t");
	w.http("http://h/s");
	x.env.keep_write_data = false;
	x.env.horizon = 20 * zeroes + 10000;
	// the target is too large for what run() remembers
	x.env.http = [&w](const std::string &u, HttpReply &r) { w.serve(u, r); };
	Result r = sut_run(x, P_CSN, {"csn", "i.caibx", "t", "t", "http://h/s"});
	x.outcome(r.str());
	if (!r.ok()) {
		x.fail("%s", r.str().c_str());
		return;
	}
	std::set<Id> seen;
	size_t g = 0;
	for (size_t i = 0; i < w.ix.e.size(); i++) {
		bool known = !seen.insert(w.ix.e[i].id).second;
		if (i < intact || known)
			continue;
		if (g >= w.gets.size() || w.gets[g].id != w.ix.e[i].id) {
			x.fail("entry %zu was not requested", i);
			return;
		}
		g++;
	}
	if (g != w.gets.size())
		x.fail("chunk %s was requested although the target has it", id_short(w.gets[g].id).c_str());
	u64 pos = 0;
	for (auto &e : w.ix.e) {
		const Bytes &b = *w.dict.get(e.id);
		Bytes have(b.size());
		if (e.end <= t->size)
			t->read_at(pos, have.data(), have.size());
		if (e.end > t->size || have != b) {
			x.fail("the target is wrong at %llu", (unsigned long long)pos);
			return;
		}
		pos = e.end;
	}
}

static void run(Exec &x) { cases[x.scenario].f(x); }

typedef std::vector<const Bytes *> PV;
static u64 prng = 88172645463325252ull;
static u64 rnd()
{
	prng ^= prng << 13;
	prng ^= prng >> 7;
	prng ^= prng << 17;
	return prng;
}
static PV shuffled(PV v, u64 seed)
{
	prng = 88172645463325252ull + seed * 77777;
	for (size_t i = v.size(); i > 1; i--)
		std::swap(v[i - 1], v[rnd() % i]);
	return v;
}

static u64 prepare(const Tier &t)
{
	thorough = t.thorough;
	mkpool(1500);
	auto add = [&](const std::string &n, std::function<void(Exec &)> f) { cases.push_back({n, f}); };
	static const char *mode_name[] = {"scanned", "side-loaded", "scanned with a short tail"};

	// --- long ones first: they run in parallel
	u64 G4 = 1ull << 32;
	add("store of 4 GiB + 836433 bytes, scanned", [=](Exec &x) { scan_far(x, G4 + 3 * 262144 + 50001, 262144, false); });
	for (bool blk : {false, true})
		for (bool resume : {false, true})
			add(strf("image of 4 GiB + 3 MiB%s%s", blk ? ", block device" : "", resume ? ", resumed" : ""), [=](Exec &x) { far_target(x, 16384 + 12, blk, resume); });
	add("image of 2 GiB + 3 MiB", [=](Exec &x) { far_target(x, 8192 + 12, false, false); });
	if (thorough) {
		add("store of 8 GiB, scanned", [=](Exec &x) { scan_far(x, 2 * G4 + 60001, 262144, false); });
		add("block device of 4 GiB + 4 KiB, scanned", [=](Exec &x) { scan_far(x, G4 + 4096, 262144, true); });
		add("store of 2 GiB + 5 bytes, scanned", [=](Exec &x) { scan_far(x, G4 / 2 + 5, 262144, false); });
		add("store of 4 GiB + 1 byte, cut finely", [=](Exec &x) { scan_far(x, G4 + 1, 65536, false); });
		add("image of 16 GiB", [=](Exec &x) { far_target(x, 65536, false, false); });
		add("image of 16 GiB, resumed", [=](Exec &x) { far_target(x, 65536, true, true); });
	}

	mkmass(70000);
	for (size_t n : {1023u, 1024u, 1025u, 2048u, 4095u, 4096u, 4097u, 16384u, 32768u, 65535u, 65536u, 65537u, 70000u})
		for (int o = 0; o < 3; o++)
			for (bool side : {false, true})
				add(strf("store of %zu chunks, %s, lookups %s", n, side ? "side-loaded" : "scanned", o == 0 ? "in order" : o == 1 ? "in reverse order" : "scattered"), [=](Exec &x) { many(x, n, o, side); });
	for (size_t n : {1023u, 1025u, 2100u, 4200u})
		for (int pf = 0; pf < 3; pf++)
			add(strf("target as store, %zu chunks and again scattered, %s in place", n, pf == 0 ? "none" : pf == 1 ? "half" : "the first pass"), [=](Exec &x) {
				std::vector<Bytes> b;
				for (size_t i = 0; i < n; i++)
					b.push_back(Bytes(mass.begin() + (long)mass_chunks[i].first, mass.begin() + (long)mass_chunks[i].second));
				PV all;
				for (auto &k : b)
					all.push_back(&k);
				for (size_t i = 0; i < n; i++)
					all.push_back(&b[(i * 37 + 11) % n]);
				self(x, all, pf == 0 ? 0 : pf == 1 ? n / 2 : n, 0);
			});
	// --- small stores: all orders of all contents, all orders of lookups
	auto perms = [](int n) {
		std::vector<std::vector<int>> r;
		std::vector<int> p;
		for (int i = 0; i < n; i++)
			p.push_back(i);
		do
			r.push_back(p);
		while (std::next_permutation(p.begin(), p.end()));
		return r;
	};
	for (int n = 1; n <= (thorough ? 5 : 4); n++)
		for (auto &c : perms(n))
			for (auto &q : perms(n))
				for (int mode = 0; mode < 3; mode++) {
					if (n == 5 && mode == 2)
						continue;
					std::string s, u;
					for (int i : c)
						s += (char)('A' + i);
					for (int i : q)
						u += (char)('A' + i);
					add(strf("store %s %s, lookups %s", s.c_str(), mode_name[mode], u.c_str()), [=](Exec &x) {
						PV cc, qq;
						for (int i : c)
							cc.push_back(&pool[(size_t)i * 37]);
						for (int i : q)
							qq.push_back(&pool[(size_t)i * 37]);
						lookups(x, cc, qq, mode);
					});
				}
	// repeating contents, lookups of chunks that are there and that are not
	{
		int L = thorough ? 7 : 6;
		for (int len = 0; len <= L; len++) {
			u64 cnt = 1;
			for (int i = 0; i < len; i++)
				cnt *= 3;
			for (u64 k = 0; k < cnt; k++)
				for (int q = 0; q < 6; q++) {
					std::vector<int> c;
					std::string s;
					for (u64 v = k, i = 0; i < (u64)len; i++, v /= 3) {
						c.push_back((int)(v % 3) * 2 + 1);
						s += (char)('A' + c.back());
					}
					static const char *Q[] = {"ABCDEFG", "GFEDCBA", "BBDDFFBDF", "FDBACEG", "DADADB", "GBGDGF"};
					add(strf("store %s, lookups %s", s.c_str(), Q[q]), [=](Exec &x) {
						PV cc, qq;
						for (int i : c)
							cc.push_back(&pool[(size_t)i * 50]);
						for (int i : digits(Q[q]))
							qq.push_back(&pool[(size_t)i * 50]);
						lookups(x, cc, qq, (int)((k + (u64)q) % 2));
					});
				}
		}
	}
	// --- many chunks
	std::vector<size_t> ns;
	for (size_t n = 0; n <= (thorough ? 140u : 70u); n++)
		ns.push_back(n);
	for (size_t n : {96u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 300u, 400u, 511u, 600u, 900u})
		ns.push_back(n);
	static const char *order[] = {"ascending", "descending", "shuffled", "riffled", "doubled", "short chunks only"};
	for (size_t n : ns)
		for (int o = 0; o < 6; o++)
			for (int q = 0; q < 7; q++)
				for (int mode = 0; mode < 2; mode++) {
					if (!thorough && n > 300 && (q == 3 || o == 3))
						continue;
					static const char *qn[] = {"in order of the store", "in reverse order", "ascending", "descending", "shuffled", "shuffled, every other one missing", "many missing ones first"};
					add(strf("store of %zu chunks, %s, %s, lookups %s", n, order[o], mode_name[mode], qn[q]), [=](Exec &x) {
						PV base, c;
						const std::vector<Bytes> &src = o == 5 ? shortpool : pool;
						size_t step = std::max<size_t>(1, std::min<size_t>(src.size() / 2 / std::max<size_t>(n, 1), 7)), m = n;
						for (size_t i = 0; i < m; i++)
							base.push_back(&src[(o == 5 ? i : i * step) % src.size()]);
						c = base;
						if (o == 1)
							std::reverse(c.begin(), c.end());
						if (o == 2)
							c = shuffled(c, n);
						if (o == 3) {
							c.clear();
							for (size_t i = 0; i < m; i++)
								c.push_back(base[i % 2 ? m - 1 - i / 2 : i / 2]);
						}
						if (o == 4)
							for (size_t i = 0; i < m; i++)
								c.push_back(base[m - 1 - i]);
						PV qv = c;
						if (q == 1)
							std::reverse(qv.begin(), qv.end());
						if (q == 2 || q == 3)
							qv = base;
						if (q == 3)
							std::reverse(qv.begin(), qv.end());
						if (q == 4 || q == 5)
							qv = shuffled(c, n + 1000);
						if (q == 5)
							for (size_t i = 0; i < qv.size(); i += 2)
								qv[i] = &pool[1200 + i % 300];
						if (q == 6) {
							PV miss;
							for (size_t i = 0; i < 250; i++)
								miss.push_back(&pool[1200 + i]);
							miss.insert(miss.end(), qv.begin(), qv.end());
							qv = miss;
						}
						lookups(x, c, qv, mode);
					});
				}
	// --- many stores with one chunk each
	for (size_t n = 1; n <= (thorough ? 80u : 40u); n++)
		for (int q = 0; q < 3; q++)
			for (int pr = 0; pr < 2; pr++)
				add(strf("%zu stores of one chunk, lookups %s, %s", n, q == 0 ? "ascending" : q == 1 ? "descending" : "shuffled", pr ? "casync" : "csn"), [=](Exec &x) {
					World w(x);
					w.ix.p = SMALL;
					PV v;
					for (size_t i = 0; i < n; i++)
						v.push_back(&pool[i * 11]);
					PV qv = v;
					if (q == 1)
						std::reverse(qv.begin(), qv.end());
					if (q == 2)
						qv = shuffled(v, n);
					for (auto *b : qv)
						w.entry(*b);
					w.write_index();
					w.set_target({});
					for (size_t i = 0; i < n; i++) {
						std::string nm = strf("l%zu", i);
						w.local(nm, *v[i]);
						w.stores.push_back(nm);
					}
					w.http("http://h/s");
					w.run(pr ? "casync" : "csn");
					x.outcome(w.res.str());
					if (!w.res.ok() || !w.check_image().empty())
						x.fail("%s %s", w.res.str().c_str(), w.check_image().c_str());
					else if (!w.gets.empty())
						x.fail("chunk %s was requested although a store has it", id_short(w.gets[0].id).c_str());
				});
	// --- the target: every sequence of insertions and lookups
	{
		// restricted growth strings: all ways in which entries can repeat
		int L = thorough ? 8 : 7;
		std::vector<std::vector<int>> seqs;
		std::function<void(std::vector<int> &, int)> rec = [&](std::vector<int> &c, int m) {
			if (!c.empty())
				seqs.push_back(c);
			if ((int)c.size() == L)
				return;
			for (int i = 0; i <= m; i++) {
				c.push_back(i);
				rec(c, std::max(m, i + 1));
				c.pop_back();
			}
		};
		std::vector<int> c;
		rec(c, 0);
		// the order of the ids
		static const int rank[][8] = {{0, 1, 2, 3, 4, 5, 6, 7}, {7, 6, 5, 4, 3, 2, 1, 0}, {3, 6, 1, 5, 0, 7, 2, 4}, {4, 0, 5, 1, 6, 2, 7, 3}, {0, 7, 1, 6, 2, 5, 3, 4}};
		for (auto &s : seqs) {
			std::string nm;
			for (int k : s)
				nm += (char)('A' + k);
			for (int r = 0; r < 5; r++) {
				if (!thorough && s.size() >= 6 && r > 2)
					continue;
				for (size_t prefix = 0; prefix <= s.size(); prefix++) {
					if (s.size() >= 6 && prefix > 3 && prefix != s.size() - 1)
						continue;
					for (int e = 0; e < 3; e++) {
						if (!thorough && s.size() >= 6 && (e + r + (int)prefix) % 3)
							continue;
						add(strf("target as store, index %s (order %d), first %zu in place, variant %d", nm.c_str(), r, prefix, e), [=](Exec &x) {
							PV q;
							for (int k : s)
								q.push_back(&pool[(size_t)rank[r][k] * 100 + 3]);
							self(x, q, prefix, e);
						});
					}
				}
			}
		}
	}
	for (size_t n : {10u, 50u, 100u, 200u, 350u})
		for (int o = 0; o < 3; o++)
			for (int q = 0; q < 4; q++)
				for (int pf = 0; pf < 3; pf++)
					add(strf("target as store, %zu chunks %s and again %s, %s in place", n, order[o], q == 0 ? "ascending" : q == 1 ? "descending" : q == 2 ? "shuffled" : "interleaved", pf == 0 ? "none" : pf == 1 ? "half" : "the first pass"), [=](Exec &x) {
						PV v;
						for (size_t i = 0; i < n; i++)
							v.push_back(&pool[i * 3]);
						PV f = v, s = v;
						if (o == 1)
							std::reverse(f.begin(), f.end());
						if (o == 2)
							f = shuffled(v, n);
						if (q == 1)
							std::reverse(s.begin(), s.end());
						if (q == 2)
							s = shuffled(v, n + 5);
						PV all;
						if (q == 3) {
							for (size_t i = 0; i < n; i++) {
								all.push_back(f[i]);
								all.push_back(f[i / 2]);
								all.push_back(f[i * 7 % (i + 1)]);
							}
						} else {
							all = f;
							all.insert(all.end(), s.begin(), s.end());
						}
						self(x, all, pf == 0 ? 0 : pf == 1 ? n / 2 : n, 0);
					});
	// --- positions
	std::vector<u64> marks = {1ull << 31, 1ull << 32, 1ull << 33, 1ull << 40, 3ull << 31, 5ull << 30};
	for (u64 m : marks)
		for (i64 d : {-300, -257, -256, -200, -100, -64, -63, -2, -1, 0, 1, 2, 255, 256, 4095, 4096})
			for (bool blk : {false, true})
				add(strf("chunk at %llu%+lld%s", (unsigned long long)m, (long long)d, blk ? " of a block device" : ""), [=](Exec &x) {
					far(x, {m + (u64)d, m + (u64)d + 1000, m + 0x12345678}, blk, m + 0x20000000);
				});
	add("chunks all over", [=](Exec &x) { far(x, {0, 5000, (1ull << 31) - 100, 1ull << 32, (1ull << 32) + 5000, (1ull << 33) + 5, 1ull << 41}, false, 1ull << 42); });
	// the same offset modulo 2^32
	for (u64 k = 1; k <= 4; k++)
		add(strf("chunks at the same offset modulo 2^32 (%llu)", (unsigned long long)k), [=](Exec &x) { far(x, {1000, (k << 32) + 1000, ((k + 1) << 32) + 1000}, false, (k + 3) << 32); });
	return cases.size();
}

static Property prop = {
	.id = "C22",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &, u64) { return 0; },
	.describe = [](u64 n) { return cases[n].name; },
	.space = "stores of up to 4 chunks (thorough 5): all orders x all orders of lookups x scanned/side-loaded; all contents over three chunks up to length 6 (7) x 6 sequences of lookups of present "
	         "and missing chunks; stores of 0 to 70 (140), up to 900 and up to 70000 chunks in 6 orders x 7 orders of lookups; 1 to 40 (80) stores; the target as a store: all ways in which up to 7 (8) entries "
	         "can repeat x orders of ids x lengths of the correct leading part, and up to 8400 entries; chunks around 2^31, 2^32, 2^33 and 2^40 of side-loaded stores, stores of more than 4 GiB that are "
	         "scanned, images of more than 4 GiB",
	.bounds = "every element of the space is executed",
	.timeout_s = 300,
};
static RegisterProperty reg(&prop);
