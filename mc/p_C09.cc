#include "chains.h"

static Alpha *al;
static std::map<u64, Bytes *> lens; // chunks of other lengths
static Bytes *bigc; // a chunk of the maximal size

struct Case { std::string name; Bytes b; int base; };
static std::vector<Case> cases;
static std::vector<Ix> bases;
static std::vector<std::string> base_name;

static void run(Exec &x)
{
	Case &c = cases[x.scenario];
	World w(x);
	for (int i = 0; i < 8; i++)
		w.chunk((*al)[i]);
	w.chunk(*bigc);
	for (auto &l : lens)
		w.chunk(*l.second);
	w.ixb = c.b;
	x.env.add("i.caibx", c.b)->role = 1;
	w.set_target(fill(50, 2));
	switch (x.choose(3, 0)) {
	case 1: w.stores.push_back("t"); break;
	case 2: x.env.add("l", fill(13, 3)); w.stores.push_back("l"); break; // smaller than any chunk
	}
	w.http("http://h/s");
	Bytes before = w.target->content();
	Result res = w.run();
	x.outcome(res.str());
	if (res.end != End::Exit) {
		x.fail("%s", res.str().c_str());
		return;
	}
	Ix i;
	std::string why;
	IxVerdict v = ref_index(c.b, &i, &why);
	bool wrote = false;
	for (auto &e : x.ev)
		if ((e.op == Op::Write || e.op == Op::Pwrite || e.op == Op::Ftruncate) && e.f && e.ret >= 0)
			wrote = true;
	if (v == IxVerdict::Bad) {
		if (res.ok()) {
			x.fail("accepted, although the index is malformed (%s)", why.c_str());
			return;
		}
		if (why != "entry bounds") {
			if (wrote || w.target->content() != before)
				x.fail("wrote to the target, although the index is malformed (%s)", why.c_str());
			if (!w.gets.empty())
				x.fail("requested a chunk, although the index is malformed (%s)", why.c_str());
		}
		return;
	}
	bool have = true;
	u64 pos = 0;
	for (auto &e : i.e) {
		const Bytes *d = w.dict.get(e.id);
		if (!d || d->size() != e.end - pos)
			have = false;
		if (e.end - pos > 256 * 1024)
			have = false;
		pos = e.end;
	}
	if (have != res.ok()) {
		x.fail("%s, expected %s of this well-formed index", res.str().c_str(), have ? "acceptance" : "failure");
		return;
	}
	if (res.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("%s", e.c_str());
	}
}

static u64 prepare(const Tier &t)
{
	al = new Alpha();
	bigc = new Bytes(fill(256 * 1024, 31));
	auto mk = [&](const char *s) {
		Ix i;
		i.p = SMALL;
		for (int k : digits(s))
			i.add((*al)[k].size(), sha256((*al)[k]));
		return i;
	};
	for (const char *s : {"ABC", "", "A", "AAB"}) {
		bases.push_back(mk(s));
		base_name.push_back(s);
	}
	{
		Ix i;
		i.p = DEFAULT_PARAMS;
		i.add(bigc->size(), sha256(*bigc));
		i.add((*al)[0].size(), sha256((*al)[0]));
		bases.push_back(i);
		base_name.push_back("chunk of 256 KiB, A");
	}
	// chunks of any length from one byte on, at any place
	for (u64 n : {1ull, 2ull, 47ull, 48ull, 49ull, 63ull, 64ull, 65ull, 255ull, 256ull, 257ull, 1000ull, 65536ull, 262143ull, 262144ull})
		for (int at = 0; at < 3; at++) {
			Ix i;
			i.p = SMALL;
			for (int k = 0; k < 3; k++) {
				const Bytes &b = k == at ? *(lens[n] = new Bytes(fill(n, 32))) : (*al)[k];
				i.add(b.size(), sha256(b));
			}
			cases.push_back({strf("entry %d of %llu bytes", at, (unsigned long long)n), i.bytes(), 0});
		}
	static const u64 MENU[] = {0, 1, 2, 0x28, 0x2f, 0x30, 0x31, 0x38, 0x40, 0x58, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001,
		0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff0, 0xffffffffffffffff, 0x96824d9c7b129ff9, 0xe75b9e112f17417d, 0x4b4f050e5549ecd1,
		0xd000000000000000, 0x9000000000000000, 0xb000000000000000, 0x2000000000000000, 0x5000000000000000, 0xc000000000000000, 0x1000000000000000, 0x4000000000000000,
		0xd000000000000001, 0xf000000000000000, 0xd800000000000000, 9324555, 9324556, 9324557, 262143, 262144, 262145};
	auto field = [](Bytes &b, size_t o, u64 v) {
		for (int i = 0; i < 8; i++)
			b[o + (size_t)i] = (u8)(v >> (8 * i));
	};
	auto get = [](const Bytes &b, size_t o) {
		u64 v = 0;
		for (int i = 7; i >= 0; i--)
			v = v << 8 | b[o + (size_t)i];
		return v;
	};
	for (int k = 0; k < (int)bases.size(); k++) {
		Bytes g = bases[(size_t)k].bytes();
		cases.push_back({"unchanged", g, k});
		for (size_t n = 0; n < g.size(); n++)
			cases.push_back({strf("truncated to %zu bytes", n), Bytes(g.begin(), g.begin() + (long)n), k});
		for (size_t n = 1; n <= 90; n++) {
			cases.push_back({strf("%zu zero bytes appended", n), cat({g, rep(n, 0)}), k});
			cases.push_back({strf("%zu bytes of the tail repeated", n), cat({g, Bytes(g.end() - (long)std::min(n, g.size()), g.end())}), k});
		}
		for (size_t o = 0; o < g.size(); o += 8) {
			std::vector<u64> vals(MENU, MENU + sizeof(MENU) / sizeof(*MENU));
			u64 old = get(g, o);
			for (u64 d : {1ull, 2ull, 40ull, 0x100000000ull, 1ull << 56, 1ull << 63}) {
				vals.push_back(old + d);
				vals.push_back(old - d);
			}
			vals.push_back(~old);
			vals.push_back(__builtin_bswap64(old));
			for (u64 v : vals) {
				Bytes b = g;
				field(b, o, v);
				if (v != old)
					cases.push_back({strf("u64 at %zu is %llx", o, (unsigned long long)v), b, k});
			}
		}
		for (size_t o = 0; o < g.size(); o++)
			for (int v = 0; v < 256; v++) {
				int old = g[o];
				bool bit = __builtin_popcount((unsigned)(v ^ old)) == 1;
				if (v == old || (!t.thorough && !bit && v != 0 && v != 255))
					continue;
				Bytes b = g;
				b[o] = (u8)v;
				cases.push_back({strf("byte %zu is %02x", o, v), b, k});
			}
		// whole entries moved, removed, doubled
		size_t n = bases[(size_t)k].e.size();
		for (size_t i = 0; i < n; i++)
			for (size_t j = 0; j < n; j++) {
				Ix m = bases[(size_t)k];
				if (i != j) {
					std::swap(m.e[i], m.e[j]);
					cases.push_back({strf("entries %zu and %zu swapped", i, j), m.bytes(), k});
					m = bases[(size_t)k];
					m.e[i].end = m.e[j].end;
					cases.push_back({strf("entry %zu ends where %zu ends", i, j), m.bytes(), k});
				}
				m = bases[(size_t)k];
				m.e.insert(m.e.begin() + (long)i, m.e[j]);
				cases.push_back({strf("entry %zu inserted at %zu", j, i), m.bytes(), k});
			}
		// the tail's fields do not match the table
		for (int d : {-80, -40, -39, -1, 1, 39, 40, 80}) {
			Ix m = bases[(size_t)k];
			m.auto_size = false;
			m.size = 16 + 40 * (n + 1) + (u64)(i64)d;
			cases.push_back({strf("table size off by %d", d), m.bytes(), k});
		}
		// pairs of fields
		static const u64 FEW[] = {0, 1, 0x30, 0x58, 0xffffffffffffffff, 0x100000000, 0x4b4f050e5549ecd1, 0x96824d9c7b129ff9};
		if (t.thorough || k == 1 || k == 2)
			for (size_t o = 0; o < g.size(); o += 8)
				for (size_t q = o + 8; q < g.size(); q += 8)
					for (u64 u : FEW)
						for (u64 v : FEW) {
							Bytes b = g;
							field(b, o, u);
							field(b, q, v);
							cases.push_back({strf("u64 at %zu is %llx, at %zu %llx", o, (unsigned long long)u, q, (unsigned long long)v), b, k});
						}
	}
	// all combinations of chunk sizes
	static const u64 PM[] = {0, 1, 2, 3, 47, 48, 64, 128, 256, 65536, 262144, 9324555, 9324556, 9324557, 0x7fffffff, 0xffffffff, 0x100000000, 1ull << 63, ~0ull};
	for (u64 a : PM)
		for (u64 b : PM)
			for (u64 c : PM) {
				Ix m = bases[0];
				m.p = {a, b, c};
				cases.push_back({strf("chunk sizes %llu:%llu:%llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c), m.bytes(), 0});
			}
	// indices with many entries
	for (size_t n : {100u, 255u, 256u, 257u, 1000u, 4096u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u}) {
		Ix m;
		m.p = SMALL;
		for (size_t i = 0; i < n; i++) {
			int k = (int)(n > 1000 ? i / 1000 % 3 : i % 3);
			static std::map<int, Id> id;
			if (!id.count(k))
				id[k] = sha256((*al)[k]);
			m.add((*al)[k].size(), id[k]);
		}
		auto add = [&](const std::string &what, const Bytes &b) { cases.push_back({strf("%zu entries, %s", n, what.c_str()), b, 0}); };
		Bytes g = m.bytes();
		add("unchanged", g);
		m.auto_size = false;
		for (i64 d : {-40, 40, -65536 * 40, 65536 * 40}) {
			m.size = 16 + 40 * (n + 1) + (u64)d;
			add(strf("table size off by %lld", (long long)d), m.bytes());
		}
		for (size_t o = 0; o < 40; o += 8) {
			Bytes b = g;
			b[g.size() - 40 + o] ^= 0x10;
			add(strf("byte %zu of the tail changed", o), b);
		}
		for (size_t cut : {1u, 8u, 40u, 80u})
			if (n < 5000 || cut == 40)
				add(strf("%zu bytes missing", cut), Bytes(g.begin(), g.end() - (long)cut));
		add("a tail too many", cat({g, Bytes(g.end() - 40, g.end())}));
		// a table entry that looks like the tail, and the tail's place being taken by an entry
		if (n > 65536) {
			Bytes b = g;
			std::copy(g.end() - 40, g.end(), b.begin() + 64 + (long)(n - 65536) * 40);
			std::copy(g.begin() + 64, g.begin() + 104, b.end() - 40);
			add("the tail 65536 entries too early", b);
		}
		for (size_t at : {(size_t)0, (size_t)1, n / 2, (size_t)255, (size_t)256, (size_t)32768, (size_t)65535, (size_t)65536, n - 1})
			if (at < n && (n < 5000 || at)) {
				Bytes b = g;
				field(b, 64 + 40 * at, at ? get(g, 64 + 40 * (at - 1)) : 0);
				add(strf("entry %zu empty", at), b);
			}
	}
	return (u64)cases.size();
}

static Property prop = {
	.id = "C09",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &, u64) { return 0; },
	.describe = [](u64 n) { return strf("index [%s]: %s", base_name[(size_t)cases[n].base].c_str(), cases[n].name.c_str()); },
	.space = "5 base indices x every truncation, 90 extensions, every u64 field over a menu of 58 values, every byte (quick: bit flips, 00, ff; thorough: all values), pairs of "
	         "fields, permutations of entries; indices of up to 70000 entries; all combinations of 19 values of the three chunk sizes; with one HTTP store, the target as a further store, or a small file as a further store",
	.bounds = "none; every index of the space is decided",
};
static RegisterProperty reg(&prop);
