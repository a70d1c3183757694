#include "chains.h"
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>

static bool thorough;
static Bytes big; // a long stream to take contents from

struct Case {
	std::string name;
	Params p;
	std::function<Bytes()> content;
	int mode;          // 0: whole reads, 1: choices at every read, 2: fixed piece size, 3: two pieces first
	u32 a = 0, b = 0;
	bool blk = false;
};
static std::vector<Case> cases;

static std::vector<u64> bounds_of(const Bytes &c, const Params &p) { return ref_chunks(c, p); }

static void run(Exec &x)
{
	Case &c = cases[x.scenario];
	Bytes L = c.content();
	std::vector<u64> cut = bounds_of(L, c.p);
	u64 pos = 0;
	for (u64 e : cut) {
		if (e - pos > 256 * 1024) {
			x.skipped = true;
			return;
		}
		pos = e;
	}
	std::set<Id> real;
	{
		// every chunk must be served
		World w(x);
		w.ix.p = c.p;
		pos = 0;
		for (u64 e : cut) {
			w.entry(Bytes(L.begin() + (long)pos, L.begin() + (long)e));
			real.insert(w.ix.e.back().id);
			pos = e;
		}
		w.write_index();
		w.set_target({});
		VF l = w.local("l", L, c.blk);
		w.stores.push_back("l");
		u64 nread = 0;
		x.env.io = [&](const IoReq &r) {
			IoAns a;
			if (r.f != l.get() || r.op != Op::Read || !r.len || r.off >= L.size())
				return a;
			u64 avail = std::min<u64>(r.len, L.size() - r.off);
			u64 n = avail;
			nread++;
			switch (c.mode) {
			case 1: {
				static const u64 S[] = {0, 1, 2, 47, 48, 49, 64, 100};
				int k = x.choose(11, 1);
				if (k == 8) {
					a.k = IoAns::Err;
					a.err = EINTR;
					return a;
				}
				if (k == 9)
					n = avail - 1;
				else if (k == 10)
					n = avail / 2;
				else if (k)
					n = S[k];
				break;
			}
			case 2: n = c.a; break;
			case 3: n = nread == 1 ? c.a : nread == 2 ? c.b : avail; break;
			}
			if (n && n < avail) {
				a.k = IoAns::Short;
				a.n = n;
			}
			return a;
		};
		Result res = w.run();
		x.env.io = nullptr;
		x.outcome(res.str());
		if (!res.ok()) {
			x.fail("the store does not serve all of its %zu chunks: %s", cut.size(), res.str().c_str());
			return;
		}
		if (w.target->content() != L) {
			x.fail("the target does not hold the store's content");
			return;
		}
	}
	if (c.mode)
		return;
	// nothing else is served: pieces with moved boundaries
	World w(x);
	w.ix.p = c.p;
	pos = 0;
	Id prev{};
	std::vector<Id> want;
	size_t n = 0;
	auto piece = [&](u64 a, u64 b) {
		if (b <= a || b > L.size() || b - a > 200 * 1024)
			return;
		Bytes d(L.begin() + (long)a, L.begin() + (long)b);
		Id i = sha256(d);
		if (real.count(i) || i == prev)
			return;
		prev = i;
		w.entry(d);
		want.push_back(i);
	};
	for (size_t k = 0; k < cut.size() && n < 12; k++, n++) {
		u64 e = cut[k];
		piece(pos, e - 1);
		piece(pos, e + 1);
		piece(pos + 1, e);
		if (k + 1 < cut.size())
			piece(pos, cut[k + 1]);
		if (e - pos > 48)
			piece(pos, pos + 48);
		pos = e;
	}
	if (want.empty())
		return;
	w.write_index();
	w.set_target({});
	w.local("l", L, c.blk);
	w.stores.push_back("l");
	w.http("http://h/s");
	w.https[0].zkind = Z_RAW;
	Result res = w.run();
	x.outcome(res.str());
	if (!res.ok()) {
		x.fail("%s", res.str().c_str());
		return;
	}
	for (size_t i = 0; i < want.size(); i++)
		if (i >= w.gets.size() || w.gets[i].id != want[i]) {
			x.fail("the store serves piece %zu (%llu bytes), which is not a chunk", i,
			       (unsigned long long)(w.ix.e[i].end - (i ? w.ix.e[i - 1].end : 0)));
			return;
		}
}

// compare the reference with the original casync, where it is available
static void validate()
{
	char dir[] = "/tmp/mc-casync-XXXXXX";
	if (access("/usr/bin/casync", X_OK) != 0 || !mkdtemp(dir))
		return;
	std::string d = dir;
	int n = 0, compared = 0;
	static const Params PS[] = {{1024, 4096, 16384}, {16384, 65536, 262144}, {48, 96, 200}, {64, 128, 256}, {256, 1000, 5000}, {100, 65537, 200000}, {1, 2, 48}, {49, 50, 51}, {100, 120, 140}, {150, 153, 253}, {200, 220, 240}, {60000, 65536, 262144}};
	for (const Params &p : PS)
		for (u64 size : {1ull, 47ull, 48ull, 49ull, 8192ull, 300000ull, 1000000ull}) {
			if (p.max < 1000 && size > 10000)
				continue;
			Bytes b = fill(size, 50 + (u64)n);
			n++;
			std::string f = d + "/f", ix = d + "/f.caibx";
			FILE *o = fopen(f.c_str(), "w");
			if (!o || fwrite(b.data(), 1, b.size(), o) != b.size())
				abort();
			fclose(o);
			std::string cmd = strf("cd %s && rm -rf %s/f.caibx %s/st.castr && casync make --digest=sha256 --chunk-size=%llu:%llu:%llu --store=%s/st.castr %s/f.caibx %s/f >/dev/null 2>&1", d.c_str(), d.c_str(), d.c_str(),
			                       (unsigned long long)p.min, (unsigned long long)p.avg, (unsigned long long)p.max, d.c_str(), d.c_str(), d.c_str());
			if (system(cmd.c_str()) != 0)
				continue;
			Bytes got;
			FILE *in = fopen(ix.c_str(), "r");
			if (!in)
				continue;
			u8 buf[4096];
			size_t k;
			while ((k = fread(buf, 1, sizeof(buf), in)) > 0)
				got.insert(got.end(), buf, buf + k);
			fclose(in);
			Ix have;
			if (ref_index(got, &have) != IxVerdict::Good) {
				fprintf(stderr, "reference index parser rejects an index made by casync\n");
				exit(2);
			}
			std::vector<u64> cut = ref_chunks(b, have.p);
			u64 pos = 0;
			bool same = cut.size() == have.e.size();
			for (size_t i = 0; same && i < cut.size(); i++) {
				same = have.e[i].end == cut[i] && have.e[i].id == sha256(b.data() + pos, cut[i] - pos);
				pos = cut[i];
			}
			if (!same) {
				for (size_t i = 0; i < cut.size() && i < have.e.size(); i++)
					if (cut[i] != have.e[i].end) {
						fprintf(stderr, "chunk %zu ends at %llu, %llu expected; previous %llu; params %llu %llu %llu; %zu %zu\n", i, (unsigned long long)have.e[i].end, (unsigned long long)cut[i], i ? (unsigned long long)cut[i-1] : 0, (unsigned long long)have.p.min, (unsigned long long)have.p.avg,(unsigned long long)have.p.max, cut.size(), have.e.size());
						break;
					}
				fprintf(stderr, "reference chunker differs from casync for %llu bytes with %llu:%llu:%llu\n", (unsigned long long)size,
				        (unsigned long long)p.min, (unsigned long long)p.avg, (unsigned long long)p.max);
				exit(2);
			}
			compared++;
		}
	if (system(strf("rm -rf %s", d.c_str()).c_str()) != 0)
		abort();
	printf("reference chunker: same index as casync in %d of %d cases\n", compared, n);
}

static Bytes take(u64 off, u64 n) { return Bytes(big.begin() + (long)off, big.begin() + (long)(off + n)); }

static u64 prepare(const Tier &t)
{
	thorough = t.thorough;
	validate();
	big = fill(6000000, 77);
	static const Params GRID[] = {{0, 2, 3}, {0, 2, 49}, {1, 2, 48}, {46, 47, 48}, {47, 48, 49}, {48, 49, 50}, {49, 50, 51}, {16, 64, 128}, {64, 128, 256},
		{64, 256, 1024}, {48, 96, 97}, {100, 101, 300}, {1, 300, 301}, {50, 60, 5000}, {1000, 1001, 1002}, {8191, 8192, 8193}, {8000, 9000, 20000}, {100, 120, 400}, {60000, 65536, 262144}};
	std::vector<u64> lens;
	for (u64 i = 0; i <= 300; i++)
		lens.push_back(i);
	for (u64 b : {512ull, 1024ull, 4096ull, 8192ull, 8192ull + 48, 16384ull, 24576ull})
		for (int d = -2; d <= 2; d++)
			lens.push_back(b + (u64)d);
	if (thorough)
		for (u64 i = 301; i < 1400; i++)
			lens.push_back(i);
	int seed = 0;
	for (const Params &p : GRID)
		for (u64 n : lens) {
			u64 o = (u64)(seed++ * 911) % 5000000;
			if (p.max > 5000 && n < 300 && n % 50 > 2 && !thorough)
				continue;
			cases.push_back({strf("%llu random bytes", (unsigned long long)n), p, [=] { return take(o, n); }, 0});
		}
	// patterns
	for (const Params &p : GRID)
		for (int per : {1, 2, 3, 5, 24, 47, 48, 49, 96, 97})
			for (u64 n : {100ull, 1000ull, 8192ull, 9001ull}) {
				if (!thorough && n == 1000)
					continue;
				cases.push_back({strf("%llu bytes with period %d", (unsigned long long)n, per), p, [=] {
					Bytes b(n);
					for (u64 i = 0; i < n; i++)
						b[i] = big[(u64)(per * 100) + i % (u64)per];
					return b;
				}, 0});
			}
	for (int v = 0; v < 256; v++)
		for (const Params &p : {Params{16, 64, 128}, Params{64, 65, 300}})
			cases.push_back({strf("2000 bytes of %02x", v), p, [=] { return rep(2000, (u8)v); }, 0});
	// all contents over two symbols behind (and inside of) the first window
	int bits = thorough ? 14 : 11;
	for (const Params &p : {Params{1, 4, 64}, Params{50, 52, 60}})
		for (u32 m = 0; m < (1u << bits); m++)
			cases.push_back({strf("two symbols %x", m), p, [=] {
				Bytes b = take(3, 44);
				for (int i = 0; i < bits; i++)
					b.push_back(m >> i & 1 ? 0xc1 : 0x00);
				Bytes c = take(100, 70);
				b.insert(b.end(), c.begin(), c.end());
				return b;
			}, 0});
	// every kind of average size: content with a natural cut for that average, found with the reference
	std::vector<u64> avgs;
	for (u64 a = 2; a < 300; a++)
		avgs.push_back(a);
	for (double a = 300; a < 9324556; a *= thorough ? 1.003 : 1.02)
		avgs.push_back((u64)a);
	for (u64 k = 9; k < 24; k++)
		for (int d = -1; d <= 1; d++)
			if ((1ull << k) + (u64)d <= 9324556)
				avgs.push_back((1ull << k) + (u64)d);
	for (u64 a : {65535ull, 65536ull, 65537ull, 9324550ull, 9324554ull, 9324555ull, 9324556ull})
		avgs.push_back(a);
	for (u64 a : avgs)
		cases.push_back({strf("natural cut for average %llu", (unsigned long long)a), {1, a, a + 400}, [=]() -> Bytes {
			// where does the first natural cut lie?
			for (u64 w = 0; w + 40000 <= big.size(); w += 40000 - 48) {
				Bytes part = take(w, std::min<u64>(40000, big.size() - w));
				Params q = {1, a, 1000000};
				if (a >= q.max)
					q.max = a + 1;
				std::vector<u64> c = ref_chunks(part, q);
				if (c[0] < part.size() && c[0] >= 48) {
					u64 s = c[0] > 400 ? c[0] - 400 : 0;
					return Bytes(part.begin() + (long)s, part.begin() + (long)std::min<u64>(part.size(), c[0] + 300));
				}
			}
			return take(0, 500);
		}, 0});
	// default parameters on longer content
	for (u64 n : {16383ull, 16384ull, 16385ull, 100000ull, 262143ull, 262144ull, 262145ull, 700000ull})
		cases.push_back({strf("%llu random bytes", (unsigned long long)n), DEFAULT_PARAMS, [=] { return take(n, n); }, 0});
	cases.push_back({"3 MB of random bytes", DEFAULT_PARAMS, [] { return take(0, 3000000); }, 0});
	for (u8 v : {0x00, 0xff})
		cases.push_back({strf("600000 bytes of %02x", v), DEFAULT_PARAMS, [=] { return rep(600000, v); }, 0});
	for (u64 a : {65535ull, 65537ull})
		cases.push_back({"neighbours of the default average", {16384, a, 262144}, [=] { return take(0, 800000); }, 0});
	// block devices
	for (u64 n : {0ull, 100ull, 5000ull, 8192ull, 20000ull}) {
		cases.push_back({strf("block device of %llu bytes", (unsigned long long)n), SMALL, [=] { return take(n, n); }, 0});
		cases.back().blk = true;
	}
	// how the content arrives
	for (const Params &p : {SMALL, Params{16, 64, 128}, Params{1, 2, 48}, Params{47, 48, 49}, Params{50, 60, 5000}, Params{64, 1024, 4096}})
		for (u64 n : {47ull, 48ull, 49ull, 200ull, 1000ull, 8192ull, 8193ull, 8300ull, 17000ull})
			cases.push_back({strf("%llu random bytes in choices of pieces", (unsigned long long)n), p, [=] { return take(n * 13, n); }, 1});
	for (const Params &p : {SMALL, Params{1, 2, 48}, Params{64, 1024, 4096}})
		for (u32 a = 1; a <= (thorough ? 600u : 150u); a++) {
			cases.push_back({strf("900 bytes in pieces of %u", a), p, [=] { return take(a, 900); }, 2, a});
			cases.push_back({strf("9000 bytes in pieces of %u", 8192 - a), p, [=] { return take(a, 9000); }, 2, 8192 - a});
		}
	u32 lim = thorough ? 160 : 70;
	for (u32 a = 1; a <= lim; a++)
		for (u32 b = 1; b <= lim; b++)
			cases.push_back({strf("300 bytes, first pieces %u and %u", a, b), SMALL, [=] { return take(1, 300); }, 3, a, b});
	return (u64)cases.size();
}

static Property prop = {
	.id = "C08",
	.prepare = prepare,
	.run = run,
	.bound = [](const Tier &t, u64 n) { return cases[n].mode == 1 ? (t.thorough ? 3 : 2) : 0; },
	.describe = [](u64 n) {
		Case &c = cases[n];
		return strf("store: %s, chunk sizes %llu:%llu:%llu", c.name.c_str(), (unsigned long long)c.p.min, (unsigned long long)c.p.avg, (unsigned long long)c.p.max);
	},
	.space = "17 sets of chunk size parameters x all lengths up to 300 (thorough: 1400) and around buffer boundaries, periodic and constant contents, all contents over two "
	         "symbols around the first window, contents with a natural cut for over 1000 average sizes; all pairs of first piece sizes, fixed piece sizes; choices: short and interrupted reads",
	.bounds = "read deviations per scan: 2 (quick), 3 (thorough)",
};
static RegisterProperty reg(&prop);
