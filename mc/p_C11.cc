// Decoding of response bodies: independence of the arrival, rejection of everything else, no traces.
#include "chains.h"
#define ZSTD_STATIC_LINKING_ONLY
#include <zstd.h>

static Alpha *al;

// a body for chunk content `want`; `body` is what the server sends (before encryption)
struct Item { std::string name; Bytes want, body; int verdict; /* 1 valid, 0 must be refused, -1 either */ };
struct Group {
	std::string name;
	u64 n;
	std::function<void(Exec &, u64)> f;
	std::function<std::string(u64)> d;
};
static std::vector<Group> groups;
static std::vector<u64> first;
static u64 total;

static Group &find(u64 &n)
{
	size_t g = (size_t)(std::upper_bound(first.begin(), first.end(), n) - first.begin()) - 1;
	n -= first[g];
	return groups[g];
}

// what the body decodes to, all at once
static int judge(const Bytes &want, const Bytes &body)
{
	static ZSTD_DStream *z = ZSTD_createDStream();
	static Bytes out(600 * 1024);
	ZSTD_initDStream(z);
	ZSTD_inBuffer in = {body.data(), body.size(), 0};
	ZSTD_outBuffer o = {out.data(), out.size(), 0};
	bool err = false;
	bool some = false;
	// the content may be complete although what follows is broken; look at each frame and prefix
	auto full = [&]() { return o.pos >= want.size() && !memcmp(out.data(), want.data(), want.size()); };
	while (in.pos < in.size) {
		size_t r = ZSTD_decompressStream(z, &o, &in);
		if (ZSTD_isError(r)) {
			err = true;
			break;
		}
		some |= full();
		if (o.pos == o.size)
			break;
	}
	some |= full();
	(void)err;
	return some ? -1 : 0;
}

// three chunks, of which the second one is served with the item's body, cut as given; another store has that one, too
static void fetch(Exec &x, const Item &it, bool enc, const std::vector<u32> &cuts, u32 piece)
{
	World w(x);
	w.ix.p = SMALL;
	w.entry((*al)[2]);
	w.entry(it.want);
	w.entry((*al)[4]);
	w.entry((*al)[3]);
	Id mid = sha256(it.want);
	w.write_index();
	w.set_target({});
	int a = w.http("http://h/a", enc ? KEY0_HEX : nullptr);
	int b = w.http("http://h/b");
	w.policy = [](int, const Id &, int) { return A_HIT; };
	w.tweak = [&](HttpReply &r, int store, const Id &id) {
		if (store == a && id == mid) {
			r.body = enc ? ref_xchacha20(KEY0, id.data(), it.body) : it.body;
			r.cuts = cuts;
			r.max_piece = piece;
		} else if (store == a) {
			r.cuts = {3, 5};
		}
	};
	Result res = w.run();
	x.outcome(res.str());
	if (!res.ok()) {
		x.fail("%s, although every chunk is available", res.str().c_str());
		return;
	}
	std::string e = w.check_image();
	if (!e.empty()) {
		x.fail("%s", e.c_str());
		return;
	}
	std::vector<std::pair<int, Id>> want = {{a, sha256((*al)[2])}, {a, mid}}, got;
	for (auto &g : w.gets)
		got.push_back({g.store, g.id});
	bool refused = got.size() > 2 && got[2] == std::make_pair(b, mid);
	if (refused)
		want.push_back({b, mid});
	want.push_back({a, sha256((*al)[4])});
	want.push_back({a, sha256((*al)[3])});
	x.outcome(refused ? "refused" : "accepted");
	if (refused && it.verdict == 1) {
		x.fail("a valid body was refused");
		return;
	}
	if (!refused && it.verdict == 0) {
		x.fail("an invalid body was accepted");
		return;
	}
	if (got != want)
		x.fail("unexpected requests: %zu instead of %zu; a later valid chunk was not taken from the first response", got.size(), want.size());
}

static std::vector<u32> mask_cuts(u64 m)
{
	std::vector<u32> c;
	for (u32 i = 0; m; i++, m >>= 1)
		if (m & 1)
			c.push_back(i + 1);
	return c;
}

static void add(const std::string &n, u64 cnt, std::function<void(Exec &, u64)> f, std::function<std::string(u64)> d)
{
	if (!cnt)
		return;
	groups.push_back({n, cnt, f, d});
	first.push_back(total);
	total += cnt;
}
static std::string showcuts(const std::vector<u32> &c)
{
	std::string s = "cut at";
	for (u32 v : c)
		s += strf(" %u", v);
	return s;
}
// every split of the body
static void all_splits(const Item &it0, bool enc)
{
	auto it = std::make_shared<Item>(it0);
	u64 n = it->body.size() < 1 ? 1 : 1ull << (it->body.size() - 1);
	add(it->name, n, [=](Exec &x, u64 k) { fetch(x, *it, enc, mask_cuts(k), 16384); }, [=](u64 k) { return it->name + (enc ? "+enc: " : ": ") + showcuts(mask_cuts(k)); });
}
// every pair of cuts (including none and single ones) within [lo, hi), with a maximal piece
static void pair_cuts(const Item &it0, bool enc, u32 lo, u32 hi, u32 piece, u32 step = 1)
{
	auto it = std::make_shared<Item>(it0);
	hi = std::min<u32>(hi, (u32)it->body.size());
	if (lo < 1)
		lo = 1;
	u64 m = hi > lo ? (hi - lo + step - 1) / step : 0;
	auto cuts = [=](u64 k) {
		std::vector<u32> c;
		u32 a = (u32)(k % (m + 1)), b = (u32)(k / (m + 1));
		if (a)
			c.push_back(lo + (a - 1) * step);
		if (b > a)
			c.push_back(lo + (b - 1) * step);
		return c;
	};
	add(it->name, (m + 1) * (m + 1), [=](Exec &x, u64 k) {
		u64 a = k % (m + 1), b = k / (m + 1);
		if (b && b <= a) {
			x.skipped = true;
			return;
		}
		fetch(x, *it, enc, cuts(k), piece);
	}, [=](u64 k) { return it->name + (enc ? "+enc: " : ": ") + showcuts(cuts(k)) + strf(", pieces up to %u", piece); });
}
static void triple_cuts(const Item &it0, bool enc, u32 hi)
{
	auto it = std::make_shared<Item>(it0);
	hi = std::min<u32>(hi, (u32)it->body.size());
	std::vector<std::vector<u32>> v;
	for (u32 a = 1; a < hi; a++)
		for (u32 b = a + 1; b < hi; b++)
			for (u32 c = b + 1; c < hi; c++)
				v.push_back({a, b, c});
	auto sv = std::make_shared<std::vector<std::vector<u32>>>(v);
	add(it->name, v.size(), [=](Exec &x, u64 k) { fetch(x, *it, enc, (*sv)[k], 16384); }, [=](u64 k) { return it->name + (enc ? "+enc: " : ": ") + showcuts((*sv)[k]); });
}
static void pieces(const Item &it0, bool enc, const std::vector<u32> &sizes)
{
	auto it = std::make_shared<Item>(it0);
	auto sv = std::make_shared<std::vector<u32>>(sizes);
	add(it->name, sizes.size(), [=](Exec &x, u64 k) { fetch(x, *it, enc, {}, (*sv)[k]); }, [=](u64 k) { return it->name + (enc ? "+enc" : "") + strf(": pieces of %u", (*sv)[k]); });
}

static u64 prepare(const Tier &t)
{
	al = new Alpha();
	std::vector<Item> tiny, small, large;
	for (int z = 0; z < N_ZKIND; z++) {
		for (auto &w : {Bytes{'a'}, str("xyz"), rep(40, 'q')}) {
			Bytes b = zcompress(w, z);
			if (b.size() <= (t.thorough ? 14u : 13u))
				tiny.push_back({strf("%s of %zu bytes", zkind_name(z), w.size()), w, b, 1});
		}
		small.push_back({strf("%s of a chunk", zkind_name(z)), (*al)[0], zcompress((*al)[0], z), 1});
		Bytes text;
		for (int i = 0; i < 40; i++)
			text = cat({text, str(strf("line %d, ", i * i))});
		small.push_back({strf("%s of text", zkind_name(z)), text, zcompress(text, z), 1});
		small.push_back({strf("%s of zeroes", zkind_name(z)), rep(256 * 1024, 0), zcompress(rep(256 * 1024, 0), z), 1});
		large.push_back({strf("%s of 256 KiB", zkind_name(z)), fill(256 * 1024, 9), zcompress(fill(256 * 1024, 9), z), 1});
		large.push_back({strf("%s of 200000 bytes", zkind_name(z)), fill(200000, 8), zcompress(fill(200000, 8), z), 1});
		Bytes half = cat({fill(100000, 4), fill(100000, 4), rep(62144, 3)});
		large.push_back({strf("%s of 256 KiB, half of it repeated", zkind_name(z)), half, zcompress(half, z), 1});
	}
	std::set<Bytes> seen;
	for (auto &i : tiny)
		if (seen.insert(i.body).second)
			for (int enc = 0; enc < 2; enc++)
				all_splits(i, enc);
	// all splits of short bodies that are wrong: every truncation and bit flip
	seen.clear();
	for (auto &i : tiny) {
		if (!seen.insert(i.body).second || seen.size() > (t.thorough ? 6u : 3u))
			continue;
		auto wrong = [&](const std::string &n, const Bytes &b) {
			Item q = i;
			q.name += " " + n;
			q.body = b;
			q.verdict = judge(i.want, b);
			for (int enc = 0; enc < 2; enc++)
				all_splits(q, enc);
		};
		for (size_t n = 0; n < i.body.size(); n++)
			wrong(strf("cut to %zu", n), Bytes(i.body.begin(), i.body.begin() + (long)n));
		for (size_t o = 0; o < i.body.size(); o++)
			for (int bit = 0; bit < 8; bit += t.thorough ? 1 : 3) {
				Bytes b = i.body;
				b[o] ^= (u8)(1 << bit);
				wrong(strf("byte %zu bit %d flipped", o, bit), b);
			}
	}
	std::vector<u32> all;
	for (u32 i = 1; i <= 300; i++)
		all.push_back(i);
	seen.clear();
	for (auto &i : small) {
		if (!seen.insert(i.body).second)
			continue;
		for (int enc = 0; enc < 2; enc++) {
			bool big = i.want.size() > 1000;
			pieces(i, enc, all);
			if (i.body.size() < 800)
				pair_cuts(i, enc, 1, (u32)i.body.size(), 16384, big || (t.thorough ? false : enc || i.body.size() > 200) ? 3 : 1);
			triple_cuts(i, enc, big && !t.thorough ? 12 : 24);
		}
	}
	// wrong bodies of real chunks, with single cuts
	for (auto &i : small) {
		if (i.want != (*al)[0] && !t.thorough)
			continue;
		auto wrong = [&](const std::string &n, const Bytes &b) {
			Item q = i;
			q.name += " " + n;
			q.body = b;
			q.verdict = judge(i.want, b);
			for (int enc = 0; enc < 2; enc++) {
				pieces(q, enc, t.thorough ? std::vector<u32>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 50, 16384} : std::vector<u32>{1, 3, 5, 16384});
				if (b.size())
					pair_cuts(q, enc, 1, 6, 16384);
			}
		};
		for (size_t n = 0; n < i.body.size(); n++)
			if (i.body.size() < 1000)
				wrong(strf("cut to %zu", n), Bytes(i.body.begin(), i.body.begin() + (long)n));
		for (size_t o = 0; o < i.body.size() && i.body.size() < 1000; o++)
			for (int bit = 0; bit < 8; bit += t.thorough || o < 20 ? 1 : 4) {
				Bytes b = i.body;
				b[o] ^= (u8)(1 << bit);
				wrong(strf("byte %zu bit %d flipped", o, bit), b);
			}
		for (size_t n : {1u, 3u, 4u, 40u, 400u, 20000u})
			wrong(strf("%zu bytes of garbage in front", n), cat({fill(n, 5), i.body}));
		int z = 0;
		for (auto &other : {(*al)[1], (*al)[5], cat({(*al)[0], (*al)[0]}), cat({(*al)[0], Bytes{0}}), Bytes((*al)[0].begin(), (*al)[0].end() - 1), cat({Bytes{0}, (*al)[0]}), Bytes(), rep((*al)[0].size(), 0), rep(256 * 1024, 7), rep(256 * 1024 + 1, 7), cat({i.want, rep(256 * 1024 - i.want.size() % (256 * 1024), 0)})})
			if (other != i.want)
				wrong(strf("replaced by other data (%d)", z++), zcompress(other, Z_NORMAL));
		wrong("two frames", cat({i.body, zcompress((*al)[6], Z_NORMAL)}));
		wrong("followed by garbage", cat({i.body, fill(50, 3)}));
		wrong("after another frame", cat({zcompress((*al)[6], Z_NORMAL), i.body}));
		wrong("after an empty frame", cat({zcompress({}, Z_NORMAL), i.body}));
	}
	// chunks of the maximal size: cuts around everything of interest
	seen.clear();
	for (auto &i : large) {
		if (!seen.insert(i.body).second)
			continue;
		u32 n = (u32)i.body.size();
		for (int enc = 0; enc < 2; enc++) {
			pieces(i, enc, t.thorough ? std::vector<u32>{1, 2, 3, 5, 7, 17, 100, 1000, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 65536, 131071, 131072, 131073, 131074, 131075, 131076, 1000000}
			                          : std::vector<u32>{17, 1000, 4096, 16384, 16383, 131072, 131075, 1000000});
			pair_cuts(i, enc, n > (t.thorough ? 40 : 12) ? n - (t.thorough ? 40 : 12) : 1, n, 1000000);
			pair_cuts(i, enc, 1, t.thorough ? 24 : 8, 16384);
			if (n > 131072 + 20)
				pair_cuts(i, enc, 131072 - 4, 131072 + 16, 1000000, t.thorough ? 1 : 3);
		}
		for (u32 d : {1u, 2u, 3u, 4u, 5u, 100u, n / 2, n - 20, n - 3}) {
			Item q = i;
			q.name += strf(" cut by %u", d);
			q.body.resize(n - d);
			q.verdict = judge(q.want, q.body);
			for (int enc = 0; enc < 2; enc++)
				pieces(q, enc, {1000, 16384, 1000000});
		}
		for (u32 o = 20; o < n; o += n / (t.thorough ? 40 : 7)) {
			Item q = i;
			q.name += strf(" byte %u changed", o);
			q.body[o] ^= 0x55;
			q.verdict = judge(q.want, q.body);
			for (int enc = 0; enc < 2; enc++)
				pieces(q, enc, {1000, 16384, 1000000});
		}
	}
	return total;
}

static Property prop = {
	.id = "C11",
	.prepare = prepare,
	.run = [](Exec &x) {
		u64 n = x.scenario;
		Group &g = find(n);
		g.f(x, n);
	},
	.bound = [](const Tier &, u64) { return 0; },
	.describe = [](u64 n) {
		Group &g = find(n);
		return g.d(n);
	},
	.space = "bodies of 8 kinds of zstd frames x plain/encrypted: every one of the 2^(n-1) splits of bodies up to 13 (thorough: 14) bytes and of all their truncations and bit flips; chunk "
	         "sized bodies with every piece size up to 300, every pair of cuts, every triple within the header, all truncations and bit flips; 256 KiB chunks with cuts around block "
	         "borders and the end",
	.bounds = "every element of the space is decided; larger bodies: up to 3 cuts or equal pieces",
};
static RegisterProperty reg(&prop);
