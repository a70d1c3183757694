// Retries, pauses and the error budget of HTTP stores.
#include "chains.h"
#include <curl/curl.h>

static bool thorough;
struct Scen {
	int kind;        // 0 patterns, 1 attempts of one chunk, 2 partial bodies, 3 status codes, 4 transfer errors
	int a = 0, b = 0, c = 0, d = 0;
};
static std::vector<Scen> scens;

// ---- base patterns: the default answer to the n-th *chunk* of a store, attempt `t` of it
struct Pat { const char *name; std::function<int(int chunk, int t)> f; };
static std::vector<Pat> pats;
static std::vector<int> MENU, FEW;
// patterns with retries make long executions
static bool longpat(int p) { return p == 1 || (p >= 11 && p <= 15); }
static int pbound(const Scen &s);
static const int NCH = 14;

static std::string pauses(World &w)
{
	// between two attempts for the same chunk
	u64 prev = 0, start = 0;
	for (size_t i = 0; i + 1 < w.gets.size(); i++) {
		Get &g = w.gets[i], &n = w.gets[i + 1];
		bool retry = ans_transient(g.ans) && n.store == g.store && n.id == g.id;
		if (!retry) {
			prev = 0;
			continue;
		}
		u64 p = 0;
		for (u64 k = g.ev + 1; k < n.ev; k++)
			if (w.x.ev[k].op == Op::Sleep)
				p += w.x.ev[k].off;
		if (!p)
			return strf("no pause between attempts (request %zu)", i + 1);
		if (p > 10500000)
			return strf("a pause of %llu us, more than ten seconds (request %zu)", (unsigned long long)p, i + 1);
		if (prev) {
			u64 want = std::min<u64>(2 * prev, 10000000);
			if (p < want * 9 / 10 || p > want * 11 / 10)
				return strf("a pause of %llu us follows one of %llu us (request %zu)", (unsigned long long)p, (unsigned long long)prev, i + 1);
		} else if (!start) {
			start = p;
		} else if (p < start * 9 / 10 || p > start * 11 / 10) {
			return strf("the first pause of a download is %llu us, that of an earlier one %llu us (request %zu)", (unsigned long long)p, (unsigned long long)start, i + 1);
		}
		prev = p;
	}
	return "";
}

static void judge(Exec &x, World &w, std::vector<RefStore> ref, const Bytes &before)
{
	RefOut o = ref_chain(w, ref, before);
	x.outcome(w.res.ok() ? "success" : w.res.failed() ? "failure" : w.res.str());
	if (!o.mismatch.empty())
		x.fail("%s", o.mismatch.c_str());
	else if (w.res.end != End::Exit)
		x.fail("%s", w.res.str().c_str());
	else if (!o.unsure && w.res.ok() != o.success)
		x.fail("%s, expected %s", w.res.str().c_str(), o.success ? "success" : "failure");
	else {
		std::string p = pauses(w);
		if (p.empty() && w.res.ok())
			p = w.check_image();
		if (!p.empty())
			x.fail("%s", p.c_str());
	}
}

static RefStore rhttp(int h)
{
	RefStore r;
	r.k = RefStore::HTTP;
	r.http = h;
	return r;
}

static int pbound(const Scen &s)
{
	if (longpat(s.a))
		return thorough && s.b < 2 ? 2 : 1;
	return thorough ? 3 - (s.b > 1) : 1 + (s.b < 2);
}

static const char *chain_name[] = {"H", "H,H2", "H,H3,H2", "H+enc,H2", "L,H,H2"};

static void patterns(Exec &x, const Scen &s)
{
	World w(x);
	w.ix.p = SMALL;
	std::vector<Id> ids;
	for (int i = 0; i < NCH; i++) {
		w.entry(fill(64 + (u64)i, 100 + (u64)i));
		ids.push_back(w.ix.e.back().id);
	}
	w.write_index();
	w.set_target({});
	std::vector<RefStore> ref;
	if (s.b == 4) {
		Alpha al;
		w.local("l", al[0]);
		w.stores.push_back("l");
		RefStore r;
		r.k = RefStore::LOCAL;
		ref.push_back(r);
	}
	int h = w.http("http://h/a", s.b == 3 ? KEY0_HEX : nullptr);
	ref.push_back(rhttp(h));
	int h3 = s.b == 2 ? w.http("http://h/c") : -1;
	if (h3 >= 0)
		ref.push_back(rhttp(h3));
	if (s.b)
		ref.push_back(rhttp(w.http("http://h/b")));
	const std::vector<int> &menu = pbound(s) > (thorough ? 2 : 1) ? FEW : MENU;
	std::map<Id, int> no;
	for (int i = 0; i < NCH; i++)
		no[ids[(size_t)i]] = i;
	w.policy = [&](int store, const Id &id, int nth) {
		if (store == h3)
			return pats[0].f(no[id], nth);
		if (store != h)
			return (int)A_HIT;
		int def = pats[(size_t)s.a].f(no[id], nth);
		int k = x.choose((int)menu.size() + 1, 1);
		if (!k)
			return def;
		if (menu[(size_t)k - 1] == def) {
			x.skipped = true;
			return def;
		}
		return menu[(size_t)k - 1];
	};
	w.run();
	judge(x, w, ref, {});
}

// every sequence of attempts of one chunk in the middle of others
static const int ATT[] = {A_CONN, A_TIMEOUT_MID, A_TIMEOUT_END, A_RESOLVE, A_TIMEOUT};
static const int FIN[] = {A_HIT, A_404, A_500, A_FATAL_MID, A_WRONG, A_FATAL};
static void attempts(Exec &x, const Scen &s)
{
	World w(x);
	w.ix.p = SMALL;
	for (int i = 0; i < 4; i++)
		w.entry(fill(64 + (u64)i, 100 + (u64)i));
	Id mid = w.ix.e[1].id;
	w.write_index();
	w.set_target({});
	int h = w.http("http://h/a", s.b ? KEY0_HEX : nullptr);
	w.http("http://h/b");
	int nt = s.a, nf = s.c;
	w.policy = [&](int store, const Id &id, int) -> int {
		if (store != h || id != mid)
			return A_HIT;
		int k = x.choose(nt + nf, 0);
		return k < nt ? ATT[k] : FIN[k - nt];
	};
	w.tweak = [&](HttpReply &r, int, const Id &) { r.max_piece = s.d ? 7 : 16384; };
	w.run();
	judge(x, w, {rhttp(0), rhttp(1)}, {});
}

// attempts that stop after any number of bytes, followed by a good one
static void partial(Exec &x, const Scen &s)
{
	World w(x);
	w.ix.p = SMALL;
	for (int i = 0; i < 3; i++)
		w.entry(fill(s.c ? 64 + (u64)i : 130, 100 + (u64)i));
	Id mid = w.ix.e[1].id;
	w.write_index();
	w.set_target({});
	int h = w.http("http://h/a", s.b ? KEY0_HEX : nullptr);
	w.policy = [&](int, const Id &id, int nth) -> int {
		if (id != mid)
			return A_HIT;
		return nth < s.d ? A_TIMEOUT_MID : A_HIT;
	};
	int n = 0;
	w.tweak = [&](HttpReply &r, int, const Id &id) {
		static const u32 P[] = {16384, 1, 3, 64};
		r.max_piece = P[s.a % 4];
		if (id == mid && n++ < s.d) {
			r.post_at = (u64)x.choose((int)r.body.size() + 1, 0);
		}
	};
	(void)h;
	w.run();
	judge(x, w, {rhttp(0)}, {});
}

// one status for many chunks in a row
static void statuses(Exec &x, const Scen &s)
{
	World w(x);
	w.ix.p = SMALL;
	for (int i = 0; i < 14; i++)
		w.entry(fill(64 + (u64)i, 100 + (u64)i));
	w.write_index();
	w.set_target({});
	int h = w.http("http://h/a", s.c ? KEY0_HEX : nullptr);
	w.http("http://h/b");
	w.policy = [&](int store, const Id &, int) -> int { return store == h ? A_500 : A_HIT; };
	w.tweak = [&](HttpReply &r, int store, const Id &) {
		if (store == h) {
			r.status = s.a;
			r.body = s.b == 0 ? Bytes() : s.b == 1 ? str("some text as an explanation") : zcompress(fill(10, 1));
			r.max_piece = s.b == 2 ? 2 : 16384;
		}
	};
	Result res = w.run();
	x.outcome(res.str());
	if (!res.ok()) {
		x.fail("%s, although the second store has everything", res.str().c_str());
		return;
	}
	int n = 0;
	for (auto &g : w.gets)
		n += g.store == h;
	bool err = s.a >= 400 && s.a != 404 && s.a != 410;
	int want = err ? 11 : 14;
	if (n != want)
		x.fail("%d requests to a store that answers %d to everything, expected %d", n, s.a, want);
}

// one transfer error
static void transfer(Exec &x, const Scen &s)
{
	World w(x);
	w.ix.p = SMALL;
	for (int i = 0; i < 4; i++)
		w.entry(fill(64 + (u64)i, 100 + (u64)i));
	w.write_index();
	w.set_target({});
	int h = w.http("http://h/a", s.c ? KEY0_HEX : nullptr);
	w.http("http://h/b");
	int n = 0;
	w.policy = [&](int, const Id &, int) -> int { return A_HIT; };
	w.tweak = [&](HttpReply &r, int store, const Id &) {
		if (store == h && n++ == 1) {
			if (s.b < 0)
				r.pre = s.a;
			else {
				r.post = s.a;
				r.post_at = (u64)s.b;
				r.max_piece = 5;
			}
		}
	};
	Result res = w.run();
	x.outcome(res.str());
	if (!res.ok()) {
		x.fail("%s, although the second store has everything", res.str().c_str());
		return;
	}
	std::string q;
	for (auto &g : w.gets)
		q += strf("%d", g.store);
	bool tr = s.a == CURLE_COULDNT_CONNECT || s.a == CURLE_COULDNT_RESOLVE_HOST || s.a == CURLE_OPERATION_TIMEDOUT;
	const char *want = tr ? "00000" : "00111";
	if (q != want)
		x.fail("requests went to stores %s after transfer error %d, expected %s", q.c_str(), s.a, want);
	std::string e = w.check_image();
	if (!e.empty())
		x.fail("%s", e.c_str());
}

static Property prop = {
	.id = "C12",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		auto P = [&](const char *n, std::function<int(int, int)> f) { pats.push_back({n, f}); };
		P("always 500", [](int, int) { return A_500; });
		P("always timeout", [](int, int) { return A_TIMEOUT; });
		P("always hit", [](int, int) { return A_HIT; });
		P("always 404", [](int, int) { return A_404; });
		P("always garbage", [](int, int) { return A_GARBAGE; });
		P("always wrong data", [](int, int) { return A_WRONG; });
		P("ten errors, then a hit, repeated", [](int c, int) { return c % 11 == 10 ? A_HIT : A_503; });
		P("eleven errors after a hit", [](int c, int) { return c % 12 == 0 ? A_HIT : A_403; });
		P("404 between errors", [](int c, int) { return c % 2 ? A_404 : A_500; });
		P("garbage between errors", [](int c, int) { return c % 2 ? A_GARBAGE : A_500; });
		P("hit between errors", [](int c, int) { return c % 2 ? A_HIT : A_500; });
		P("exhausted retries between hits", [](int c, int) { return c % 3 ? A_TIMEOUT_MID : A_HIT; });
		P("exhausted retries and errors", [](int c, int) { return c % 2 ? A_CONN : A_500; });
		P("nine transient failures each", [](int, int k) { return k < 9 ? A_TIMEOUT_MID : A_HIT; });
		P("growing number of transient failures", [](int c, int k) { return k < c % 12 ? A_CONN : A_HIT; });
		P("transient failures before errors", [](int c, int k) { return k < c % 10 ? A_RESOLVE : A_503; });
		P("410 first", [](int c, int) { return c < 13 ? A_410 : A_500; });
		P("wrong data between errors", [](int c, int) { return c % 3 == 2 ? A_WRONG : A_500; });
		for (int i = 0; i < A_N; i++)
			if (i != A_HITGARB)
				MENU.push_back(i);
		FEW = {A_HIT, A_404, A_GARBAGE, A_WRONG, A_500, A_FATAL_MID, A_TIMEOUT, A_TIMEOUT_MID};
		for (int p = 0; p < (int)pats.size(); p++)
			for (int c = 0; c < 5; c++)
				scens.push_back({0, p, c});
		for (int enc = 0; enc < 2; enc++)
			for (int d = 0; d < 2; d++) {
				scens.push_back({1, thorough ? 3 : 2, enc, thorough ? 3 : 2, d});
				scens.push_back({1, 2, enc, thorough ? 6 : 4, d});
			}
		for (int enc = 0; enc < 2; enc++)
			for (int a = 0; a < 4; a++)
				for (int c = 0; c < 2; c++)
					for (int d = 1; d < (thorough ? 4 : 3); d++)
						if (d < 2 || thorough || (c && a % 4 != 3))
							if (d < 3 || (c && a % 4 == 0))
								scens.push_back({2, a, enc, c, d});
		for (int st = 100; st < 600; st++)
			if (st != 200 && (st > 199 || thorough))
				for (int b = 0; b < 3; b++)
					for (int enc = 0; enc < 2; enc++)
						scens.push_back({3, st, b, enc});
		for (int code = 1; code < 100; code++)
			if (code != CURLE_WRITE_ERROR && code != CURLE_COULDNT_RESOLVE_PROXY)
				for (int at : {-1, 0, 1, 3, 4, 5, 20, 1000})
					for (int enc = 0; enc < 2; enc++)
						scens.push_back({4, code, at, enc});
		return (u64)scens.size();
	},
	.run = [](Exec &x) {
		Scen &s = scens[x.scenario];
		switch (s.kind) {
		case 0: patterns(x, s); break;
		case 1: attempts(x, s); break;
		case 2: partial(x, s); break;
		case 3: statuses(x, s); break;
		case 4: transfer(x, s); break;
		}
	},
	.bound = [](const Tier &, u64 n) {
		Scen &s = scens[n];
		return s.kind == 0 ? pbound(s) : 0;
	},
	.describe = [](u64 n) {
		Scen &s = scens[n];
		switch (s.kind) {
		case 0: return strf("%s; stores=%s", pats[(size_t)s.a].name, chain_name[s.b]);
		case 1: return strf("attempts of one chunk (%d kinds of failures, %d ends)%s%s", s.a, s.c, s.b ? "+enc" : "", s.d ? ", small pieces" : "");
		case 2: return strf("%d partial bodies (variant %d, chunk %d)%s", s.d, s.a, s.c, s.b ? "+enc" : "");
		case 3: return strf("status %d, body %d%s", s.a, s.b, s.c ? "+enc" : "");
		default: return strf("transfer error %d after %d bytes%s", s.a, s.b, s.c ? "+enc" : "");
		}
	},
	.space = "18 base patterns of answers to 14 chunks x 5 chains with deviations by any of 23 answers at any request; every sequence of up to ten attempts over 2-3 kinds of "
	         "transient failures and 4-6 ends; every pair (thorough: triple) of cut-off points of failing attempts; every status code and every transfer error at several points",
	.bounds = "deviations from a base pattern: 2 (thorough: 3)",
};
static RegisterProperty reg(&prop);
