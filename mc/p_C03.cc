#include "chains.h"

static Chains *proto;
static const char *SEQ[] = {"", "A", "AA", "AB", "ABA", "ABC", "AAB", "ABB", "BABA", "ABCD", "HAH"};
static const int NSEQ = 11;
static bool thorough;
static std::vector<std::vector<int>> lists;
static const int KINDS[] = {S_H, S_T, S_L0, S_LTINY, S_L1, S_LREST, S_LX, S_LBAD, S_LBAD1};
static const int NK = 9;

struct Scen { int seq, t, list, redirect = 0, hops = 1; };
static std::vector<Scen> scens;
static Scen decode(u64 n) { return scens[n]; }
static int nhttp(const std::vector<int> &l)
{
	return (int)std::count_if(l.begin(), l.end(), [](int k) { return k == S_H || k == S_HE; });
}

static std::vector<Long> longs;
typedef std::function<bool(int, const Id &)> Has;
static void judge(Exec &x, World &w, const Result &res, const RefOut &o, const Has &has);
static void run(Exec &x)
{
	if (x.scenario >= scens.size()) {
		World w(x);
		std::vector<RefStore> ref = longs[x.scenario - scens.size()].setup(x, w);
		Result res = w.run();
		const Long &l = longs[x.scenario - scens.size()];
		std::map<Id, int> pos;
		for (int k = 0; k < l.n; k++)
			pos.insert({sha256(l.content(l.source(k))), k});
		judge(x, w, res, ref_chain(w, ref, {}), [&](int store, const Id &id) { return pos.count(id) && l.base(store, pos[id]) == A_HIT; });
		return;
	}
	Scen s = decode(x.scenario);
	World w(x);
	Chains c = *proto;
	c.index(w, digits(SEQ[s.seq]));
	c.target(w, s.t);
	int n = 0;
	for (int k : lists[(size_t)s.list])
		c.add(w, k, n++);
	c.arm(w);
	for (auto &h : w.https) {
		h.redirect = s.redirect;
		h.hops = s.hops;
	}
	bool all = thorough || nhttp(lists[(size_t)s.list]) < 2;
	static const int few[] = {A_HIT, A_404, A_GARBAGE, A_WRONG, A_500, A_FATAL, A_TIMEOUT_MID, A_TRUNC, A_EMPTY};
	w.policy = [&](int, const Id &, int) { return all ? x.choose(A_N, 1) : few[x.choose(9, 1)]; };
	Bytes before = w.target->content();
	Result res = w.run();
	judge(x, w, res, ref_chain(w, c.ref, before), [&](int, const Id &) { return true; });
}

// is there an HTTP store for every entry that never failed and gives (or would give, when asked) the chunk?
static bool surely(World &w, const Has &has)
{
	std::set<int> bad;
	std::map<std::pair<int, Id>, int> last;
	for (auto &g : w.gets) {
		if (g.ans != A_HIT && g.ans != A_404 && g.ans != A_410 && !ans_transient(g.ans))
			bad.insert(g.store);
		last[{g.store, g.id}] = g.ans;
	}
	for (auto &e : w.ix.e) {
		bool ok = false;
		for (int s = 0; s < (int)w.https.size() && !ok; s++) {
			auto it = last.find({s, e.id});
			ok = !bad.count(s) && has(s, e.id) && (it == last.end() || it->second == A_HIT);
		}
		if (!ok)
			return false;
	}
	return true;
}

static void judge(Exec &x, World &w, const Result &res, const RefOut &o, const Has &has)
{
	x.outcome(std::string(res.ok() ? "success" : res.failed() ? "failure" : res.str()) +
	          (o.success ? "/available" : o.mismatch.empty() ? "/unavailable" : "/other order"));
	if (!res.ok()) {
		if (o.success && !o.unsure)
			x.fail("every missing chunk was available, but: %s", res.str().c_str());
		else if (o.missing && !o.unsure)
			x.fail("%s, although a store that is still in use was not asked (%s)", res.str().c_str(), o.mismatch.c_str());
		else if (!o.mismatch.empty() && surely(w, has))
			x.fail("%s, although a store that never failed has the chunk", res.str().c_str());
	}
}

static Property prop = {
	.id = "C03",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		for (int i = 0; i < NK; i++)
			lists.push_back({KINDS[i]});
		for (int i = 0; i < NK; i++)
			for (int j = 0; j < NK; j++)
				lists.push_back({KINDS[i], KINDS[j]});
		for (int i = 0; i < NK; i++)
			for (int j = 0; j < NK; j++)
				for (int k = 0; k < NK; k++)
					if (thorough || i == 0 || k == 0)
						lists.push_back({KINDS[i], KINDS[j], KINDS[k]});
		lists.push_back({S_HE});
		lists.push_back({S_HE, S_H});
		lists.push_back({S_H, S_HE});
		lists.push_back({S_H, S_H, S_H, S_H});
		lists.push_back({S_L0, S_LTINY, S_L1, S_LREST, S_LX, S_LBAD, S_T, S_H});
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < NSEQ; q++)
				for (int i = 0; i < Chains::T_N; i++) {
					if (!thorough && lists[(size_t)l].size() > 2 && i != Chains::T_EMPTY && i != Chains::T_HOLE)
						continue;
					scens.push_back({q, i, l});
				}
		// servers that redirect
		for (int l = 0; l < (int)lists.size(); l++)
			if (nhttp(lists[(size_t)l]) && lists[(size_t)l].size() < (thorough ? 3 : 2) + (nhttp(lists[(size_t)l]) == 2))
				for (int st : {301, 302, 303, 307, 308})
					for (int hops : {1, 2, 5})
						for (int q : {1, 5, 7})
							for (int i : {(int)Chains::T_EMPTY, (int)Chains::T_HOLE})
								if (thorough || (st + hops + q + i) % 3 == 0)
									scens.push_back({q, i, l, st, hops});
		longs = Long::all(thorough);
		return (u64)(scens.size() + longs.size());
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) {
		if (n >= scens.size())
			return longs[n - scens.size()].bound;
		int h = nhttp(lists[(size_t)decode(n).list]);
		return h == 0 ? 0 : t.thorough ? 2 : 1;
	},
	.describe = [](u64 n) {
		if (n >= scens.size())
			return longs[n - scens.size()].describe();
		Scen s = decode(n);
		std::string q;
		for (int k : lists[(size_t)s.list])
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("index=%s target=%s stores=%s%s", SEQ[s.seq], Chains::tname(s.t), q.c_str(), s.redirect ? strf(" (%d redirections with %d)", s.hops, s.redirect).c_str() : "");
	},
	.space = "all store lists up to length 3 over 9 kinds of stores (some longer) x 11 indices x 8 initial targets; servers behind 1, 2 or 5 redirections; long extractions of 13 to 40 (thorough: 300) entries from up to 24 stores with regular patterns of answers; choices: every answer of every HTTP request",
	.bounds = "deviations from ideal answers per extraction: 1 (quick), 2 (thorough)",
};
static RegisterProperty reg(&prop);
