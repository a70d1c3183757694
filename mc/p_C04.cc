#include "chains.h"

static Chains *proto;
static const char *SEQ[] = {"A", "AB", "ABC", "ABCD", "ABCDEFG", "ABAB"};
static bool thorough;
static std::vector<std::vector<int>> lists;
struct Scen { int seq, t, list; };
static std::vector<Scen> scens;
// every answer but those that may be treated either way
static std::vector<int> MENU, FEW;

static int nhttp(const std::vector<int> &l)
{
	return (int)std::count_if(l.begin(), l.end(), [](int k) { return k == S_H || k == S_HE; });
}

static std::vector<Long> longs;
static void run_long(Exec &x, const Long &l)
{
	World w(x);
	std::vector<RefStore> ref = l.setup(x, w);
	Result res = w.run();
	RefOut o = ref_chain(w, ref, {});
	x.outcome(res.ok() ? "success" : res.failed() ? "failure" : res.str());
	if (!o.mismatch.empty())
		x.fail("%s", o.mismatch.c_str());
}

static void run(Exec &x)
{
	if (x.scenario >= scens.size()) {
		run_long(x, longs[x.scenario - scens.size()]);
		return;
	}
	Scen s = scens[x.scenario];
	World w(x);
	Chains c = *proto;
	c.index(w, digits(SEQ[s.seq]));
	c.target(w, s.t);
	int n = 0;
	for (int k : lists[(size_t)s.list])
		c.add(w, k, n++);
	c.arm(w);
	const std::vector<int> &m = thorough || nhttp(lists[(size_t)s.list]) < 2 ? MENU : FEW;
	w.policy = [&](int, const Id &, int) { return m[(size_t)x.choose((int)m.size(), 1)]; };
	Bytes before = w.target->content();
	Result res = w.run();
	RefOut o = ref_chain(w, c.ref, before);
	x.outcome(res.ok() ? "success" : res.failed() ? "failure" : res.str());
	if (!o.mismatch.empty()) {
		x.fail("%s", o.mismatch.c_str());
		return;
	}
	// local files are read after the scan only if the order of the stores makes it necessary
	size_t start = x.ev.size();
	for (size_t i = 0; i < x.ev.size(); i++)
		if (x.ev[i].op == Op::Http || (x.ev[i].f == w.target.get() && (x.ev[i].op == Op::Pread || x.ev[i].op == Op::Pwrite || x.ev[i].op == Op::Read || x.ev[i].op == Op::Write))) {
			start = i;
			break;
		}
	for (size_t li = 0; li < c.locals.size(); li++) {
		bool dead = false;
		size_t fail_write = 0;
		for (size_t i = start; i < x.ev.size(); i++) {
			Ev &e = x.ev[i];
			if (e.f == w.target.get() && (e.op == Op::Pwrite || e.op == Op::Write))
				fail_write = i;
			if (e.f != c.locals[li].get() || (e.op != Op::Pread && e.op != Op::Read && e.op != Op::Mmap))
				continue;
			if (dead && fail_write) {
				// a later chunk
				x.fail("local store %s failed permanently, but was read again for a later chunk", e.f->path.c_str());
				return;
			}
			if (e.ret < 0) {
				dead = true;
				fail_write = 0;
			}
		}
	}
	// a store behind others is not read for chunks the others delivered
	size_t cur = w.prefix_entries(before);
	for (size_t i = start; i < x.ev.size(); i++) {
		Ev &e = x.ev[i];
		if (e.f == w.target.get() && (e.op == Op::Pwrite || e.op == Op::Write) && e.ret > 0)
			while (cur < w.ix.e.size() && w.ix.e[cur].end <= e.off + (u64)e.ret)
				cur++;
		if (e.op != Op::Pread && e.op != Op::Read && e.op != Op::Mmap)
			continue;
		for (size_t li = 0; li < c.locals.size(); li++)
			if (e.f == c.locals[li].get() && (cur >= w.ix.e.size() || (o.by[cur] != -2 && (o.by[cur] == -1 || (size_t)o.by[cur] < c.localpos[li])))) {
				x.fail("local store %s is read for entry %zu, which an earlier store delivered or which needs no store", e.f->path.c_str(), cur);
				return;
			}
	}
}

static Property prop = {
	.id = "C04",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		for (int i = 0; i < A_N; i++)
			if (i != A_HITGARB)
				MENU.push_back(i);
		FEW = {A_HIT, A_404, A_GARBAGE, A_WRONG, A_500, A_FATAL, A_TIMEOUT, A_TIMEOUT_MID, A_TRUNC, A_FATAL_MID, A_410, A_EMPTY};
		const int K[] = {S_H, S_T, S_L1, S_LREST, S_LX, S_LBAD, S_LBAD1};
		for (int a : K) {
			lists.push_back({a});
			for (int b : K) {
				lists.push_back({a, b});
				for (int d : K) {
					lists.push_back({a, b, d});
					if (thorough)
						for (int e : K)
							lists.push_back({a, b, d, e});
				}
			}
		}
		lists.push_back({S_H, S_H, S_H, S_H});
		lists.push_back({S_HE, S_H, S_HE});
		lists.push_back({S_H, S_L1, S_H, S_LREST, S_H, S_T, S_H});
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < 6; q++)
				for (int tt : {Chains::T_EMPTY, Chains::T_HOLE}) {
					if (nhttp(lists[(size_t)l]) == 0 && tt)
						continue;
					if (!thorough && lists[(size_t)l].size() == 3 && (q == 0 || q == 1 || tt))
						continue;
					scens.push_back({q, tt, l});
				}
		longs = Long::all(thorough);
		return (u64)(scens.size() + longs.size());
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) {
		if (n >= scens.size())
			return longs[n - scens.size()].bound;
		int h = nhttp(lists[(size_t)scens[n].list]);
		size_t len = strlen(SEQ[scens[n].seq]);
		if (t.thorough)
			return h > 2 && len > 4 ? 2 : len > 4 ? 2 : lists[(size_t)scens[n].list].size() > 3 ? 2 : 3;
		return h && h < 3 && len <= 2 && lists[(size_t)scens[n].list].size() < 3 ? 2 : 1;
	},
	.describe = [](u64 n) {
		if (n >= scens.size())
			return longs[n - scens.size()].describe();
		Scen s = scens[n];
		std::string q;
		for (int k : lists[(size_t)s.list])
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("index=%s target=%s stores=%s", SEQ[s.seq], Chains::tname(s.t), q.c_str());
	},
	.space = "all store lists up to length 3 (thorough: 4) over 7 kinds of stores, 6 indices, 2 initial targets; long extractions of 13 to 40 (thorough: 300) entries from up to 24 stores with regular patterns of answers; choices: every answer of every HTTP request",
	.bounds = "deviations from ideal answers per extraction: 1-2 (quick), 2-3 (thorough)",
};
static RegisterProperty reg(&prop);
