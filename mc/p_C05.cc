#include "chains.h"

static Chains *proto;
static const char *SEQ[] = {"A", "AA", "AB", "ABA", "AAB", "ABAB", "ABBA", "AABB", "ABCA", "AAAA", "ABCAB", "BACBA"};
static const int NSEQ = 12;
static bool thorough;
static std::vector<std::vector<int>> lists;
struct Scen { int seq, t, list, k; };
static std::vector<Scen> scens;
static std::vector<int> MENU;
static std::vector<Long> longs;
static std::vector<Span> spans;
static std::vector<Beyond> beyonds;

static void run(Exec &x)
{
	World w(x);
	Chains c = *proto;
	Beyond bey;
	if (x.scenario < scens.size()) {
		Scen s = scens[x.scenario];
		c.index(w, digits(SEQ[s.seq]));
		if (s.t < Chains::T_N) {
			c.target(w, s.t);
		} else {
			// the first k entries in place, then one damaged entry, then in place again
			Bytes im = w.image();
			u64 p0 = s.k ? w.ix.e[(size_t)s.k - 1].end : 0;
			im[(size_t)p0 + (size_t)(s.t - Chains::T_N) * 63] ^= 0x20;
			w.set_target(im);
		}
		int n = 0;
		for (int k : lists[(size_t)s.list])
			c.add(w, k, n++);
		w.policy = [&](int, const Id &, int) { return MENU[(size_t)x.choose((int)MENU.size(), 1)]; };
	} else if (x.scenario >= scens.size() + longs.size() + spans.size()) {
		bey = beyonds[x.scenario - scens.size() - longs.size() - spans.size()];
		c.ref = bey.setup(x, w);
	} else if (x.scenario >= scens.size() + longs.size()) {
		c.ref = spans[x.scenario - scens.size() - longs.size()].setup(x, w);
	} else {
		const Long &l = longs[x.scenario - scens.size()];
		c.ref = l.setup(x, w);
		if (l.n % 2) {
			Bytes im = w.image();
			im[w.ix.e[(size_t)l.n / 3].end] ^= 1;
			w.set_target(im);
		}
	}
	Bytes before = bey.size ? Bytes() : w.target->content();
	Result res = w.run();
	x.outcome(res.ok() ? "success" : res.failed() ? "failure" : res.str());

	if (bey.size && !res.ok()) {
		x.fail("%s", res.str().c_str());
		return;
	}
	size_t n0 = bey.size ? bey.intact : w.prefix_entries(before);
	u64 prefix_end = n0 ? w.ix.e[n0 - 1].end : 0;
	// walk through the events, keeping track of what has been processed
	std::set<Id> have; // on the target in the part processed so far
	for (size_t i = 0; i < n0; i++)
		have.insert(w.ix.e[i].id);
	size_t cur = n0, gi = 0;
	for (size_t i = 0; i < x.ev.size(); i++) {
		Ev &e = x.ev[i];
		if ((e.op == Op::Pwrite || e.op == Op::Write) && e.f == w.target.get() && e.ret > 0) {
			if (e.off < prefix_end) {
				x.fail("bytes %llu.. of the intact leading part (%zu entries) are written again", (unsigned long long)e.off, n0);
				return;
			}
			while (cur < w.ix.e.size() && w.ix.e[cur].end <= e.off + (u64)e.ret) {
				have.insert(w.ix.e[cur].id);
				cur++;
			}
		}
		if (e.op != Op::Http)
			continue;
		if (gi >= w.gets.size())
			break;
		Get &g = w.gets[gi++];
		if (!g.wellformed)
			continue;
		// for which entry can this be?
		size_t k = cur;
		while (k < w.ix.e.size() && w.ix.e[k].id != g.id)
			k++;
		if (k >= w.ix.e.size()) {
			x.fail("chunk %s is requested, but all entries with it are in place", id_short(g.id).c_str());
			return;
		}
		if (k > n0 && cur == k && w.ix.e[k - 1].id == g.id) {
			x.fail("entry %zu repeats the chunk of entry %zu, but is requested again", k, k - 1);
			return;
		}
		// stores in front of this one
		for (size_t j = 0; j < c.ref.size(); j++) {
			RefStore &st = c.ref[j];
			if (st.k == RefStore::HTTP && st.http == g.store)
				break;
			if (st.k == RefStore::TARGET && have.count(g.id)) {
				x.fail("chunk %s is requested, although the target, which is listed before, has it", id_short(g.id).c_str());
				return;
			}
			if (st.k == RefStore::LOCAL && st.has.count(g.id)) {
				x.fail("chunk %s is requested, although local store %zu, which is listed before, has it", id_short(g.id).c_str(), j);
				return;
			}
		}
	}
	// number of complete deliveries: at most one per maximal run of equal entries that is not in place
	std::map<Id, int> runs, hits;
	for (size_t i = n0; i < w.ix.e.size(); i++)
		if (i == n0 || w.ix.e[i].id != w.ix.e[i - 1].id)
			runs[w.ix.e[i].id]++;
	for (auto &g : w.gets)
		if (g.wellformed && g.ans == A_HIT)
			hits[g.id]++;
	for (auto &h : hits)
		if (h.second > runs[h.first])
			x.fail("chunk %s was delivered %d times, %d needed", id_short(h.first).c_str(), h.second, runs[h.first]);
}

static Property prop = {
	.id = "C05",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		MENU = {A_HIT, A_404, A_WRONG, A_500, A_TIMEOUT_MID, A_FATAL, A_GARBAGE, A_TRUNC};
		lists = {{S_H}, {S_T, S_H}, {S_L1, S_H}, {S_LREST, S_H}, {S_LX, S_H}, {S_T, S_L1, S_H}, {S_L1, S_T, S_H}, {S_H, S_T, S_H},
			{S_H, S_T}, {S_H, S_L1, S_H}, {S_T, S_H, S_H}, {S_L0, S_T, S_H}, {S_LTINY, S_LREST, S_T, S_H}, {S_HE, S_T}, {S_T, S_HE}, {S_H, S_H}};
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < NSEQ; q++) {
				for (int i = 0; i < Chains::T_N; i++)
					scens.push_back({q, i, l, 0});
				// every damaged entry, damage at several places
				for (int k = 0; k < (int)strlen(SEQ[q]); k++)
					for (int d = 0; d < 2; d++)
						scens.push_back({q, Chains::T_N + d, l, k});
			}
		for (auto &l : Long::all(t.thorough))
			if (l.t >= 0 || l.local || l.each)
				longs.push_back(l);
		for (int n : {60, 101, 200, 301})
			for (int lo = 0; lo < 2; lo++) {
				Long l;
				l.n = n;
				l.t = 0;
				l.local = lo;
				l.pat = {Long::P_EVEN, Long::P_ALL};
				longs.push_back(l);
			}
		spans = Span::all(t.thorough);
		beyonds = Beyond::all();
		return (u64)(scens.size() + longs.size() + spans.size() + beyonds.size());
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) { return n >= scens.size() + longs.size() ? 0 : n >= scens.size() ? longs[n - scens.size()].bound : t.thorough ? 3 : 2; },
	.describe = [](u64 n) {
		if (n >= scens.size() + longs.size() + spans.size())
			return beyonds[n - scens.size() - longs.size() - spans.size()].describe();
		if (n >= scens.size() + longs.size())
			return spans[n - scens.size() - longs.size()].describe();
		if (n >= scens.size())
			return longs[n - scens.size()].describe();
		Scen s = scens[n];
		std::string q;
		for (int k : lists[(size_t)s.list])
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("index=%s target=%s stores=%s", SEQ[s.seq], s.t < Chains::T_N ? Chains::tname(s.t) : strf("entry %d damaged", s.k).c_str(), q.c_str());
	},
	.space = "12 indices with all patterns of repetition up to length 4 x every single damaged entry and 8 other initial targets x 16 store lists; extractions of 13 to 301 entries with every fifth chunk occurring twice; 4 to 70000 entries of up to 256 KiB, equal, alternating, in runs or all different, x the number of entries in place; images of more than 4 GiB; choices: "
	         "the answers of every HTTP request",
	.bounds = "deviations from ideal answers per extraction: 2 (quick), 3 (thorough)",
	.timeout_s = 120,
};
static RegisterProperty reg(&prop);
