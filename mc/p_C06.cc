#include "chains.h"

static Chains *proto;
static const char *SEQ[] = {"A", "AB", "AAB", "ABA", "ABC", "HAH", "ABCD", "AABBA"};
static const int NSEQ = 8;
static bool thorough;
static std::vector<std::vector<int>> lists;
struct Scen { int seq, t, list; };
static std::vector<Scen> scens;

struct Cut { Span s; int at, part, lost; };
static std::vector<Cut> cuts;

// One interruption at a given write of a long extraction
static void run_cut(Exec &x)
{
	Cut c = cuts[x.scenario - scens.size()];
	World w(x);
	c.s.setup(x, w);
	Bytes initial = w.target->content(), image = w.image();
	for (int attempt = 0; attempt < 3; attempt++) {
		Bytes before = w.target->content();
		int writes = 0;
		if (attempt < 2)
			x.env.io = [&](const IoReq &r) -> IoAns {
				IoAns a;
				if (r.f != w.target.get() || (r.op != Op::Pwrite && r.op != Op::Write))
					return a;
				if (writes++ == (attempt ? 2 : c.at)) {
					a.k = IoAns::CrashBefore;
					a.n = c.part == 0 ? 0 : c.part == 1 ? r.len / 2 : r.len;
				}
				return a;
			};
		Result res = w.run();
		x.env.io = nullptr;
		size_t n0 = w.prefix_entries(before);
		std::map<Id, int> runs, hits;
		for (size_t i = n0; i < w.ix.e.size(); i++)
			if (i == n0 || w.ix.e[i].id != w.ix.e[i - 1].id)
				runs[w.ix.e[i].id]++;
		for (auto &g : w.gets)
			if (g.wellformed && ++hits[g.id] > runs[g.id]) {
				x.fail("run %d: chunk %s is retrieved, although the leading %zu entries are intact", attempt + 1, id_short(g.id).c_str(), n0);
				return;
			}
		if (res.end != End::Crash) {
			x.outcome(strf("%d interruptions, %s", attempt, res.str().c_str()));
			if (!res.ok()) {
				x.fail("run %d after %d interruption(s): %s", attempt + 1, attempt, res.str().c_str());
				return;
			}
			std::string e = w.check_image();
			if (!e.empty())
				x.fail("run %d after %d interruption(s): exit 0, but %s", attempt + 1, attempt, e.c_str());
			return;
		}
		// which of the unflushed writes survive
		std::vector<Ev *> pending;
		for (auto &e : x.ev)
			if (e.f == w.target.get() && (e.op == Op::Pwrite || e.op == Op::Write) && e.ret > 0)
				pending.push_back(&e);
		Bytes now = before;
		for (size_t i = 0; i < pending.size(); i++) {
			Ev *p = pending[i];
			bool gone = false;
			switch (attempt ? 0 : c.lost) {
			case 1: gone = i + 1 == pending.size(); break;
			case 2: gone = i == 0; break;
			case 3: gone = i % 2; break;
			case 4: gone = i == pending.size() / 2; break;
			}
			if (now.size() < p->off + p->data.size())
				now.resize(p->off + p->data.size());
			if (!gone)
				std::copy(p->data.begin(), p->data.end(), now.begin() + (long)p->off);
		}
		w.target->set(now);
	}
	x.fail("no end in sight");
}

static void run(Exec &x)
{
	if (x.scenario >= scens.size())
		return run_cut(x);
	Scen s = scens[x.scenario];
	World w(x);
	Chains c = *proto;
	c.index(w, digits(SEQ[s.seq]));
	c.target(w, s.t);
	int n = 0;
	for (int k : lists[(size_t)s.list])
		c.add(w, k, n++);
	Bytes initial = w.target->content(), image = w.image();
	// what is certainly on the disk
	Bytes stable = initial;
	int crashes = 0;
	bool lossy = true;
	for (int attempt = 0; attempt < 4; attempt++) {
		Bytes before = w.target->content();
		x.env.io = [&](const IoReq &r) -> IoAns {
			IoAns a;
			if (r.f != w.target.get() || (r.op != Op::Pwrite && r.op != Op::Write && r.op != Op::Fsync))
				return a;
			if (r.op == Op::Fsync) {
				int k = x.choose(3, 1);
				if (k)
					a.k = k == 1 ? IoAns::CrashBefore : IoAns::CrashAfter;
				return a;
			}
			static const int CUTS = 5;
			int k = x.choose(CUTS + 1, 1);
			if (k) {
				a.k = IoAns::CrashBefore;
				u64 cut[CUTS] = {0, r.len / 2, 1, r.len - 1, r.len};
				a.n = cut[k - 1];
			}
			return a;
		};
		Result res = w.run();
		x.env.io = nullptr;
		// chunks of the intact leading part are not retrieved again
		size_t n0 = w.prefix_entries(before);
		std::map<Id, int> runs, hits;
		for (size_t i = n0; i < w.ix.e.size(); i++)
			if (i == n0 || w.ix.e[i].id != w.ix.e[i - 1].id)
				runs[w.ix.e[i].id]++;
		for (auto &g : w.gets)
			if (g.wellformed && ++hits[g.id] > runs[g.id]) {
				x.fail("run %d: chunk %s is retrieved, although the leading %zu entries are intact", attempt + 1, id_short(g.id).c_str(), n0);
				return;
			}
		if (res.end == End::Crash) {
			crashes++;
			// what survives: everything up to the last flush and any part of the rest
			Bytes now = stable;
			std::vector<Ev *> pending;
			for (auto &e : x.ev) {
				if (e.f != w.target.get())
					continue;
				if ((e.op == Op::Pwrite || e.op == Op::Write) && e.ret > 0)
					pending.push_back(&e);
				if (e.op == Op::Fsync && e.ret == 0) {
					for (Ev *p : pending) {
						if (now.size() < p->off + p->data.size())
							now.resize(p->off + p->data.size());
						std::copy(p->data.begin(), p->data.end(), now.begin() + (long)p->off);
					}
					pending.clear();
				}
			}
			int mode = lossy ? x.choose(2, 0) : 0; // plain process interruption or loss of unflushed writes
			for (size_t i = 0; i < pending.size(); i++) {
				Ev *p = pending[i];
				int k = 0;
				if (mode)
					k = x.choose(crashes > 1 && !thorough ? 2 : 4, 0);
				u64 keep = p->data.size();
				if (k == 1)
					continue; // lost
				if (now.size() < p->off + p->data.size()) {
					if (k == 2)
						now.resize(p->off + p->data.size() / 2);
					else
						now.resize(p->off + p->data.size());
				}
				if (k == 2)
					keep /= 2; // torn
				if (k == 3)
					keep = 0; // only the size survived
				std::copy(p->data.begin(), p->data.begin() + (long)keep, now.begin() + (long)p->off);
			}
			if (w.target->blk)
				now.resize(initial.size());
			w.target->set(now);
			stable = now;
			continue;
		}
		x.outcome(strf("%d interruptions, %s", crashes, res.str().c_str()));
		if (!res.ok()) {
			x.fail("run %d after %d interruption(s): %s", attempt + 1, crashes, res.str().c_str());
			return;
		}
		std::string e = w.check_image();
		if (!e.empty()) {
			x.fail("run %d after %d interruption(s): exit 0, but %s", attempt + 1, crashes, e.c_str());
			return;
		}
		Bytes want = initial;
		if (want.size() < image.size())
			want.resize(image.size());
		std::copy(image.begin(), image.end(), want.begin());
		if (w.target->content() != want)
			x.fail("after %d interruption(s) the target differs from that of an uninterrupted run", crashes);
		return;
	}
	x.fail("no end in sight");
}

static Property prop = {
	.id = "C06",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		lists = {{S_H}, {S_T, S_H}, {S_LX, S_H}, {S_LREST, S_T, S_H}, {S_TA, S_H}, {S_HE}};
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < NSEQ; q++)
				for (int i = 0; i < Chains::T_N; i++) {
					if (!thorough && q >= 6 && l > 1)
						continue;
					scens.push_back({q, i, l});
				}
		for (auto &sp : Span::all(thorough)) {
			std::set<int> at = {0, 1, 63, 64, 65, 128, 254, 255, 256, 257, 512, 1023, 1024, 1025, 4096};
			if (sp.n > 4)
				at.insert({sp.n - sp.keep - 1, (sp.n - sp.keep) / 2});
			else
				at = {0, 1, 2, 3};
			if (sp.n > 5000)
				at = {0, 1, 256};
			// (many spans differ in what is in place only)
			if (!thorough && sp.n > 4 && sp.keep != 0 && sp.keep != 1 && sp.keep != 256 && sp.keep != 1024 && sp.keep != sp.n - 1 && sp.n < 70000)
				continue;
			for (int k : at) {
				if (k < 0 || k >= sp.n - sp.keep)
					continue;
				for (int part = 0; part < 3; part++)
					for (int lost = 0; lost < 5; lost++)
						if (thorough || (part + 3 * lost + k + sp.keep + sp.n + sp.shape + sp.list) % (sp.n < 700 ? 5 : sp.n < 5000 ? 15 : 30) == 0)
							cuts.push_back({sp, k, part, lost});
			}
		}
		return (u64)(scens.size() + cuts.size());
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) {
		if (n >= scens.size())
			return 0;
		Scen &s = scens[n];
		size_t len = strlen(SEQ[s.seq]);
		if (t.thorough)
			return len <= 2 ? 3 : len <= 3 ? 2 : s.list < 2 ? 2 : 1;
		return len <= 2 ? 2 : 1;
	},
	.describe = [](u64 n) {
		if (n >= scens.size()) {
			Cut c = cuts[n - scens.size()];
			static const char *p[] = {"before", "inside", "after"}, *l[] = {"all writes survive", "the last write is lost", "the first write is lost", "every second write is lost", "the middle write is lost"};
			return c.s.describe() + strf("; interrupted %s write %d, %s", p[c.part], c.at, l[c.lost]);
		}
		Scen s = scens[n];
		std::string q;
		for (int k : lists[(size_t)s.list])
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("index=%s target=%s stores=%s", SEQ[s.seq], Chains::tname(s.t), q.c_str());
	},
	.space = "8 indices x 8 initial targets x 6 store lists; choices: interruption before, inside (after 1 byte, half, all but one byte) and behind every write "
	         "and flush, every combination of unflushed writes kept, lost, torn or reduced to the file size, also in the runs that follow; 4 to 70000 entries of up to 256 KiB "
	         "x the number of entries in place x the write that is interrupted x 5 patterns of lost writes",
	.bounds = "interruptions per history: 1-2 (quick), 1-3 (thorough)",
};
static RegisterProperty reg(&prop);
