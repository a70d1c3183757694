// Success is reported only after a successful flush.
#include "chains.h"

static Chains *proto;
static bool thorough;
static const char *SEQ[] = {"A", "AB", "AAB", "ABA", "HABC", "ABCDEFG"};
static const int NSEQ = 6;
static std::vector<std::vector<int>> lists;
struct Scen { int seq, t, list; bool casync; };
static std::vector<Scen> scens;
static const std::vector<int> MENU = {A_HIT, A_404, A_GARBAGE, A_TIMEOUT, A_FATAL, A_500};

static void run(Exec &x)
{
	Scen s = scens[x.scenario];
	World w(x);
	Chains c = *proto;
	c.index(w, digits(SEQ[s.seq]));
	c.target(w, s.t);
	int n = 0;
	for (int k : lists[(size_t)s.list])
		c.add(w, k, n++);
	c.arm(w);
	auto inner = x.env.io;
	w.policy = [&](int, const Id &, int) { return MENU[(size_t)x.choose((int)MENU.size(), 1)]; };
	VFile *t = w.target.get();
	x.env.io = [&](const IoReq &r) -> IoAns {
		IoAns a;
		if (inner) {
			a = inner(r);
			if (a.k != IoAns::Normal)
				return a;
		}
		if (r.f != t)
			return a;
		auto err = [&](int e) {
			a.k = IoAns::Err;
			a.err = e;
		};
		if (r.op == Op::Fsync)
			switch (x.choose(8, 1)) {
			case 1: err(EIO); break;
			case 2: err(ENOSPC); break;
			case 3: err(EDQUOT); break;
			case 4: err(EROFS); break;
			case 5: err(EINTR); break;
			case 6: a.k = IoAns::CrashBefore; break;
			case 7: err(EINVAL); break; // a device that can't be flushed
			}
		if (r.op == Op::Write || r.op == Op::Pwrite)
			switch (x.choose(6, 1)) {
			case 1: a.k = IoAns::Short; a.n = r.len / 2; break;
			case 2: err(EINTR); break;
			case 3: err(EIO); break;
			case 4: a.k = IoAns::CrashBefore; a.n = r.len / 2; break;
			case 5: a.k = IoAns::CrashBefore; a.n = r.len; break;
			}
		if (r.op == Op::Close && x.choose(2, 1))
			err(EIO);
		return a;
	};
	// whether the previous content of the target ever reached the disk is unknown
	for (int attempt = 0; attempt < 3; attempt++) {
		Result r = w.run(s.casync ? "casync" : "csn");
		x.outcome(r.str());
		bool flushed = false;
		int bad = 0;
		for (auto &e : x.ev) {
			if (e.f != t)
				continue;
			if ((e.op == Op::Write || e.op == Op::Pwrite) && e.ret > 0)
				flushed = false;
			if (e.op == Op::Fsync && e.ret == 0)
				flushed = true;
			if (e.op == Op::Fsync && e.ret < 0 && e.err != EINTR)
				bad = e.err;
		}
		if (r.ok()) {
			if (bad)
				x.fail("run %d: exit 0 although a flush failed with errno %d", attempt + 1, bad);
			else if (!flushed)
				x.fail("run %d: exit 0, but the target was not flushed after the last write", attempt + 1);
			else {
				std::string e = w.check_image();
				if (!e.empty())
					x.fail("run %d: exit 0, but %s", attempt + 1, e.c_str());
			}
			return;
		}
		if (r.end == End::Crash)
			continue;
		if (r.end != End::Exit)
			x.fail("run %d: %s", attempt + 1, r.str().c_str());
		return;
	}
}

static Property prop = {
	.id = "C17",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		lists = {{S_H}, {S_T, S_H}, {S_LALL}, {S_LX, S_H}, {S_TA, S_H}, {S_L1, S_HE}, {S_LBAD, S_H}, {S_H, S_H}};
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < NSEQ; q++)
				for (int i = 0; i < Chains::T_N; i++)
					for (int cs = 0; cs < 2; cs++) {
						if (cs && !thorough && l > 1)
							continue;
						scens.push_back({q, i, l, cs != 0});
					}
		return (u64)scens.size();
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) {
		Scen &s = scens[n];
		size_t len = strlen(SEQ[s.seq]);
		if (t.thorough)
			return len <= 2 ? 4 : len <= 4 ? 3 : 2;
		return len <= 1 ? 3 : len <= 4 ? 2 : 1;
	},
	.describe = [](u64 n) {
		Scen s = scens[n];
		std::string q;
		for (int k : lists[(size_t)s.list])
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("index=%s target=%s stores=%s%s", SEQ[s.seq], Chains::tname(s.t), q.c_str(), s.casync ? " (casync)" : "");
	},
	.space = "6 indices x 8 initial targets x 8 store lists; choices: every flush fails in one of 6 ways or is interrupted by the end of the process, every write is short, "
	         "interrupted, failing or the last one, every HTTP request fails in one of 5 ways, closing the target fails; up to 3 runs",
	.bounds = "deviations per history: 1-3 (quick), 2-4 (thorough)",
};
static RegisterProperty reg(&prop);
