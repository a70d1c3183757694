// Kernel crypto API: same outcome and same requests as without it.
#include "chains.h"

static Chains *proto;
static bool thorough;
static const char *SEQ[] = {"", "A", "AB", "ABA", "HABCH", "ABCDEFG"};
static const int NSEQ = 6;
static std::vector<std::vector<int>> lists;
enum Mode { M_NONE, M_FAULTS, M_SEND1, M_SEND7, M_HALF, M_EINTR, M_EINTR_SHORT, M_SETUP, M_BIG, M_N };
static const char *mode_name(int m)
{
	static const char *n[] = {"no faults", "faults", "bytewise", "7 bytes at a time", "halves", "interrupted", "interrupted and short", "setup fails", "large chunks"};
	return n[m];
}
struct Scen { int seq, t, list, mode, answers; };
static std::vector<Scen> scens;

struct Outcome {
	Result r;
	Bytes target;
	std::vector<std::string> urls;
	std::vector<std::pair<u64, u64>> reads, writes; // of local stores, to the target
	bool wrote = false;
};
static Outcome take(World &w)
{
	Outcome o;
	o.r = w.res;
	o.target = w.target->content();
	for (auto &g : w.gets)
		o.urls.push_back(g.url);
	for (auto &e : w.x.ev) {
		if (e.f == w.target.get() && (e.op == Op::Write || e.op == Op::Pwrite)) {
			o.writes.push_back({e.off, e.len});
			o.wrote = true;
		}
		if (e.f && e.f != w.target.get() && (e.op == Op::Read || e.op == Op::Pread))
			o.reads.push_back({e.off, e.len});
	}
	return o;
}

static Bytes BIG[2];
static void execute(World &w, const Scen &s)
{
	Chains c = *proto;
	if (s.mode == M_BIG) {
		w.ix.p = DEFAULT_PARAMS;
		w.entry(BIG[0]);
		w.entry(BIG[1]);
		w.write_index();
	} else
		c.index(w, digits(SEQ[s.seq]));
	c.target(w, s.t);
	int n = 0;
	for (int k : lists[(size_t)s.list])
		c.add(w, k, n++);
	w.policy = [&s](int, const Id &, int nth) {
		switch (s.answers) {
		case 1: return nth == 0 ? (int)A_WRONG : (int)A_HIT;
		case 2: return (int)A_WRONG;
		case 3: return nth == 0 ? (int)A_TIMEOUT_MID : (int)A_HIT;
		}
		return (int)A_HIT;
	};
	w.run();
}
static std::map<u64, Outcome> baseline;

static void run(Exec &x)
{
	Scen s = scens[x.scenario];
	if (!baseline.count(x.scenario)) {
		Exec y;
		World w(y);
		execute(w, s);
		baseline.clear();
		baseline[x.scenario] = take(w);
	}
	const Outcome &base = baseline[x.scenario];
	World w(x);
	x.env.kcapi = true;
	x.env.horizon = 3000000;
	static const char *DRV[] = {"sha256", "sha256-generic", "sha256-ce", "sha256"};
	x.env.env["CSN_KCAPI_DRIVER"] = DRV[s.seq % 4];
	int setup_err = 0;
	bool toggle = false, bad_driver = false;
	if (s.mode == M_SETUP)
		switch (x.choose(8, 0)) {
		case 1: x.env.env["CSN_KCAPI_DRIVER"] = "nosuchhash"; bad_driver = true; break;
		case 2: x.env.env["CSN_KCAPI_DRIVER"] = std::string("sha256") + std::string(58, 'x'); bad_driver = true; break;
		case 3: x.env.env["CSN_KCAPI_DRIVER"] = std::string("sha256") + std::string(57, 'x'); break; // fits just so
		case 4: x.env.env["CSN_KCAPI_DRIVER"] = std::string("sha256") + std::string(5000, 'x'); bad_driver = true; break;
		case 5: x.env.kcapi = false; setup_err = EAFNOSUPPORT; break;
		case 6: x.env.env["CSN_KCAPI_DRIVER"] = "sh"; bad_driver = true; break;
		case 7: x.env.env["CSN_KCAPI_DRIVER"] = ""; bad_driver = true; break;
		}
	x.env.sock = [&](Op op, u64 len) -> IoAns {
		IoAns a;
		auto err = [&](int e) {
			a.k = IoAns::Err;
			a.err = e;
		};
		auto shrt = [&](u64 n) {
			a.k = IoAns::Short;
			a.n = n;
		};
		if (op == Op::Socket || op == Op::Bind || op == Op::Accept) {
			if (s.mode != M_SETUP)
				return a;
			static const int E[] = {0, EINTR, EACCES, ENOMEM, EMFILE, ENOENT};
			int e = E[x.choose(6, 1)];
			if (e) {
				err(e);
				setup_err = e;
			}
			return a;
		}
		bool send = op == Op::Send;
		switch (s.mode) {
		case M_FAULTS: case M_BIG:
			if (send)
				switch (x.choose(11, 1)) {
				case 8: err(ENOBUFS); break;
				case 9: err(EAGAIN); break;
				case 10: err(EPIPE); break;
				case 1: shrt(1); break;
				case 2: shrt(len / 2); break;
				case 3: shrt(len - 1); break;
				case 4: err(EINTR); break;
				case 5: err(EIO); break;
				case 6: err(ENOMEM); break;
				case 7: shrt(65536); break;
				}
			else
				switch (x.choose(8, 1)) {
				case 1: shrt(1); break;
				case 2: shrt(31); break;
				case 3: a.k = IoAns::Eof; break;
				case 4: err(EINTR); break;
				case 5: err(EIO); break;
				case 6: err(EAGAIN); break;
				case 7: shrt(16); break;
				}
			break;
		case M_SEND1: if (send) shrt(1); break;
		case M_SEND7: if (send) shrt(7); break;
		case M_HALF: if (send) shrt((len + 1) / 2); break;
		case M_EINTR:
			toggle = !toggle;
			if (toggle)
				err(EINTR);
			break;
		case M_EINTR_SHORT:
			toggle = !toggle;
			if (toggle)
				err(EINTR);
			else if (send)
				shrt(13);
			break;
		}
		return a;
	};
	execute(w, s);
	x.env.sock = nullptr;
	Outcome o = take(w);
	x.outcome(o.r.str());
	if (o.r.end != End::Exit) {
		x.fail("%s", o.r.str().c_str());
		return;
	}
	bool same = o.r.code == base.r.code && o.target == base.target && o.urls == base.urls && o.reads == base.reads && o.writes == base.writes;
	bool refused = o.r.failed() && o.urls.empty() && !o.wrote && o.reads.empty();
	if (bad_driver || setup_err) {
		if (o.r.failed() ? !o.urls.empty() || o.wrote : setup_err != EINTR || !same)
			x.fail("kernel hashing can't be set up (%s), but %s with %zu requests%s", bad_driver ? "driver" : strerror(setup_err), o.r.str().c_str(), o.urls.size(),
				o.wrote ? ", target written to" : "");
		(void)refused;
		return;
	}
	if (!same) {
		const char *what = o.r.code != base.r.code ? "exit status" : o.target != base.target ? "content of the target" : o.urls != base.urls ? "requests" : o.reads != base.reads ? "reads of local stores" : "writes";
		x.fail("with kernel hashing: other %s (%s; without: %s)", what, o.r.str().c_str(), base.r.str().c_str());
		return;
	}
	// it is really used
	bool used = false, needed = false;
	for (auto &e : x.ev) {
		used |= e.op == Op::Send || e.op == Op::Recv;
		needed |= e.op == Op::Http || (e.f == w.target.get() && (e.op == Op::Pread || e.op == Op::Read) && e.ret > 0);
	}
	(void)used;
	(void)needed;
	if (o.r.ok()) {
		std::string e = w.check_image();
		if (!e.empty())
			x.fail("exit 0, but %s", e.c_str());
	}
}

static Property prop = {
	.id = "C18",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		BIG[0] = fill(262144, 4);
		BIG[1] = fill(131077, 5);
		lists = {{S_H}, {S_LALL}, {S_LX}, {S_T, S_H}, {S_L1, S_HE}, {S_TA, S_H}, {S_LREST, S_T, S_H}, {S_H, S_H}};
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < NSEQ; q++)
				for (int ti = 0; ti < Chains::T_N; ti++)
					for (int m = 0; m < M_N; m++)
						for (int an = 0; an < 4; an++) {
							if (m == M_SETUP && (ti > 1 || an))
								continue;
							if (m == M_BIG && (q || (l != 0 && l != 3) || (an && ti)))
								continue;
							if (an && !thorough && m != M_FAULTS && m != M_BIG)
								continue;
							scens.push_back({q, ti, l, m, an});
						}
		return (u64)scens.size();
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) {
		const Scen &s = scens[n];
		size_t len = strlen(SEQ[s.seq]);
		if (s.mode == M_SETUP)
			return 2;
		if (s.mode != M_FAULTS && s.mode != M_BIG)
			return 0;
		if (t.thorough)
			return len <= 2 && s.mode == M_FAULTS ? 3 : 2;
		return len <= 2 && !s.answers ? 2 : 1;
	},
	.describe = [](u64 n) {
		const Scen &s = scens[n];
		std::string q;
		for (int k : lists[(size_t)s.list])
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("%s: index=%s target=%s stores=%s answers=%d", mode_name(s.mode), SEQ[s.seq], Chains::tname(s.t), q.c_str(), s.answers);
	},
	.assumptions = {"a partial transfer to the kernel's hash leaves it expecting the rest, and a digest the kernel returns completely is right"},
	.space = "6 indices x 8 initial targets x 8 store lists x 4 server behaviours, small and 256 KiB chunks; choices: every send short (1 byte, half, all but one, 64 KiB), "
	         "interrupted or failing, every receive short, empty, interrupted or failing; uniformly short and interrupted calls; every failure of the setup and unusable "
	         "driver names. Exit status, target, requests, reads of local stores and writes are compared with the run without kernel hashing",
	.bounds = "faults per run: 1-2 (quick), 2-3 (thorough)",
};
static RegisterProperty reg(&prop);
