// System call faults: short and interrupted transfers are invisible, errors never lead to a false success.
#include "chains.h"

static Chains *proto;
static bool thorough;
static const char *SEQ[] = {"", "A", "AB", "ABA", "HABCH", "ABCDEFG"};
static const int NSEQ = 6;
enum { KF_NONE, KF_FILE, KF_ENV };
struct List { std::vector<int> kinds; int key; bool casync; };
static std::vector<List> lists;

enum Mode {
	M_SPLIT,     // transfers split or interrupted, any ones up to the bound
	M_ALL1,      // every transfer moves one byte
	M_ALLHALF,   // half of what is asked for
	M_EINTR,     // every call is interrupted before it works
	M_EINTR1,    // interrupted calls and single bytes alternate
	M_EINTRMANY, // many interruptions at one call
	M_ERR,       // errors of any call, up to the bound
	M_ERRFROM,   // from some point on every call of a kind fails
	M_BODY,      // errors on top of small transfers
	M_N
};
static const char *mode_name(int m)
{
	static const char *n[] = {"split or interrupted", "bytewise", "halves", "all interrupted", "interrupted and bytewise", "often interrupted", "errors", "persistent errors",
		"errors in small transfers"};
	return n[m];
}
struct Scen { int seq, t, list, mode; };
static std::vector<Scen> scens;
static Bytes BIG[4];
static const int LARGE = NSEQ; // `seq` of an index of large entries; `t` is then 0: empty, 1: complete, 2: wrong at the end

static bool transfer(Op o) { return o == Op::Read || o == Op::Pread || o == Op::Write || o == Op::Pwrite; }

struct Outcome {
	Result r;
	Bytes target;
	std::vector<std::string> urls;
};
static Outcome take(World &w)
{
	Outcome o;
	o.r = w.res;
	o.target = w.target->content();
	for (auto &g : w.gets)
		o.urls.push_back(g.url);
	return o;
}
static std::string diff(const Outcome &a, const Outcome &b)
{
	if (a.r.str() != b.r.str())
		return strf("%s instead of %s", b.r.str().c_str(), a.r.str().c_str());
	if (a.target != b.target)
		return "the target has other content";
	if (a.urls != b.urls)
		return strf("other requests are made (%zu instead of %zu)", b.urls.size(), a.urls.size());
	return "";
}

static Result execute(Exec &x, World &w, Chains &c, const Scen &s)
{
	const List &l = lists[(size_t)s.list];
	c = *proto;
	if (s.seq == LARGE) {
		w.ix.p = Params{16384, 65536, 262144};
		Ix si;
		si.p = w.ix.p;
		Bytes all;
		for (int k : {1, 3, 0, 2}) {
			si.add(BIG[k].size(), sha256(BIG[k]));
			all = cat({all, BIG[k]});
		}
		for (int k = 0; k < 4; k++)
			w.entry(BIG[k]);
		w.write_index();
		Bytes t = s.t ? w.image() : Bytes();
		if (s.t == 2)
			t.back() ^= 1;
		w.set_target(t);
		for (int k : l.kinds)
			if (k == S_LX) {
				w.local("l", all);
				x.env.add("l.ix", si.bytes());
				w.stores.push_back("l:l.ix");
			} else if (k == S_T)
				w.stores.push_back("t");
			else
				w.http("http://h/s", k == S_HE ? KEY0_HEX : nullptr);
		w.policy = [](int, const Id &, int) { return (int)A_HIT; };
		w.remember();
		return w.run(l.casync ? "casync" : "csn");
	}
	c.index(w, digits(SEQ[s.seq]));
	c.target(w, s.t);
	int n = 0;
	for (int k : l.kinds) {
		c.add(w, k, n++);
		if (k == S_HE && l.key == KF_FILE)
			w.stores.back() = strf("http://h/%d#encrypt=file:key", n - 1);
		if (k == S_HE && l.key == KF_ENV)
			w.stores.back() = strf("http://h/%d#encrypt=env:KEY", n - 1);
	}
	if (l.key == KF_FILE)
		x.env.add("key", cat({str(KEY0_HEX), str("\n")}));
	if (l.key == KF_ENV)
		x.env.env["KEY"] = KEY0_HEX;
	w.policy = [](int, const Id &, int) { return (int)A_HIT; };
	w.remember();
	return w.run(l.casync ? "casync" : "csn");
}

static std::map<u64, Outcome> baseline;

static void run(Exec &x)
{
	Scen s = scens[x.scenario];
	if (!baseline.count(x.scenario)) {
		// the same without faults, in an environment of its own
		Exec y;
		World w(y);
		Chains c;
		y.scenario = x.scenario;
		execute(y, w, c, s);
		baseline.clear();
		baseline[x.scenario] = take(w);
	}
	const Outcome &base = baseline[x.scenario];

	World w(x);
	Chains c;
	x.env.log_alloc = s.mode == M_ERR || s.mode == M_ERRFROM;
	x.env.horizon = 3000000;
	bool toggle = false, invisible = s.mode <= M_EINTRMANY;
	int burst = 0;
	Op from = Op::Misc;
	int from_err = 0;
	x.env.io = [&](const IoReq &r) -> IoAns {
		IoAns a;
		auto err = [&](int e) {
			a.k = IoAns::Err;
			a.err = e;
		};
		auto shrt = [&](u64 n) {
			a.k = IoAns::Short;
			a.n = n;
		};
		bool tr = transfer(r.op) && r.f;
		switch (s.mode) {
		case M_SPLIT:
			if (!tr)
				break;
			switch (x.choose(6, 1)) {
			case 1: err(EINTR); break;
			case 2: shrt(1); break;
			case 3: shrt(r.len / 2); break;
			case 4: shrt(r.len - 1); break;
			case 5: shrt(37); break;
			}
			break;
		case M_ALL1: if (tr) shrt(1); break;
		case M_ALLHALF: if (tr) shrt((r.len + 1) / 2); break;
		case M_EINTR:
			toggle = !toggle;
			if (tr && toggle)
				err(EINTR);
			break;
		case M_EINTR1:
			toggle = !toggle;
			if (tr && toggle)
				err(EINTR);
			else if (tr)
				shrt(1);
			break;
		case M_EINTRMANY:
			if (!tr)
				break;
			if (burst) {
				burst--;
				err(EINTR);
			} else if (x.choose(2, 1)) {
				burst = 300;
				err(EINTR);
			}
			break;
		case M_BODY:
			if (tr)
				shrt(thorough ? 7 : 61);
			// fall through
		case M_ERR:
		case M_ERRFROM: {
			if (from != Op::Misc) {
				bool same = r.op == from || (from == Op::Pread && r.op == Op::Read) || (from == Op::Pwrite && r.op == Op::Write);
				if (same)
					err(from_err);
				break;
			}
			int e[4] = {0}, ne = 0;
			bool eof = false;
			switch (r.op) {
			case Op::Read: case Op::Pread: e[ne++] = EIO; eof = true; break;
			case Op::Write: case Op::Pwrite: if (r.f) { e[ne++] = EIO; e[ne++] = ENOSPC; } break;
			case Op::Open: e[ne++] = EACCES; e[ne++] = EMFILE; break;
			case Op::Lseek: case Op::Fstat: case Op::Ioctl: case Op::Fsync: case Op::Ftruncate: e[ne++] = EIO; break;
			case Op::Access: e[ne++] = EACCES; break;
			case Op::Alloc: e[ne++] = ENOMEM; break;
			default: break;
			}
			if (!ne)
				break;
			bool split = s.mode == M_ERR && tr;
			int k = x.choose(1 + ne + eof + (split ? 2 : 0), 1);
			if (k == 0)
				break;
			if (k <= ne) {
				err(e[k - 1]);
				if (s.mode == M_ERRFROM) {
					from = r.op == Op::Read ? Op::Pread : r.op == Op::Write ? Op::Pwrite : r.op;
					from_err = e[k - 1];
				}
			} else if (k == ne + 1 && eof)
				a.k = IoAns::Eof;
			else if (k == 1 + ne + eof)
				err(EINTR);
			else
				shrt(r.len / 2);
			break;
		}
		}
		return a;
	};
	execute(x, w, c, s);
	x.env.io = nullptr;
	Outcome o = take(w);
	x.outcome(o.r.str());
	if (o.r.end != End::Exit) {
		x.fail("%s", o.r.str().c_str());
		return;
	}
	std::string e = w.check_writes();
	if (!e.empty()) {
		x.fail("%s", e.c_str());
		return;
	}
	if (invisible) {
		e = diff(base, o);
		if (!e.empty()) {
			x.fail("with %s transfers: %s", mode_name(s.mode), e.c_str());
			return;
		}
	}
	if (o.r.ok()) {
		e = w.check_image();
		if (!e.empty())
			x.fail("exit 0, but %s", e.c_str());
	}
}

static Property prop = {
	.id = "C16",
	.prepare = [](const Tier &t) {
		thorough = t.thorough;
		proto = new Chains();
		lists = {{{S_H}, 0, false}, {{S_LALL}, 0, false}, {{S_LX}, 0, false}, {{S_T, S_H}, 0, true}, {{S_HE}, KF_FILE, false}, {{S_L1, S_LX, S_H}, 0, true},
			{{S_LREST, S_T, S_HE}, KF_FILE, false}, {{S_TA, S_H}, 0, false}, {{S_LTINY, S_LALL}, 0, false}, {{S_HE}, KF_ENV, true}, {{}, 0, false}};
		for (int l = 0; l < (int)lists.size(); l++)
			for (int q = 0; q < NSEQ; q++)
				for (int ti = 0; ti < Chains::T_N; ti++)
					for (int m = 0; m < M_N; m++) {
						if (!thorough && q >= 3 && (ti == Chains::T_LONG || ti == Chains::T_PREFIX || ti == Chains::T_BLK) && m != M_SPLIT)
							continue;
						scens.push_back({q, ti, l, m});
					}
		for (int k = 0; k < 4; k++) {
			static const u64 n[] = {3000, 70000, 262144, 4097};
			BIG[k] = fill(n[k], 70 + (u64)k);
		}
		for (int l : {0, 2, 3})
			for (int ti = 0; ti < 3; ti++)
				for (int m : {(int)M_SPLIT, (int)M_ALLHALF, (int)M_EINTR, (int)M_EINTRMANY, (int)M_ERR, (int)M_ERRFROM})
					scens.push_back({LARGE, ti, l, m});
		return (u64)scens.size();
	},
	.run = run,
	.bound = [](const Tier &t, u64 n) {
		const Scen &s = scens[n];
		if (s.seq == LARGE)
			return 1;
		bool sml = strlen(SEQ[s.seq]) <= 2, one = lists[(size_t)s.list].kinds.size() <= 1;
		switch (s.mode) {
		case M_SPLIT: return t.thorough ? (sml && one ? 3 : 2) : sml ? 2 : 1;
		case M_ERR: return t.thorough ? (sml && one ? 3 : 2) : sml && one ? 2 : 1;
		case M_EINTRMANY: return 1;
		default: return s.mode == M_BODY && t.thorough && sml ? 2 : 1;
		}
	},
	.describe = [](u64 n) {
		const Scen &s = scens[n];
		std::string q;
		for (int k : lists[(size_t)s.list].kinds)
			q += std::string(q.empty() ? "" : ",") + sk_name(k);
		return strf("%s: index=%s target=%s stores=%s%s%s", mode_name(s.mode), s.seq == LARGE ? "large chunks" : SEQ[s.seq], s.seq == LARGE ? (s.t == 0 ? "empty" : s.t == 1 ? "complete" : "wrong at the end") : Chains::tname(s.t), q.c_str(),
			lists[(size_t)s.list].key == KF_FILE ? " key in a file" : lists[(size_t)s.list].key == KF_ENV ? " key in the environment" : "",
			lists[(size_t)s.list].casync ? " (casync)" : "");
	},
	.space = "6 indices x 8 initial targets x 11 store lists (local, side-loaded, encrypted with key file, target, alias of the target) x 9 modes of faults; chunks of up to 256 KiB x 3 targets x 3 store lists x 6 modes; choices: at "
	         "every read and write a short (1 byte, half, all but one, 37 bytes) or interrupted transfer; at every system call and allocation an error or end of file, once "
	         "or from there on; all transfers short or interrupted",
	.bounds = "faults per run: 1-2 (quick), 1-3 (thorough)",
};
static RegisterProperty reg(&prop);
