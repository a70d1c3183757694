// Exhaustive exploration: depth-first enumeration of all choice sequences within the deviation bound,
// for every scenario, distributed over worker processes; confirmation, replay files and evidence.
#include "rt.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <set>
#include <unordered_set>
#include <atomic>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Property *the_property;

std::string strf(const char *fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	return buf;
}

u64 hash64(const void *p, size_t n, u64 seed)
{
	const u8 *b = (const u8 *)p;
	u64 h = seed ^ (n * 0xff51afd7ed558ccdull);
	while (n >= 8) {
		u64 v;
		memcpy(&v, b, 8);
		h = (h ^ v) * 0x9fb21c651e98df25ull;
		h ^= h >> 32;
		b += 8;
		n -= 8;
	}
	u64 v = 0;
	memcpy(&v, b, n);
	h = (h ^ v) * 0x9fb21c651e98df25ull;
	h ^= h >> 29;
	return h;
}

static double now_s()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------------------------------------

struct Divergence { std::string msg; };

static void publish(const Choice &c, size_t i);

static std::unordered_set<u64> *state_set;
static u64 n_transitions;

void Exec::note_state(u64 v)
{
	h = mix64(h, v);
	n_ev++;
	if (state_set)
		state_set->insert(h);
}

int Exec::choose(int n, int cost)
{
	if (n <= 1)
		return 0;
	size_t i = taken.size();
	int pick = 0;
	// a choice point that can't be afforded is not one
	bool affordable = cost == 0 || used + cost <= bound;
	if (!affordable)
		return 0;
	if (i < prefix.size()) {
		pick = prefix[i].pick;
		if (pick >= n || (prefix[i].n && prefix[i].n != n)) {
			if (!free_run)
				throw Divergence{strf("choice %zu has %d alternatives now, %d before", i, n, prefix[i].n)};
			pick = 0;
		}
	}
	taken.push_back({(uint16_t)pick, (uint16_t)n, (u8)cost, 0});
	publish(taken.back(), i);
	if (pick)
		used += cost;
	note_state((u64)pick * 7919 + 13);
	if (verbose)
		fprintf(stderr, "  choice %zu: %d of %d%s\n", i, pick, n, cost && pick ? " (deviation)" : "");
	return pick;
}

void Exec::fail(const char *fmt, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	failures.push_back(buf);
}

// the next execution in depth-first order that agrees with `taken` in the first `floor` choices
static std::vector<Choice> next_prefix(const std::vector<Choice> &taken, int bound, size_t floor = 0)
{
	std::vector<int> before(taken.size() + 1, 0);
	for (size_t i = 0; i < taken.size(); i++)
		before[i + 1] = before[i] + (taken[i].pick ? taken[i].cost : 0);
	for (size_t i = taken.size(); i-- > floor;) {
		if (taken[i].pick + 1 >= taken[i].n)
			continue;
		if (before[i] + taken[i].cost > bound)
			continue;
		std::vector<Choice> p(taken.begin(), taken.begin() + (long)i + 1);
		p[i].pick++;
		return p;
	}
	return {};
}

// the part of the rest of the search (behind `floor`) that is best given away: all alternatives that are left at
// the first choice that has some
static std::vector<Choice> split_prefix(const std::vector<Choice> &taken, int bound, size_t floor)
{
	int before = 0;
	for (size_t i = 0; i < taken.size(); i++) {
		if (i >= floor && taken[i].pick + 1 < taken[i].n && before + taken[i].cost <= bound) {
			std::vector<Choice> p(taken.begin(), taken.begin() + (long)i + 1);
			p[i].pick++;
			return p;
		}
		before += taken[i].pick ? taken[i].cost : 0;
	}
	return {};
}

// ---------------------------------------------------------------------------------------------
// shared state between parent and workers

static const int MAXCH = 6000;
struct Slot {
	std::atomic<u64> scenario;     // being worked on, ~0 if none
	std::atomic<u32> n_taken;
	std::atomic<u64> started_ns;   // start of the current execution
	std::atomic<u64> execs;
	Choice taken[MAXCH];
	std::atomic<u64> execs_total, transitions, scen_done, skipped;
	std::atomic<u32> resume;       // 1: continue after taken[] in `scenario`
	std::atomic<u32> floor;        // number of leading choices that are fixed for the subtree being explored
	std::atomic<u32> whole;        // the subtree is what is left of a whole scenario
	std::atomic<u32> busy;         // works on something or may get work without asking
};
// a part of a scenario's executions given to another worker
struct Task {
	u64 scenario;
	u32 n;
	Choice taken[MAXCH];
};
static const int MAXTASK = 64;
struct Cand {
	u64 scenario;
	u32 n;
	u32 kind; // 0 oracle, 1 crash, 2 hang, 3 divergence
	Choice taken[MAXCH];
	char msg[2048];
};
static const int MAXCAND = 24;
struct Shared {
	std::atomic<u64> next;
	std::atomic<u32> n_cand;
	std::atomic<u32> stop;
	std::atomic<u64> horizon_hits;
	std::atomic<u32> idle;         // workers looking for something to do
	std::atomic<u32> lock, n_task;
	Task task[MAXTASK];
	Cand cand[MAXCAND];
	Slot slot[64];
};
static Shared *sh;
static Property *P;
static Tier tier;
static u64 n_scen;
static std::string workdir;
static int exec_timeout_s = 20;

static void add_cand(u64 sc, const std::vector<Choice> &t, u32 kind, const std::string &msg)
{
	u32 i = sh->n_cand.fetch_add(1);
	if (i < MAXCAND) {
		Cand &c = sh->cand[i];
		c.scenario = sc;
		c.n = (u32)std::min<size_t>(t.size(), MAXCH);
		std::copy(t.begin(), t.begin() + c.n, c.taken);
		c.kind = kind;
		snprintf(c.msg, sizeof(c.msg), "%s", msg.c_str());
	}
	sh->stop = 1;
}

struct RunOut { bool failed; std::string msg; std::string outcome; bool skipped; u64 h; u64 nev; std::vector<Choice> taken; };

// the choices made are published as they are made, so that the parent knows where a worker died
static Slot *cur_slot;
static void publish(const Choice &c, size_t i)
{
	if (cur_slot && i < (size_t)MAXCH) {
		cur_slot->taken[i] = c;
		cur_slot->n_taken = (u32)i + 1;
	}
}

static RunOut run_one(u64 scenario, const std::vector<Choice> &prefix, bool verbose, Slot *slot)
{
	Exec x;
	x.scenario = scenario;
	x.prefix = prefix;
	x.bound = P->bound ? P->bound(tier, scenario) : 0;
	x.verbose = verbose;
	x.h = mix64(scenario, 0x1234);
	cur_slot = slot;
	if (slot)
		slot->n_taken = 0;
	P->run(x);
	RunOut o;
	if (x.taken.size() < prefix.size())
		throw Divergence{strf("only %zu choices made, %zu expected", x.taken.size(), prefix.size())};
	o.failed = !x.failures.empty();
	for (auto &f : x.failures)
		o.msg += (o.msg.empty() ? "" : "; ") + f;
	o.outcome = x.outcome_key;
	o.skipped = x.skipped;
	o.h = x.h;
	o.nev = x.n_ev;
	o.taken = std::move(x.taken);
	return o;
}

static void on_alarm(int)
{
	_exit(98);
}

static void arm(int s)
{
	struct itimerval it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = s;
	setitimer(ITIMER_REAL, &it, nullptr);
}

static void write_file(const std::string &p, const void *d, size_t n)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0)
		return;
	const char *b = (const char *)d;
	while (n) {
		ssize_t r = write(fd, b, n);
		if (r <= 0)
			break;
		b += r;
		n -= (size_t)r;
	}
	close(fd);
}

static long rss_mb()
{
	FILE *f = fopen("/proc/self/statm", "r");
	long a = 0, b = 0;
	if (f) {
		if (fscanf(f, "%ld %ld", &a, &b) != 2)
			b = 0;
		fclose(f);
	}
	return b * 4 / 1024;
}

static void flush_states(int id, int gen, std::map<std::string, u64> &outcomes, std::vector<std::string> &samples)
{
	std::vector<u64> v(state_set->begin(), state_set->end());
	write_file(workdir + strf("/states.%d.%d", id, gen), v.data(), v.size() * 8);
	std::string o;
	for (auto &k : outcomes)
		o += strf("%llu\t", (unsigned long long)k.second) + k.first + "\n";
	write_file(workdir + strf("/outcomes.%d.%d", id, gen), o.data(), o.size());
	std::string s;
	for (auto &k : samples)
		s += k + "\n";
	write_file(workdir + strf("/samples.%d.%d", id, gen), s.data(), s.size());
}

static std::string choices_str(const std::vector<Choice> &t)
{
	std::string s;
	size_t last = t.size();
	while (last && t[last - 1].pick == 0)
		last--;
	for (size_t i = 0; i < last; i++)
		s += (i ? "," : "") + std::to_string(t[i].pick);
	return s;
}

static void task_lock()
{
	while (sh->lock.exchange(1))
		usleep(20);
}
static void task_unlock() { sh->lock = 0; }
static bool give(u64 sc, const std::vector<Choice> &p)
{
	if (p.size() > (size_t)MAXCH)
		return false;
	bool ok = false;
	task_lock();
	u32 n = sh->n_task;
	if (n < sh->idle && n < MAXTASK) {
		Task &t = sh->task[n];
		t.scenario = sc;
		t.n = (u32)p.size();
		std::copy(p.begin(), p.end(), t.taken);
		sh->n_task = n + 1;
		ok = true;
	}
	task_unlock();
	return ok;
}
static bool take(Slot &sl, u64 &sc, std::vector<Choice> &p)
{
	bool ok = false;
	task_lock();
	u32 n = sh->n_task;
	if (n) {
		Task &t = sh->task[n - 1];
		sc = t.scenario;
		p.assign(t.taken, t.taken + t.n);
		sl.busy = 1;
		sl.scenario = sc;
		sl.floor = t.n - 1;
		sl.n_taken = 0;
		sh->n_task = n - 1;
		ok = true;
	}
	task_unlock();
	return ok;
}
static int n_workers;
// every worker is out of work: nothing can be given any more
static bool all_idle()
{
	task_lock();
	bool r = sh->n_task == 0;
	for (int i = 0; i < n_workers && r; i++)
		r = !sh->slot[i].busy;
	task_unlock();
	return r;
}

static const size_t MAX_STATES = 6000000; // per worker; beyond that only transitions are counted

static void worker(int id, int gen)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	Slot &sl = sh->slot[id];
	int log = open((workdir + strf("/log.%d", id)).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	int nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	dup2(log, 2);
	// messages of the programs are formatted, but not wanted; sanitizer reports use the descriptor
	setvbuf(stderr, (char *)malloc(1 << 16), _IOFBF, 1 << 16);
	signal(SIGALRM, on_alarm);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);

	// the programs' messages must not fill the log: stderr of stdio goes to /dev/null instead
	FILE *n = fopen("/dev/null", "w");
	setvbuf(n, (char *)malloc(1 << 16), _IOFBF, 1 << 16);
	stderr = n;
	stdout = n;

	state_set = new std::unordered_set<u64>();
	state_set->reserve(1 << 16);
	std::map<std::string, u64> outcomes;
	std::vector<std::string> samples;
	u64 since = 0;

	std::vector<Choice> resume_taken;
	bool resume = sl.resume.exchange(0);
	if (resume)
		resume_taken.assign(sl.taken, sl.taken + sl.n_taken);

	while (!sh->stop) {
		u64 sc;
		std::vector<Choice> prefix;
		bool whole = true; // a scenario, not a part of one
		sl.busy = 1;
		if (resume) {
			sc = sl.scenario;
			resume = false;
			whole = sl.whole;
			prefix = next_prefix(resume_taken, P->bound ? P->bound(tier, sc) : 0, sl.floor);
			if (prefix.empty()) {
				sl.scenario = ~0ull;
				sl.scen_done += whole;
				continue;
			}
		} else {
			sc = sh->next.load() < n_scen ? sh->next.fetch_add(1) : n_scen;
			if (sc >= n_scen) {
				// help others
				sl.busy = 0;
				sh->idle++;
				bool got = false;
				while (!sh->stop && !(got = take(sl, sc, prefix)) && !all_idle())
					usleep(300);
				sh->idle--;
				if (!got)
					break;
				sl.whole = whole = false;
			} else {
				sl.whole = true;
				sl.scenario = sc;
				sl.floor = 0;
			}
		}
		int bound = P->bound ? P->bound(tier, sc) : 0;
		for (;;) {
			if (sh->stop)
				break;
			arm(exec_timeout_s);
			RunOut o;
			try {
				o = run_one(sc, prefix, false, &sl);
			} catch (Divergence &d) {
				add_cand(sc, prefix, 3, d.msg);
				break;
			}
			arm(0);
			sl.execs_total++;
			sl.transitions += o.nev;
			if (o.skipped)
				sl.skipped++;
			outcomes[o.outcome]++;
			if (samples.size() < 3 || (samples.size() < 12 && outcomes[o.outcome] == 1))
				samples.push_back((P->describe ? P->describe(sc) : strf("scenario %llu", (unsigned long long)sc)) +
				                  " choices=[" + choices_str(o.taken) + "] -> " + o.outcome);
			if (o.failed) {
				add_cand(sc, o.taken, 0, o.msg);
				break;
			}
			// determinism: repeat every now and then and compare the histories
			if (++since % 997 == 1) {
				std::unordered_set<u64> *keep = state_set;
				state_set = nullptr;
				arm(exec_timeout_s);
				std::string diff;
				try {
					RunOut o2 = run_one(sc, o.taken, false, &sl);
					if (o2.h != o.h)
						diff = "repeating an execution gave a different history";
				} catch (Divergence &d) {
					diff = d.msg;
				}
				arm(0);
				state_set = keep;
				if (!diff.empty()) {
					add_cand(sc, o.taken, 3, diff);
					break;
				}
			}
			if (state_set->size() > MAX_STATES)
				state_set->clear(); // counted as a lower bound
			if (sh->idle > sh->n_task) {
				std::vector<Choice> part = split_prefix(o.taken, bound, sl.floor);
				if (!part.empty() && give(sc, part))
					sl.floor = (u32)part.size();
			}
			prefix = next_prefix(o.taken, bound, sl.floor);
			if (prefix.empty())
				break;
		}
		sl.scenario = ~0ull;
		sl.n_taken = 0;
		sl.scen_done += whole;
		if (since % 64 == 0 && rss_mb() > 2500) {
			// start over with a fresh process
			flush_states(id, gen, outcomes, samples);
			_exit(97);
		}
	}
	flush_states(id, gen, outcomes, samples);
	_exit(0);
}

static std::string tail_log(int id)
{
	std::string p = workdir + strf("/log.%d", id);
	FILE *f = fopen(p.c_str(), "r");
	if (!f)
		return "";
	std::string s;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof(b), f)) > 0 && s.size() < 200000)
		s.append(b, n);
	fclose(f);
	// most telling line
	size_t q = s.find("runtime error:");
	if (q == std::string::npos)
		q = s.find("ERROR: AddressSanitizer");
	if (q == std::string::npos)
		return s.substr(0, 300);
	size_t e = s.find('\n', q);
	size_t b2 = s.rfind('\n', q);
	b2 = b2 == std::string::npos ? 0 : b2 + 1;
	std::string line = s.substr(b2, e - b2);
	// first frame in the program
	size_t fr = s.find("/repo/", q);
	if (fr != std::string::npos) {
		size_t fe = s.find_first_of("\n ", fr);
		line += " at " + s.substr(fr, fe - fr);
	}
	return line.substr(0, 500);
}

// ---------------------------------------------------------------------------------------------

static std::string jesc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += (char)c;
		} else if (c < 0x20 || c >= 0x7f) {
			r += strf("\\u%04x", c);
		} else {
			r += (char)c;
		}
	}
	return r;
}

static std::string self_exe;

// run one execution in a fresh process; returns "" if it passed, else the failure
static std::string confirm(u64 sc, const std::vector<Choice> &t, int timeout_s, int *st_out)
{
	std::string out = workdir + "/confirm.txt";
	unlink(out.c_str());
	pid_t pid = fork();
	if (pid == 0) {
		std::string cs = choices_str(t);
		std::string sc_s = std::to_string(sc), to = std::to_string(timeout_s);
		std::string tr = tier.thorough ? "thorough" : "quick";
		int nul = open("/dev/null", O_WRONLY);
		dup2(nul, 1);
		int log = open((workdir + "/confirm.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(log, 2);
		execl(self_exe.c_str(), self_exe.c_str(), "--one", tr.c_str(), sc_s.c_str(), cs.c_str(), out.c_str(), to.c_str(), (char *)nullptr);
		_exit(96);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	*st_out = st;
	std::string s;
	FILE *f = fopen(out.c_str(), "r");
	if (f) {
		char b[4096];
		size_t n;
		while ((n = fread(b, 1, sizeof(b), f)) > 0)
			s.append(b, n);
		fclose(f);
	}
	return s;
}

// ---- repetition in the real environment ------------------------------------------------------

struct RealDiff { u64 scenario; std::string choices, msg; };

static const char *plain_exe(Prog p)
{
	return getenv(p == P_CSN ? "MC_PLAIN_CSN" : p == P_TOOL ? "MC_PLAIN_TOOL" : "MC_PLAIN_PATCHDD");
}

static void real_worker(int id, int nw, u64 want)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	int nul = open("/dev/null", O_WRONLY);
	dup2(nul, 1);
	dup2(nul, 2);
	signal(SIGALRM, on_alarm);
	FILE *out = fopen((workdir + strf("/real.%d", id)).c_str(), "w");
	setvbuf(out, nullptr, _IOLBF, 0);
	std::string scratch = workdir + strf("/real.d.%d", id);
	std::vector<RecRun> recs;
	std::unordered_set<u64> seen;
	// a fixed stride over the scenarios
	u64 per = std::max<u64>(1, want / 4);
	u64 step = std::max<u64>(1, n_scen / per);
	u64 tried = 0;
	double t0 = now_s();
	double budget = tier.thorough ? 120 : 12;
	for (u64 k = (u64)id; k * step < n_scen && now_s() - t0 < budget; k += (u64)nw) {
		u64 sc = std::min<u64>(n_scen - 1, k * step + mix64(k, 99) % step);
		if (tried++ > 4 * per)
			break;
		int bound = std::min(P->bound ? P->bound(tier, sc) : 0, 1);
		std::vector<std::vector<Choice>> all;
		std::vector<Choice> pre;
		for (int i = 0; i < 400; i++) {
			arm(exec_timeout_s);
			try {
				Exec x;
				x.scenario = sc;
				x.prefix = pre;
				x.bound = bound;
				P->run(x);
				all.push_back(x.taken);
				pre = next_prefix(x.taken, bound);
			} catch (Divergence &) {
				break;
			}
			arm(0);
			if (pre.empty())
				break;
		}
		arm(0);
		// the execution without deviations and some others
		std::set<size_t> pick;
		for (size_t i = 0; i < 4 && !all.empty(); i++)
			pick.insert(i ? mix64(sc, i) % all.size() : 0);
		for (size_t i : pick) {
			recs.clear();
			g_record = &recs;
			arm(exec_timeout_s);
			try {
				Exec x;
				x.scenario = sc;
				x.prefix = all[i];
				x.bound = bound;
				P->run(x);
			} catch (Divergence &) {
			}
			arm(0);
			g_record = nullptr;
			for (auto &r : recs) {
				const char *exe = plain_exe(r.p);
				if (!exe || !r.replayable)
					continue;
				u64 h = 1;
				for (auto &a : r.args)
					h = mix64(h, hash64(a.data(), a.size()));
				for (auto &f : r.before)
					h = mix64(h, hash64(f.second.data(), f.second.size()));
				for (auto &q : r.replies)
					h = mix64(h, hash64(q.second.body.data(), q.second.body.size(), (u64)q.second.status + (u64)q.second.pre * 77));
				if (!seen.insert(h).second)
					continue;
				std::string d;
				bool skipped = false;
				for (int t = 0; t < 3; t++) {
					d = real_replay(r, exe, scratch, &skipped);
					if (d.empty() || skipped)
						break;
				}
				for (char &c : d)
					if (c == '\n' || c == '\t')
						c = ' ';
				fprintf(out, "%llu\t%s\t%d\t%s\n", (unsigned long long)sc, choices_str(all[i]).c_str(), skipped ? 1 : 0, skipped ? "" : d.c_str());
			}
		}
	}
	fclose(out);
	for (const char *f : {"/stdin", "/stdout", "/stderr"})
		unlink((scratch + f).c_str());
	rmdir(scratch.c_str());
	_exit(0);
}

static std::vector<RealDiff> conformance(int nw, u64 &validated, u64 &skipped)
{
	std::vector<RealDiff> bad;
	u64 want = tier.thorough ? 1600 : 160;
	std::vector<pid_t> ps;
	for (int i = 0; i < nw; i++) {
		pid_t p = fork();
		if (p == 0)
			real_worker(i, nw, want);
		ps.push_back(p);
	}
	for (pid_t p : ps) {
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR)
			;
	}
	for (int i = 0; i < nw; i++) {
		std::string path = workdir + strf("/real.%d", i);
		FILE *f = fopen(path.c_str(), "r");
		if (!f)
			continue;
		std::string s;
		char b[65536];
		size_t n;
		while ((n = fread(b, 1, sizeof(b), f)) > 0)
			s.append(b, n);
		fclose(f);
		unlink(path.c_str());
		size_t pos = 0;
		while (pos < s.size()) {
			size_t e = s.find('\n', pos);
			if (e == std::string::npos)
				break;
			std::string l = s.substr(pos, e - pos);
			pos = e + 1;
			size_t t1 = l.find('\t'), t2 = l.find('\t', t1 + 1), t3 = l.find('\t', t2 + 1);
			if (t3 == std::string::npos)
				continue;
			if (l[t2 + 1] == '1') {
				skipped++;
				continue;
			}
			validated++;
			if (t3 + 1 < l.size())
				bad.push_back({strtoull(l.c_str(), nullptr, 10), l.substr(t1 + 1, t2 - t1 - 1), l.substr(t3 + 1)});
		}
	}
	return bad;
}

int main(int argc, char **argv)
{
	P = the_property;
	char exe[4096];
	ssize_t en = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	exe[en > 0 ? en : 0] = 0;
	self_exe = exe;
	const char *seed_s = getenv("VERIF_SEED");
	tier.seed = seed_s ? strtoull(seed_s, nullptr, 10) : 1;

	if (argc >= 5 && !strcmp(argv[1], "--one")) {
		// --one tier scenario choices [outfile timeout]
		tier.thorough = !strcmp(argv[2], "thorough");
		n_scen = P->prepare(tier);
		u64 sc = strtoull(argv[3], nullptr, 10);
		std::vector<Choice> pre;
		for (char *p = argv[4]; *p;) {
			pre.push_back({(uint16_t)strtoul(p, &p, 10), 0, 0, 0});
			if (*p == ',')
				p++;
		}
		bool verbose = argc < 6;
		if (!verbose) {
			signal(SIGALRM, on_alarm);
			arm(argc > 6 ? atoi(argv[6]) : 60);
		} else {
			fprintf(stderr, "scenario %llu: %s\n", (unsigned long long)sc, P->describe ? P->describe(sc).c_str() : "");
		}
		RunOut o;
		try {
			o = run_one(sc, pre, verbose, nullptr);
		} catch (Divergence &d) {
			fprintf(stderr, "divergence: %s\n", d.msg.c_str());
			return 95;
		}
		std::string msg = o.failed ? o.msg : "";
		if (argc >= 6)
			write_file(argv[5], msg.data(), msg.size());
		fprintf(stderr, "%s\noutcome: %s\n", o.failed ? ("FAILED: " + msg).c_str() : "passed", o.outcome.c_str());
		return o.failed ? 1 : 0;
	}
	if (argc >= 3 && !strcmp(argv[1], "--list")) {
		tier.thorough = !strcmp(argv[2], "thorough");
		n_scen = P->prepare(tier);
		for (u64 i = 0; i < n_scen; i++)
			printf("%llu %s\n", (unsigned long long)i, P->describe ? P->describe(i).c_str() : "");
		return 0;
	}
	if (argc < 4) {
		fprintf(stderr, "usage: %s quick|thorough evidence.json replaydir [max_seconds]\n", argv[0]);
		return 2;
	}
	tier.thorough = !strcmp(argv[1], "thorough");
	std::string evidence = argv[2], replaydir = argv[3];
	double max_s = argc > 4 ? atof(argv[4]) : 1e9;
	double t0 = now_s();

	char wd[] = "/tmp/mc.XXXXXX";
	char wd2[] = "/dev/shm/mc.XXXXXX";
	if (mkdtemp(wd2))
		workdir = wd2;
	else if (mkdtemp(wd))
		workdir = wd;
	else {
		perror("mkdtemp");
		return 2;
	}
	n_scen = P->prepare(tier);
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
	if (nw < 1)
		nw = 1;
	if (nw > 16)
		nw = 16;
	if (getenv("MC_WORKERS"))
		nw = atoi(getenv("MC_WORKERS"));
	n_workers = nw;
	if (P->timeout_s)
		exec_timeout_s = P->timeout_s;
	fflush(stdout);
	fflush(stderr);
	std::vector<pid_t> pids((size_t)nw, 0);
	std::vector<int> gens((size_t)nw, 0);
	auto spawn = [&](int i) {
		pid_t p = fork();
		if (p == 0)
			worker(i, gens[(size_t)i]);
		pids[(size_t)i] = p;
		gens[(size_t)i]++;
	};
	for (int i = 0; i < nw; i++) {
		sh->slot[i].scenario = ~0ull;
		spawn(i);
	}
	int alive = nw;
	u64 deaths = 0, hangs = 0;
	bool capped = false;
	std::map<std::string, u64> death_kinds;
	while (alive > 0) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p == 0) {
			if (now_s() - t0 > max_s && !sh->stop) {
				capped = true;
				sh->stop = 1;
			}
			usleep(2000);
			continue;
		}
		if (p < 0) {
			if (errno == EINTR)
				continue;
			break;
		}
		int id = -1;
		for (int i = 0; i < nw; i++)
			if (pids[(size_t)i] == p)
				id = i;
		if (id < 0)
			continue;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			alive--;
			continue;
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
			spawn(id);
			continue;
		}
		// the execution in progress ended the worker
		Slot &sl = sh->slot[id];
		u64 sc = sl.scenario;
		std::vector<Choice> t(sl.taken, sl.taken + sl.n_taken);
		bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 98;
		bool oom = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
		std::string msg;
		if (hang)
			msg = strf("no end within %d s", exec_timeout_s);
		else if (WIFSIGNALED(st))
			msg = strf("terminated by signal %d", WTERMSIG(st));
		else
			msg = tail_log(id);
		(hang ? hangs : deaths)++;
		if (death_kinds.size() < 20)
			death_kinds[msg]++;
		if (sc == ~0ull || oom) {
			sl.busy = 0;
			fprintf(stderr, "worker ended outside of an execution or was killed: %s\n", msg.c_str());
			alive--;
			if (oom)
				add_cand(sc, t, 3, "worker was killed");
			continue;
		}
		sl.execs_total++;
		if (P->crash_is_violation || deaths + hangs > 2000) {
			add_cand(sc, t, hang ? 2 : 1, msg);
			alive--;
			continue;
		}
		// not what this property is about: go on behind it. The worker's counts up to here are lost
		// except for those in shared memory.
		if (sh->stop) {
			alive--;
			continue;
		}
		sl.resume = 1;
		spawn(id);
	}

	u64 execs = 0, trans = 0, done = 0, skipped = 0;
	for (int i = 0; i < nw; i++) {
		execs += sh->slot[i].execs_total;
		trans += sh->slot[i].transitions;
		done += sh->slot[i].scen_done;
		skipped += sh->slot[i].skipped;
	}
	std::map<std::string, u64> outcomes;
	std::vector<std::string> samples;
	u64 states = 0;
	{
		std::vector<u64> all;
		for (int i = 0; i < nw; i++)
			for (int g = 0; g <= gens[(size_t)i]; g++) {
				std::string p = workdir + strf("/states.%d.%d", i, g);
				FILE *f = fopen(p.c_str(), "r");
				if (f) {
					u64 b[4096];
					size_t n;
					while ((n = fread(b, 8, 4096, f)) > 0)
						all.insert(all.end(), b, b + n);
					fclose(f);
				}
				f = fopen((workdir + strf("/outcomes.%d.%d", i, g)).c_str(), "r");
				if (f) {
					char line[8192];
					while (fgets(line, sizeof(line), f)) {
						char *tab = strchr(line, '\t');
						if (!tab)
							continue;
						std::string k = tab + 1;
						if (!k.empty() && k.back() == '\n')
							k.pop_back();
						outcomes[k] += strtoull(line, nullptr, 10);
					}
					fclose(f);
				}
				f = fopen((workdir + strf("/samples.%d.%d", i, g)).c_str(), "r");
				if (f) {
					char line[8192];
					while (fgets(line, sizeof(line), f) && samples.size() < 30) {
						std::string k = line;
						if (!k.empty() && k.back() == '\n')
							k.pop_back();
						samples.push_back(k.substr(0, 600));
					}
					fclose(f);
				}
			}
		std::sort(all.begin(), all.end());
		states = (u64)(std::unique(all.begin(), all.end()) - all.begin());
	}

	// confirm candidates in fresh processes
	std::set<std::string> reported;
	int rc = 0;
	u32 nc = std::min<u32>(sh->n_cand, MAXCAND);
	u64 violations = 0, unconfirmed = 0;
	std::vector<std::string> vmsgs;
	// fewest deviations first
	std::vector<u32> order;
	for (u32 i = 0; i < nc; i++)
		order.push_back(i);
	std::stable_sort(order.begin(), order.end(), [&](u32 a, u32 b) { return sh->cand[a].scenario < sh->cand[b].scenario; });
	for (u32 oi : order) {
		Cand &c = sh->cand[oi];
		std::vector<Choice> t(c.taken, c.taken + c.n);
		if (violations >= 5)
			break;
		int st;
		std::string m = confirm(c.scenario, t, 120, &st);
		bool crashed = WIFSIGNALED(st) || (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98));
		bool conf = false;
		std::string msg = c.msg;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !m.empty()) {
			conf = true;
			msg = m;
		} else if (crashed && P->crash_is_violation && c.kind != 3) {
			conf = true;
		}
		if (!conf) {
			// an execution that merely took long on a busy machine ends in the fresh process
			if (c.kind == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				fprintf(stderr, "slow execution: scenario %llu\n", (unsigned long long)c.scenario);
				continue;
			}
			unconfirmed++;
			fprintf(stderr, "not confirmed (status 0x%x): scenario %llu [%s] kind %u: %s\n", st, (unsigned long long)c.scenario,
			        choices_str(t).c_str(), c.kind, c.msg);
			continue;
		}
		violations++;
		mkdir(replaydir.c_str(), 0755);
		std::string cs = choices_str(t);
		u64 id = hash64(cs.data(), cs.size(), c.scenario);
		std::string path = replaydir + strf("/%s-%s-%016llx.json", P->id, tier.thorough ? "thorough" : "quick", (unsigned long long)id);
		std::string desc = P->describe ? P->describe(c.scenario) : "";
		std::string j = strf("{\"property\": \"%s\", \"tier\": \"%s\", \"scenario\": %llu, ", P->id,
		                     tier.thorough ? "thorough" : "quick", (unsigned long long)c.scenario) +
		                "\"choices\": \"" + cs + "\",\n \"description\": \"" + jesc(desc) + "\",\n \"failure\": \"" + jesc(msg) +
		                "\",\n \"replay_cmd\": \"./check " + P->id + " --replay " + path + "\"}\n";
		write_file(path, j.data(), j.size());
		printf("%s: %s\n   scenario %llu: %s choices=[%s]\n", P->id, msg.c_str(), (unsigned long long)c.scenario, desc.c_str(), cs.c_str());
		printf("VIOLATION property=%s replay=%s\n", P->id, path.c_str());
		vmsgs.push_back(msg);
		rc = 1;
	}

	u64 validated = 0;
	std::string cnote;
	u64 real_skipped = 0;
	if (P->conformance && rc == 0) {
		std::vector<RealDiff> bad = conformance(nw, validated, real_skipped);
		cnote = "executions (environment model without injected faults) repeated with the uninstrumented programs on real files, real libcurl and a loopback "
		        "server: exit status, requests, final files and output are compared";
		for (auto &d : bad) {
			violations++;
			mkdir(replaydir.c_str(), 0755);
			u64 id = hash64(d.choices.data(), d.choices.size(), d.scenario + 77);
			std::string path = replaydir + strf("/%s-real-%016llx.json", P->id, (unsigned long long)id);
			std::string desc = P->describe ? P->describe(d.scenario) : "";
			std::string j = strf("{\"property\": \"%s\", \"tier\": \"%s\", \"scenario\": %llu, ", P->id, tier.thorough ? "thorough" : "quick",
			                     (unsigned long long)d.scenario) +
			                "\"choices\": \"" + d.choices + "\",\n \"description\": \"" + jesc(desc) +
			                "\",\n \"failure\": \"the plain program in the real environment: " + jesc(d.msg) + "\"}\n";
			write_file(path, j.data(), j.size());
			printf("%s: the plain program in the real environment behaves differently: %s\n   scenario %llu: %s choices=[%s]\n", P->id, d.msg.c_str(),
			       (unsigned long long)d.scenario, desc.c_str(), d.choices.c_str());
			printf("VIOLATION property=%s replay=%s\n", P->id, path.c_str());
			rc = 1;
			if (violations >= 3)
				break;
		}
	}
	if (rc == 0 && unconfirmed)
		rc = 2;
	bool complete = !capped && done >= n_scen && rc == 0;
	double wall = now_s() - t0;
	std::string j = "{\n";
	j += strf(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"model_checking\",\n", P->id,
	          tier.thorough ? "thorough" : "quick", (unsigned long long)tier.seed);
	j += " \"coverage\": {\n";
	j += strf("  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",
	          (unsigned long long)states, (unsigned long long)trans, (unsigned long long)execs);
	j += strf("  \"executions\": %llu,\n  \"scenarios\": %llu,\n  \"scenarios_completed\": %llu,\n  \"executions_without_verdict\": %llu,\n",
	          (unsigned long long)execs, (unsigned long long)n_scen, (unsigned long long)done, (unsigned long long)skipped);
	j += strf("  \"exhaustive\": %s,\n  \"time_cap_hit\": %s,\n", complete ? "true" : "false", capped ? "true" : "false");
	j += strf("  \"real_environment_runs\": %llu,\n  \"real_environment_skipped\": %llu,\n", (unsigned long long)validated, (unsigned long long)real_skipped);
	if (!cnote.empty())
		j += "  \"conformance\": \"" + jesc(cnote) + "\",\n";
	j += "  \"space\": \"" + jesc(P->space) + "\",\n  \"bounds\": \"" + jesc(P->bounds) + "\",\n";
	j += "  \"rule\": \"states: distinct histories of environment answers (prefixes of executions); transitions: environment answers given to the "
	     "real program; traces_validated_against_impl: complete executions, every one of which is an execution of the compiled /repo sources\",\n";
	j += strf("  \"distinct_outcomes\": %zu,\n  \"outcomes\": {", outcomes.size());
	std::vector<std::pair<std::string, u64>> ov(outcomes.begin(), outcomes.end());
	std::sort(ov.begin(), ov.end(), [](auto &a, auto &b) { return a.second > b.second; });
	for (size_t i = 0; i < ov.size() && i < 40; i++)
		j += strf("%s\"%s\": %llu", i ? ", " : "", jesc(ov[i].first).c_str(), (unsigned long long)ov[i].second);
	j += "},\n  \"abnormal_ends\": {";
	size_t k = 0;
	for (auto &d : death_kinds)
		j += strf("%s\"%s\": %llu", k++ ? ", " : "", jesc(d.first).c_str(), (unsigned long long)d.second);
	j += "},\n  \"samples\": [";
	for (size_t i = 0; i < samples.size() && i < 12; i++)
		j += strf("%s\n   \"%s\"", i ? "," : "", jesc(samples[i]).c_str());
	j += "]\n },\n \"assumptions\": [";
	for (size_t i = 0; i < P->assumptions.size(); i++)
		j += strf("%s\"%s\"", i ? ", " : "", jesc(P->assumptions[i]).c_str());
	j += strf("],\n \"wall_s\": %.2f,\n \"violations\": %llu\n}\n", wall, (unsigned long long)violations);
	write_file(evidence, j.data(), j.size());

	printf("%s %s: %llu scenarios (%llu done), %llu executions, %llu states, %llu transitions, %zu outcomes, %llu abnormal ends, %llu real runs, %.1f s%s\n",
	       P->id, tier.thorough ? "thorough" : "quick", (unsigned long long)n_scen, (unsigned long long)done,
	       (unsigned long long)execs, (unsigned long long)states, (unsigned long long)trans, outcomes.size(),
	       (unsigned long long)(deaths + hangs), (unsigned long long)validated, wall, capped ? " (time cap hit)" : "");
	for (size_t i = 0; i < ov.size() && i < 12; i++)
		printf("   %10llu  %s\n", (unsigned long long)ov[i].second, ov[i].first.c_str());
	// remove the scratch directory
	for (int i = 0; i < nw; i++) {
		unlink((workdir + strf("/log.%d", i)).c_str());
		for (int g = 0; g <= gens[(size_t)i]; g++) {
			unlink((workdir + strf("/states.%d.%d", i, g)).c_str());
			unlink((workdir + strf("/outcomes.%d.%d", i, g)).c_str());
			unlink((workdir + strf("/samples.%d.%d", i, g)).c_str());
		}
	}
	unlink((workdir + "/confirm.txt").c_str());
	unlink((workdir + "/confirm.log").c_str());
	rmdir(workdir.c_str());
	return rc;
}
