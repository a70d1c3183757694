// Runtime of the model checker: virtual environment, exhaustive explorer, worker pool, reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <array>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;
typedef std::vector<u8> Bytes;

// ---------------------------------------------------------------------------------------------
// events

enum class Op : u8 {
	Open, Close, Read, Pread, Write, Pwrite, Lseek, Fstat, Ioctl, Access, Unlink, Rename, Fsync,
	Ftruncate, Alloc, Socket, Bind, Accept, Send, Recv, Http, HttpData, HttpEnd, Sleep, Stdin,
	Getenv, Exit, Crash, Mmap, Misc,
};
const char *op_name(Op op);

struct VFile {
	std::string path;     // the first name it was created under
	Bytes data;           // dense content
	bool blk = false;     // block device: fixed size
	bool dir = false;
	bool noread = false, nowrite = false; // permissions
	bool discard = false; // huge file: beyond the dense content only pages that aren't all zero are kept
	static const u64 PAGE = 4096;
	std::map<u64, Bytes> pages; // of huge files, by offset / PAGE
	u64 size = 0;         // logical size; bytes beyond data.size() read as zero
	int role = -1;        // free for the scenario
	u32 mode = 0644;
	u64 bad_from = ~0ull, bad_to = ~0ull; // reading this range yields EIO
	u64 ver = 0;          // number of modifications

	void set(const Bytes &b) { data = b; size = b.size(); }
	void read_at(u64 off, u8 *dst, u64 n) const;
	void put_at(u64 off, const u8 *src, u64 n);
	Bytes content() const { Bytes b = data; b.resize(size); return b; }
};
typedef std::shared_ptr<VFile> VF;

struct Ev {
	Op op;
	VFile *f = nullptr;
	u64 off = 0, len = 0;
	i64 ret = 0;
	int err = 0;
	u32 aux = 0;       // free: flags of open, url index, ...
	std::string s;     // path, url
	Bytes data;        // data written (writes only)
};

struct IoReq {
	Op op;
	VFile *f;
	u64 off, len;
	const char *path;
};
struct IoAns {
	enum K : u8 { Normal, Short, Err, Eof, CrashBefore, CrashAfter } k = Normal;
	u64 n = 0;   // Short: bytes transferred; Crash*: bytes that still make it (writes)
	int err = 0;
};

// HTTP
struct HttpReply {
	int pre = 0;             // CURLcode returned before any response arrives
	long status = 200;
	Bytes body;
	std::vector<u32> cuts;   // ascending offsets where the body is cut into pieces (besides max_piece)
	u32 max_piece = 16384;
	int post = 0;            // CURLcode at the end
	u64 post_at = ~0ull;     // number of body bytes delivered before `post` happens
	std::string location;    // of a redirection
	std::function<Bytes(u64 piece)> gen; // endless bodies: produce pieces until empty
};

struct Env {
	std::map<std::string, VF> fs;
	std::map<std::string, std::string> env;
	bool tty_out = false, tty_err = false;
	std::function<IoAns(const IoReq &)> io;                       // fault injection
	std::function<void(const std::string &url, HttpReply &)> http;  // server
	std::function<IoAns(Op, u64 len)> sock;                       // kernel crypto socket faults
	bool kcapi = false;
	Bytes stdin_data;
	Bytes stdout_data;
	std::vector<u32> stdin_cuts;
	int stdin_err_at = -1;
	u64 horizon = 400000;     // maximal number of events per run
	u64 heap_limit = 0;       // ends a run that allocates more
	bool keep_write_data = true;
	bool log_alloc = false;
	bool no_history = false;  // for runs too long to be kept
	std::string cwd = "/w";
	std::function<ssize_t(int fd, const char *b, size_t n)> text; // what is printed

	VF add(const std::string &path, const Bytes &b);
	VF mkblk(const std::string &path, const Bytes &b);
	VF find(const std::string &path) const;
	std::string norm(const std::string &path) const;
};

enum class End : u8 { Exit, Abort, Crash, Horizon, Memory };
struct Result {
	End end = End::Exit;
	int code = 0;
	bool ok() const { return end == End::Exit && code == 0; }
	bool failed() const { return end == End::Exit && code != 0; }
	std::string str() const;
	u64 peak_heap = 0;
	u64 events = 0;
};

struct Exec; // one execution of a scenario

// Run a program inside the environment. Events are appended to x.ev (which is cleared before).
enum Prog { P_CSN, P_TOOL, P_PATCHDD };
Result sut_run(Exec &x, Prog p, const std::vector<std::string> &argv);

// a finished run in a form that can be repeated in the real environment
struct RecRun {
	Prog p;
	std::vector<std::string> args;
	std::string cwd;
	std::map<std::string, std::string> env;
	std::map<std::string, Bytes> before, after;   // files below cwd, by relative path
	std::set<std::string> dirs;
	Bytes stdin_data, stdout_data;
	std::vector<std::pair<std::string, HttpReply>> replies;
	Result res;
	bool replayable = true;
};
extern std::vector<RecRun> *g_record;
void mark_unreal(); // what happens in this run cannot be repeated in the real environment
// run the plain program; returns a description of the first difference or ""
std::string real_replay(const RecRun &r, const std::string &exe, const std::string &scratch, bool *skipped);

struct Choice { uint16_t pick, n; u8 cost, _pad; };

struct Violation { std::string msg; };

struct Exec {
	u64 scenario = 0;
	int bound = 0;
	int used = 0;
	std::vector<Choice> prefix; // to replay
	std::vector<Choice> taken;
	bool free_run = false;      // out of range prefix entries are errors unless free_run

	Env env;
	std::vector<Ev> ev;
	u64 h = 0;                  // rolling hash of the environment history
	u64 n_ev = 0;

	bool verbose = false;
	std::vector<std::string> notes;

	// a choice point with n alternatives; alternative 0 is the default; any other one uses up
	// `cost` deviations
	int choose(int n, int cost = 1);
	bool flip(int cost = 1) { return choose(2, cost) == 1; }

	// property oracle
	void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	std::vector<std::string> failures;
	void outcome(const std::string &s) { outcome_key = outcome_key.empty() ? s : outcome_key + "," + s; }
	std::string outcome_key;
	bool skipped = false;

	void note_state(u64 v);     // mix something into the history hash and count the state
	void reset_env() { env = Env(); ev.clear(); }
	void log_argv(const std::vector<std::string> &a);
};

// ---------------------------------------------------------------------------------------------
// properties

struct Tier { bool thorough; u64 seed; };

u64 env_heap(); // what the program holds at the moment

struct Property {
	const char *id;
	// number of scenarios of the tier; called once in the parent, before workers are started
	std::function<u64(const Tier &)> prepare;
	std::function<void(Exec &)> run;
	std::function<int(const Tier &, u64 scenario)> bound; // deviation bound of a scenario
	std::function<std::string(u64 scenario)> describe;
	bool crash_is_violation = true; // undefined behaviour voids every guarantee
	std::vector<std::string> assumptions;
	std::string space;      // description of the scenario space
	std::string bounds;
	bool conformance = true; // repeat executions in the real environment
	int timeout_s = 0;       // for one execution
};
extern Property *the_property;
struct RegisterProperty { RegisterProperty(Property *p) { the_property = p; } };

u64 hash64(const void *p, size_t n, u64 seed = 0x9e3779b97f4a7c15ull);
static inline u64 mix64(u64 a, u64 b)
{
	u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
	x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
	return x;
}
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
