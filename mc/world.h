// Building blocks for extraction scenarios.
#pragma once
#include "rt.h"
#include "ref.h"
#include <set>
#include <deque>
#include <algorithm>
#include <cerrno>

// what an HTTP server does with one request for a chunk
enum Ans : int {
	A_HIT,            // the chunk
	A_404, A_410,     // not there
	A_GARBAGE,        // 200 with data that isn't zstd
	A_EMPTY,          // 200 without body
	A_TRUNC,          // 200, body cut off in the middle
	A_FLIP,           // 200, one bit flipped in the middle of the (compressed) data
	A_WRONG,          // 200, a valid frame with other data of the same length
	A_PREFIX,         // 200, a valid frame with only the first part of the data
	A_LONGER,         // 200, a valid frame with the data and one more byte
	A_HUGE,           // 200, a valid frame of more than any chunk buffer
	A_500, A_403, A_503,
	A_204,            // success without content
	A_FATAL,          // transfer error that is not transient (before a response)
	A_FATAL_MID,      // the same in the middle of the body
	A_CONN,           // could not connect
	A_RESOLVE,        // could not resolve
	A_TIMEOUT,        // timeout before a response
	A_TIMEOUT_MID,    // timeout in the middle of the body
	A_TIMEOUT_END,    // timeout with the complete body delivered
	A_SHORT1,         // one byte of the body
	A_HITGARB,        // the chunk followed by garbage
	A_N
};
const char *ans_name(int a);
static inline bool ans_transient(int a) { return a == A_CONN || a == A_RESOLVE || a == A_TIMEOUT || a == A_TIMEOUT_MID || a == A_TIMEOUT_END; }
static inline bool ans_fatal(int a) { return a == A_FATAL || a == A_FATAL_MID; }
static inline bool ans_error(int a) { return a == A_500 || a == A_403 || a == A_503; }
static inline bool ans_bad(int a) { return a == A_GARBAGE || a == A_EMPTY || a == A_TRUNC || a == A_FLIP || a == A_WRONG || a == A_PREFIX || a == A_LONGER || a == A_HUGE || a == A_SHORT1 || a == A_204; }

struct HttpDef {
	std::string base;        // without attributes and trailing slash
	bool enc = false;
	u8 key[32];
	int zkind = Z_NORMAL;
	int redirect = 0, hops = 1; // status of a redirection in front of every answer, and how many of them
};

struct Get { int store; Id id; bool wellformed; int ans; std::string url; u64 ev; };

// known contents by id
struct Dict {
	std::map<Id, Bytes> m;
	Id add(const Bytes &b)
	{
		Id i = sha256(b);
		m[i] = b;
		return i;
	}
	const Bytes *get(const Id &i) const
	{
		auto it = m.find(i);
		return it == m.end() ? nullptr : &it->second;
	}
};

struct World {
	Exec &x;
	Dict dict;
	Ix ix;
	Bytes ixb;                 // the bytes of the index file
	std::string index_path = "i.caibx", target_path = "t";
	VF target;
	std::vector<std::string> stores;      // command line arguments
	std::vector<HttpDef> https;
	std::vector<Get> gets;                // requests in order
	HttpReply moved, moved_to;            // the redirection under way and what it leads to
	int moved_hops = 0;
	// decides the answer to the n-th request of this store for this chunk (n counts from 0)
	std::function<int(int store, const Id &id, int nth)> policy;
	std::function<void(HttpReply &, int store, const Id &id)> tweak;
	std::map<std::pair<int, Id>, int> counts;
	Result res;
	Bytes target_before;
	bool big_alarm = false;
	bool near = false;         // stores answer requests for unknown ids with the known chunk whose id is the most similar

	explicit World(Exec &e) : x(e) {}

	Id chunk(const Bytes &b) { return dict.add(b); }
	void entry(const Bytes &b) { ix.add(b.size(), dict.add(b)); }
	void write_index() { ixb = ix.bytes(); x.env.add(index_path, ixb)->role = 1; }
	VF set_target(const Bytes &b, bool blk = false);
	Bytes image() const;       // content by the index (all ids must be known)
	int http(const std::string &base, const char *keyhex = nullptr, const std::string &suffix = "");
	VF local(const std::string &name, const Bytes &content, bool blk = false);
	void serve(const std::string &url, HttpReply &r);
	void build_reply(HttpReply &r, int store, const Id &id, int ans);
	Result run(const std::string &prog = "csn");
	Result run_args(const std::vector<std::string> &args);

	// oracles; return a description of what is wrong or ""
	std::string check_image() const;                // the target holds what the index demands (C01)
	std::string check_writes() const;               // every modification so far (C02)
	std::vector<std::pair<std::string, u64>> versions; // of the other files, for check_writes
	void remember();

	u64 prefix_entries(const Bytes &t) const;       // number of leading entries intact in t
};

struct RefOut {
	bool success = false;
	std::vector<std::pair<int, Id>> gets;    // chunk retrievals from HTTP stores (retries collapsed)
	std::string mismatch;
	bool missing = false;    // all requests are accounted for, but another one was due
	bool unsure = false;
	std::vector<int> by;     // which store delivers the entry (-1: none needed, -2: none)
	size_t used = 0;
};

// parameters of the reference chain: which stores exist in which order
struct RefStore {
	enum K { HTTP, LOCAL, TARGET } k;
	int http = -1;
	std::set<Id> has;
	std::set<Id> unreadable;      // of these
	bool dead = false, maybe_dead = false;
	int err_lo = 0, err_hi = 0;
};
// Replays the answers recorded in w.gets against the rules of C03/C04/C12; any difference in order or
// number of requests is described in `mismatch`.
RefOut ref_chain(World &w, std::vector<RefStore> chain, const Bytes &target_before, size_t first_get = 0);

extern const u8 KEY0[32];
extern const char *KEY0_HEX;

// mixed radix decomposition of scenario numbers
struct Radix {
	u64 v;
	explicit Radix(u64 n) : v(n) {}
	int operator()(u64 n)
	{
		u64 r = v % n;
		v /= n;
		return (int)r;
	}
};

std::string id_short(const Id &i);
