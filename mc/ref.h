// Independent reference implementations of the formats and algorithms involved.
#pragma once
#include "rt.h"

typedef std::array<u8, 32> Id;

Id sha256(const u8 *p, size_t n);
static inline Id sha256(const Bytes &b) { return sha256(b.data(), b.size()); }
std::string hex(const u8 *p, size_t n);
static inline std::string hex(const Id &i) { return hex(i.data(), 32); }

struct Params { u64 min, avg, max; };
static const Params DEFAULT_PARAMS = {16384, 65536, 262144};

// casync's content defined chunking; returns the ends of all chunks
std::vector<u64> ref_chunks(const Bytes &b, const Params &p);
bool ref_params_ok(const Params &p);

// caibx
struct IxEntry { u64 end; Id id; };
struct Ix {
	u64 header_len = 0x30, magic = 0x96824d9c7b129ff9ull, flags = 0xd000000000000000ull;
	Params p = {64, 128, 256};
	u64 table_len = ~0ull, table_magic = 0xe75b9e112f17417dull;
	std::vector<IxEntry> e;
	u64 z0 = 0, z1 = 0, index_off = 0x30, size = 0, tail = 0x4b4f050e5549ecd1ull;
	bool auto_size = true;
	Bytes bytes() const;
	void add(u64 len, const Id &id) { e.push_back({(e.empty() ? 0 : e.back().end) + len, id}); }
	u64 image_size() const { return e.empty() ? 0 : e.back().end; }
};
// an independent validator: is this a well-formed caibx index by the text of C09?
enum class IxVerdict { Good, Tolerated, Bad };
IxVerdict ref_index(const Bytes &b, Ix *out, std::string *why = nullptr);

// XChaCha20
void ref_hchacha20(const u8 key[32], const u8 in[16], u8 out[32]);
Bytes ref_xchacha20(const u8 key[32], const u8 nonce[24], const Bytes &in);

// zstd frames
enum ZKind { Z_NORMAL, Z_RAW, Z_RLE, Z_CHECKSUM, Z_NOSIZE, Z_MULTIBLOCK, Z_LEVEL19, Z_STREAMED };
static const int N_ZKIND = 8;
const char *zkind_name(int k);
Bytes zcompress(const Bytes &in, int kind = Z_NORMAL);

Bytes fill(u64 n, u64 seed);         // incompressible looking data
Bytes rep(u64 n, u8 v);              // constant data
Bytes cat(std::initializer_list<Bytes> l);
static inline Bytes str(const std::string &s) { return Bytes(s.begin(), s.end()); }
void p64(Bytes &b, u64 v);
