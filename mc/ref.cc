#include "ref.h"
#define ZSTD_STATIC_LINKING_ONLY
#include <zstd.h>
#include <openssl/sha.h>
#include <cstdlib>
#include <cstdio>

Id sha256(const u8 *p, size_t n)
{
	Id i;
	SHA256(p, n, i.data());
	return i;
}

std::string hex(const u8 *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n; i++) {
		s += d[p[i] >> 4];
		s += d[p[i] & 15];
	}
	return s;
}

// ---- chunking --------------------------------------------------------------------------------
// the byte table of casync's buzhash (a constant of the file format)
static const u32 bz[256] = {
#include "buzhash.inc"
};

bool ref_params_ok(const Params &p)
{
	return p.min < p.avg && p.avg < p.max && p.max <= 0xffffffffull && p.avg >= 2 && p.avg <= 9324556;
}

static inline u32 rl(u32 x, unsigned n)
{
	n &= 31;
	return n ? (x << n) | (x >> (32 - n)) : x;
}

// Written from the definition: a chunk ends after byte i (counted from its start, at least 48 of them) if it has
// reached the maximum, or if it has reached the minimum and the hash of the last 48 bytes is -1 modulo the
// discriminator.
std::vector<u64> ref_chunks(const Bytes &b, const Params &p)
{
	std::vector<u64> out;
	u64 d = (u64)((double)p.avg / (-1.42888852e-7 * (double)p.avg + 1.33237515));
	d = std::max(d, p.min); // as casync does
	u64 start = 0, n = b.size();
	while (start < n) {
		u64 end = n;
		u32 h = 0;
		for (u64 e = start + 48; e <= n; e++) {
			if (e == start + 48) {
				h = 0;
				for (int k = 0; k < 48; k++)
					h ^= rl(bz[b[e - 48 + (u64)k]], (unsigned)(47 - k));
			} else {
				// leaving byte has been rotated 48 times by now
				h = rl(h, 1) ^ rl(bz[b[e - 49]], 48) ^ bz[b[e - 1]];
			}
			u64 len = e - start;
			if (len >= p.max || (len >= p.min && h % d == d - 1)) {
				end = e;
				break;
			}
		}
		out.push_back(end);
		start = end;
	}
	return out;
}

// ---- caibx -----------------------------------------------------------------------------------

void p64(Bytes &b, u64 v)
{
	for (int i = 0; i < 8; i++)
		b.push_back((u8)(v >> (8 * i)));
}

static u64 g64(const u8 *p)
{
	u64 v = 0;
	for (int i = 7; i >= 0; i--)
		v = v << 8 | p[i];
	return v;
}

Bytes Ix::bytes() const
{
	Bytes b;
	p64(b, header_len);
	p64(b, magic);
	p64(b, flags);
	p64(b, p.min);
	p64(b, p.avg);
	p64(b, p.max);
	p64(b, table_len);
	p64(b, table_magic);
	for (auto &x : e) {
		p64(b, x.end);
		b.insert(b.end(), x.id.begin(), x.id.end());
	}
	p64(b, z0);
	p64(b, z1);
	p64(b, index_off);
	p64(b, auto_size ? 16 + 40 * (e.size() + 1) : size);
	p64(b, tail);
	return b;
}

IxVerdict ref_index(const Bytes &b, Ix *out, std::string *why)
{
	std::string dummy;
	if (!why)
		why = &dummy;
	Ix x;
	auto bad = [&](const char *w) {
		*why = w;
		return IxVerdict::Bad;
	};
	if (b.size() < 48 + 16 + 40)
		return bad("too short");
	if ((b.size() - 48 - 16) % 40)
		return bad("fractional entries");
	size_t n = (b.size() - 48 - 16) / 40 - 1;
	const u8 *q = b.data();
	x.header_len = g64(q);
	x.magic = g64(q + 8);
	x.flags = g64(q + 16);
	x.p = {g64(q + 24), g64(q + 32), g64(q + 40)};
	x.table_len = g64(q + 48);
	x.table_magic = g64(q + 56);
	if (x.magic != 0x96824d9c7b129ff9ull)
		return bad("index magic");
	if (x.header_len < 48)
		return bad("header length");
	if (x.flags & 0x2fffffffffffffffull)
		return bad("feature flags");
	if (!ref_params_ok(x.p))
		return bad("chunk size parameters");
	if (x.table_magic != 0xe75b9e112f17417dull)
		return bad("table magic");
	u64 last = 0;
	bool entries_ok = true;
	for (size_t i = 0; i < n; i++) {
		const u8 *r = q + 64 + 40 * i;
		IxEntry e;
		e.end = g64(r);
		memcpy(e.id.data(), r + 8, 32);
		if (e.end <= last || e.end - last > 0xffffffffull)
			entries_ok = false;
		last = e.end;
		x.e.push_back(e);
	}
	const u8 *t = q + 64 + 40 * n;
	x.z0 = g64(t);
	x.z1 = g64(t + 8);
	x.index_off = g64(t + 16);
	x.size = g64(t + 24);
	x.tail = g64(t + 32);
	if (out)
		*out = x;
	if (x.z0 || x.z1)
		return bad("zero fill");
	if (x.index_off != 48)
		return bad("index offset");
	if (x.size != 16 + 40 * (n + 1))
		return bad("table size");
	if (x.tail != 0x4b4f050e5549ecd1ull)
		return bad("tail marker");
	if (!entries_ok)
		return bad("entry bounds");
	if (x.header_len != 48 || x.table_len != ~0ull)
		return IxVerdict::Tolerated;
	return IxVerdict::Good;
}

// ---- XChaCha20 (straight from RFC 8439 and draft-irtf-cfrg-xchacha) ---------------------------

static u32 g32(const u8 *p) { return (u32)p[0] | (u32)p[1] << 8 | (u32)p[2] << 16 | (u32)p[3] << 24; }

static void qr(u32 *s, int a, int b, int c, int d)
{
	s[a] += s[b]; s[d] = rl(s[d] ^ s[a], 16);
	s[c] += s[d]; s[b] = rl(s[b] ^ s[c], 12);
	s[a] += s[b]; s[d] = rl(s[d] ^ s[a], 8);
	s[c] += s[d]; s[b] = rl(s[b] ^ s[c], 7);
}

static void rounds(u32 s[16])
{
	for (int i = 0; i < 10; i++) {
		for (int c = 0; c < 4; c++)
			qr(s, c, 4 + c, 8 + c, 12 + c);
		for (int c = 0; c < 4; c++)
			qr(s, c, 4 + (c + 1) % 4, 8 + (c + 2) % 4, 12 + (c + 3) % 4);
	}
}

static const u32 sigma[4] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};

void ref_hchacha20(const u8 key[32], const u8 in[16], u8 out[32])
{
	u32 s[16];
	for (int i = 0; i < 4; i++)
		s[i] = sigma[i];
	for (int i = 0; i < 8; i++)
		s[4 + i] = g32(key + 4 * i);
	for (int i = 0; i < 4; i++)
		s[12 + i] = g32(in + 4 * i);
	rounds(s);
	for (int i = 0; i < 4; i++)
		for (int k = 0; k < 4; k++) {
			out[4 * i + k] = (u8)(s[i] >> (8 * k));
			out[16 + 4 * i + k] = (u8)(s[12 + i] >> (8 * k));
		}
}

Bytes ref_xchacha20(const u8 key[32], const u8 nonce[24], const Bytes &in)
{
	u8 sub[32];
	ref_hchacha20(key, nonce, sub);
	Bytes out(in.size());
	for (u64 blk = 0; blk * 64 < in.size(); blk++) {
		u32 s[16], w[16];
		for (int i = 0; i < 4; i++)
			s[i] = sigma[i];
		for (int i = 0; i < 8; i++)
			s[4 + i] = g32(sub + 4 * i);
		s[12] = (u32)blk;
		s[13] = (u32)(blk >> 32);
		s[14] = g32(nonce + 16);
		s[15] = g32(nonce + 20);
		memcpy(w, s, sizeof(w));
		rounds(w);
		for (int i = 0; i < 64 && blk * 64 + (u64)i < in.size(); i++)
			out[blk * 64 + (u64)i] = in[blk * 64 + (u64)i] ^ (u8)((w[i / 4] + s[i / 4]) >> (8 * (i % 4)));
	}
	return out;
}

// ---- zstd ------------------------------------------------------------------------------------

const char *zkind_name(int k)
{
	static const char *n[] = {"normal", "raw-block", "rle-block", "checksum", "no-content-size", "multi-block", "level19", "streamed"};
	return n[k];
}

static Bytes raw_frame(const Bytes &in, bool rle, u64 block)
{
	Bytes o = {0x28, 0xb5, 0x2f, 0xfd};
	// single segment, 8 byte content size
	o.push_back(0xe0);
	p64(o, in.size());
	u64 pos = 0;
	do {
		u64 n = in.size() - pos < block ? in.size() - pos : block;
		bool last = pos + n == in.size();
		u32 h = (u32)(n << 3) | (rle ? 1u << 1 : 0u) | (last ? 1 : 0);
		o.push_back((u8)h);
		o.push_back((u8)(h >> 8));
		o.push_back((u8)(h >> 16));
		if (rle)
			o.push_back(n ? in[pos] : 0);
		else
			o.insert(o.end(), in.begin() + (long)pos, in.begin() + (long)(pos + n));
		pos += n;
	} while (pos < in.size());
	return o;
}

Bytes zcompress(const Bytes &in, int kind)
{
	if (kind == Z_RAW)
		return raw_frame(in, false, 128 * 1024);
	if (kind == Z_RLE) {
		bool same = true;
		for (u8 c : in)
			same &= c == in[0];
		if (same && !in.empty())
			return raw_frame(in, true, 128 * 1024);
		return raw_frame(in, false, 37);
	}
	if (kind == Z_MULTIBLOCK)
		return raw_frame(in, false, in.size() / 3 + 1);
	ZSTD_CCtx *c = ZSTD_createCCtx();
	if (kind == Z_CHECKSUM)
		ZSTD_CCtx_setParameter(c, ZSTD_c_checksumFlag, 1);
	if (kind == Z_NOSIZE || kind == Z_STREAMED)
		ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, 0);
	ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, kind == Z_LEVEL19 ? 19 : 3);
	Bytes o(ZSTD_compressBound(in.size()) + 64 + in.size() / 8);
	size_t n;
	if (kind == Z_STREAMED) {
		// flushed after every piece: many small blocks, then an empty last one
		ZSTD_outBuffer ob = {o.data(), o.size(), 0};
		size_t piece = in.size() / 4 + 1;
		for (size_t p = 0; p < in.size(); p += piece) {
			ZSTD_inBuffer ib = {in.data() + p, std::min(piece, in.size() - p), 0};
			ZSTD_compressStream2(c, &ob, &ib, ZSTD_e_flush);
		}
		ZSTD_inBuffer ib = {nullptr, 0, 0};
		ZSTD_compressStream2(c, &ob, &ib, ZSTD_e_end);
		n = ob.pos;
	} else {
		n = ZSTD_compress2(c, o.data(), o.size(), in.data(), in.size());
	}
	ZSTD_freeCCtx(c);
	if (ZSTD_isError(n)) {
		fprintf(stderr, "zcompress failed: %s\n", ZSTD_getErrorName(n));
		abort();
	}
	o.resize(n);
	return o;
}

// ---- data ------------------------------------------------------------------------------------

Bytes fill(u64 n, u64 seed)
{
	Bytes b(n);
	u64 s = mix64(seed + 1, 0xabcdef);
	for (u64 i = 0; i < n; i++) {
		s ^= s << 13;
		s ^= s >> 7;
		s ^= s << 17;
		b[i] = (u8)(s >> 24);
	}
	return b;
}

Bytes rep(u64 n, u8 v) { return Bytes(n, v); }

Bytes cat(std::initializer_list<Bytes> l)
{
	Bytes r;
	for (auto &b : l)
		r.insert(r.end(), b.begin(), b.end());
	return r;
}
