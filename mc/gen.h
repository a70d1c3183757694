// The scenario space shared by the safety properties of extraction (C01, C02).
#pragma once
#include "chains.h"

struct Gen {
	// alphabet of chunk contents
	Alpha al;
	Bytes A = al[0], B = al[1], C = al[7], D = al[3];
	const Bytes *ch(int k) const { return k == 0 ? &A : k == 1 ? &B : k == 2 ? &C : &D; }

	static const int NSEQ3 = 1 + 3 + 9 + 27;
	static std::vector<int> seq(int n)
	{
		// all sequences over three symbols, by length
		int len = 0, cnt = 1;
		while (n >= cnt) {
			n -= cnt;
			cnt *= 3;
			len++;
		}
		std::vector<int> s;
		for (int i = 0; i < len; i++) {
			s.push_back(n % 3);
			n /= 3;
		}
		return s;
	}

	enum IndexMod { IM_NONE, IM_LEN_PLUS, IM_LEN_MINUS, IM_UNKNOWN_ID, IM_ZERO_LEN, IM_BACKWARDS, IM_DUP_SHORT, IM_PREFIX_LEN, IM_HUGE_LEN, IM_N };
	static const char *im_name(int m)
	{
		static const char *n[] = {"plain", "len+1", "len-1", "unknown-id", "zero-len", "backwards", "same-id-shorter", "gap", "huge-len"};
		return n[m];
	}
	// modify entry `at`
	void mod(World &w, int m, size_t at)
	{
		auto &e = w.ix.e;
		if (m == IM_NONE || e.empty())
			return;
		at %= e.size();
		u64 prev = at ? e[at - 1].end : 0;
		switch (m) {
		case IM_LEN_PLUS:
			for (size_t i = at; i < e.size(); i++)
				e[i].end++;
			break;
		case IM_LEN_MINUS:
			for (size_t i = at; i < e.size(); i++)
				e[i].end--;
			break;
		case IM_UNKNOWN_ID: e[at].id[5] ^= 0x40; break;
		case IM_ZERO_LEN: {
			IxEntry z = e[at];
			z.end = prev;
			e.insert(e.begin() + (long)at, z);
			break;
		}
		case IM_BACKWARDS: e[at].end = prev > 10 ? prev - 10 : 0; break;
		case IM_DUP_SHORT: {
			// the same id twice in a row, the second time with another length
			IxEntry z = e[at];
			u64 l = (e[at].end - prev) / 2;
			for (size_t i = at + 1; i < e.size(); i++)
				e[i].end += l;
			z.end += l;
			e.insert(e.begin() + (long)at + 1, z);
			break;
		}
		case IM_PREFIX_LEN:
			for (size_t i = at; i < e.size(); i++)
				e[i].end += 64;
			break;
		case IM_HUGE_LEN:
			for (size_t i = at; i < e.size(); i++)
				e[i].end += 0x100000000ull;
			break;
		default: break;
		}
	}

	enum TargetInit { T_EMPTY, T_ZERO, T_DONE, T_PREFIX1, T_TORN, T_SHIFTED, T_LONGER, T_REVERSED, T_BLK, T_BLK_SMALL, T_LASTBAD, T_MISSING, T_N };
	static const char *ti_name(int t)
	{
		static const char *n[] = {"empty", "zeroes", "complete", "first-chunk", "torn", "shifted", "longer", "reversed", "blockdev",
			"blockdev-too-small", "last-byte-bad", "missing"};
		return n[t];
	}
	void target(World &w, int t)
	{
		Bytes im = w.image();
		Bytes b;
		bool blk = false;
		switch (t) {
		case T_EMPTY: case T_MISSING: break;
		case T_ZERO: b = rep(im.size(), 0); break;
		case T_DONE: b = im; break;
		case T_PREFIX1: {
			b = fill(im.size(), 9);
			u64 n = w.ix.e.empty() ? 0 : w.ix.e[0].end;
			if (n > im.size())
				n = im.size();
			std::copy(im.begin(), im.begin() + (long)n, b.begin());
			break;
		}
		case T_TORN: b.assign(im.begin(), im.begin() + (long)(im.size() / 2 + (im.size() > 3 ? 1 : 0))); break;
		case T_SHIFTED:
			b = cat({rep(1, 7), im});
			break;
		case T_LONGER: b = cat({im, fill(100, 8)}); break;
		case T_REVERSED: {
			for (size_t i = w.ix.e.size(); i-- > 0;) {
				const Bytes *c = w.dict.get(w.ix.e[i].id);
				if (c)
					b = cat({b, *c});
			}
			break;
		}
		case T_BLK: b = cat({fill(im.size() + 512, 6)}); blk = true; break;
		case T_BLK_SMALL: b = fill(im.size() > 20 ? im.size() - 20 : im.size(), 6); blk = true; break;
		case T_LASTBAD:
			b = im;
			if (!b.empty())
				b.back() ^= 1;
			break;
		}
		w.set_target(b, blk);
		if (t == T_MISSING)
			w.x.env.fs.erase(w.target->path);
	}

	enum Chain { C_H, C_HH, C_LH, C_TH, C_ALIASH, C_SIDEH, C_L, C_LL, C_ENC, C_TL, C_ALIAS_SIDE, C_SIDE_STALE, C_HT, C_LTH, C_N };
	static const char *chain_name(int c)
	{
		static const char *n[] = {"H", "H,H", "L,H", "T,H", "./t,H", "L:ix,H", "L", "L,L", "Henc", "T,L", "./t:i.caibx,H", "L:stale,H", "H,T", "L,T,H"};
		return n[c];
	}
	void chain(World &w, int c)
	{
		Bytes all = cat({B, A, C, D});
		auto side = [&](const Bytes &content, const std::string &name, bool stale) {
			Ix s;
			s.p = w.ix.p;
			u64 pos = 0;
			// an index listing the alphabet as it lies in the file
			for (const Bytes *b : {&B, &A, &C, &D}) {
				(void)content;
				s.e.push_back({pos + b->size(), sha256(*b)});
				pos += b->size();
			}
			if (stale)
				std::swap(s.e[0].id, s.e[1].id);
			w.x.env.add(name, s.bytes());
		};
		switch (c) {
		case C_H: w.http("http://h/s"); break;
		case C_HH: w.http("http://h/a"); w.http("http://h/b"); break;
		case C_LH: w.local("l", all); w.stores.push_back("l"); w.http("http://h/s"); break;
		case C_TH: w.stores.push_back("t"); w.http("http://h/s"); break;
		case C_ALIASH: w.stores.push_back("./t"); w.http("http://h/s"); break;
		case C_SIDEH: w.local("l", all); side(all, "l.ix", false); w.stores.push_back("l:l.ix"); w.http("http://h/s"); break;
		case C_L: w.local("l", all); w.stores.push_back("l"); break;
		case C_LL: w.local("l", B); w.local("m", cat({A, C})); w.stores.push_back("l"); w.stores.push_back("m"); break;
		case C_ENC: w.http("http://h/e", KEY0_HEX); break;
		case C_TL: w.local("l", all); side(all, "l.ix", false); w.stores.push_back("t"); w.stores.push_back("l:l.ix"); break;
		case C_ALIAS_SIDE: w.stores.push_back("./t:i.caibx"); w.http("http://h/s"); break;
		case C_SIDE_STALE: w.local("l", all); side(all, "l.ix", true); w.stores.push_back("l:l.ix"); w.http("http://h/s"); break;
		case C_HT: w.http("http://h/s"); w.stores.push_back("t"); break;
		case C_LTH: w.local("l", all); side(all, "l.ix", false); w.stores.push_back("l:l.ix"); w.stores.push_back("t"); w.http("http://h/s"); break;
		}
	}

	struct Scen { int seq, im, at, ti, chain; };
	std::vector<Scen> scens;
	// sequences by number: see seq(); quick: everything up to length 2 and the structurally different ones of length 3
	void enumerate(bool thorough)
	{
		for (int q = 0; q < NSEQ3; q++) {
			std::vector<int> s = seq(q);
			if (!thorough && s.size() == 3) {
				// AAA AAB ABA ABB ABC CAB
				bool canon = s == std::vector<int>{0, 0, 1} || s == std::vector<int>{0, 1, 0} || s == std::vector<int>{0, 1, 1} ||
				             s == std::vector<int>{0, 1, 2} || s == std::vector<int>{2, 2, 2};
				if (!canon)
					continue;
			}
			if (!thorough && s.size() == 2 && !(s[0] == 0 || s[1] == 2))
				continue;
			for (int im = 0; im < IM_N; im++)
				for (int at = 0; at < (int)s.size() || at == 0; at++) {
					if (im == IM_NONE && at)
						continue;
					if (im && s.empty())
						continue;
					if (!thorough && s.size() == 3 && at == 1)
						continue;
					for (int ti = 0; ti < T_N; ti++)
						for (int c = 0; c < C_N; c++) {
							if (!thorough && im && s.size() == 3 && (ti == T_ZERO || ti == T_BLK || ti == T_LONGER || ti == T_SHIFTED))
								continue;
							if (ti == T_MISSING && (im || s.size() > 2))
								continue;
							if (!thorough && im && (c == C_LL || c == C_TL || c == C_HT || c == C_LTH))
								continue;
							scens.push_back({q, im, at, ti, c});
						}
				}
		}
	}
	std::string describe(const Scen &c)
	{
		std::string q;
		for (int k : seq(c.seq))
			q += "ABC"[k];
		return strf("index=%s/%s@%d target=%s stores=%s", q.c_str(), im_name(c.im), c.at, ti_name(c.ti), chain_name(c.chain));
	}
	// Indices with entries whose ids are almost those of existing chunks, while everything around delivers these chunks: the
	// HTTP stores answer with them, the local store holds them (with an index that claims them under the wanted ids) and so
	// does the target. `byte` is the one in which the ids differ; 32: the bytes after the first NUL byte, 33: all but the first
	// 4, 34: all but the last 4, 35: two bytes so that their xor stays, 36: two bytes exchanged
	struct Near { int byte, mode, chain, ti; };
	enum { NB_ALL = 37, NM_N = 5, NC_N = 5, NT_N = 4 };
	std::vector<Near> nears;
	void enumerate_near()
	{
		for (int b = 0; b < NB_ALL; b++)
			for (int m = 0; m < NM_N; m++)
				for (int c = 0; c < NC_N; c++)
					for (int t = 0; t < NT_N; t++)
						nears.push_back({b, m, c, t});
	}
	static Id near_id(Id i, int byte)
	{
		auto rng = [&](int a, int b) {
			for (int k = a; k < b; k++)
				i[(size_t)k] ^= (u8)(0x21 + k);
		};
		if (byte < 32)
			i[(size_t)byte] ^= 0x10;
		else if (byte == 32)
			rng((int)(std::find(i.begin(), i.end(), 0) - i.begin()) + 1, 32);
		else if (byte == 33)
			rng(4, 32);
		else if (byte == 34)
			rng(0, 28);
		else if (byte == 35) {
			i[3] ^= 0x44;
			i[17] ^= 0x44;
		} else {
			size_t k = 8;
			while (i[k] == i[k + 1])
				k++;
			std::swap(i[k], i[k + 1]);
		}
		return i;
	}
	Bytes nul_chunk; // its id has a NUL byte early on
	Bytes &get_nul()
	{
		for (u64 k = 0; nul_chunk.empty(); k++) {
			Bytes b = fill(61, 500 + k);
			Id i = sha256(b);
			if (std::find(i.begin() + 1, i.begin() + 8, 0) != i.begin() + 8)
				nul_chunk = b;
		}
		return nul_chunk;
	}
	std::string describe(const Near &c)
	{
		static const char *m[] = {"N", "XN", "NX", "XBN", "NBN"}, *ch[] = {"H", "L:ix,H", "t,H", "./t:i.caibx,L", "Henc"}, *t[] = {"empty", "holds it", "holds it elsewhere", "holds the beginning"};
		return strf("near ids: index=%s (N is X but for byte %d) target=%s stores=%s", m[c.mode], c.byte, t[c.ti], ch[c.chain]);
	}
	Result run(Exec &x, World &w, const Near &c)
	{
		w.ix.p = SMALL;
		w.near = true;
		const Bytes &X = get_nul();
		Id xi = w.dict.add(X), ni = near_id(xi, c.byte);
		Ix alias; // the same with X where N is wanted
		auto put = [&](bool n, const Bytes &b) {
			w.ix.add(b.size(), n ? ni : w.dict.add(b));
		};
		switch (c.mode) {
		case 0: put(true, X); break;
		case 1: put(false, X); put(true, X); break;
		case 2: put(true, X); put(false, X); break;
		case 3: put(false, X); put(false, B); put(true, X); break;
		case 4: put(true, X); put(false, B); put(true, X); break;
		}
		Bytes im;
		for (auto &e : w.ix.e)
			im = cat({im, e.id == ni ? X : *w.dict.get(e.id)});
		Bytes t;
		if (c.ti == 1)
			t = im;
		if (c.ti == 2)
			t = cat({rep(3, 1), im});
		if (c.ti == 3)
			t.assign(im.begin(), im.begin() + (long)X.size());
		w.set_target(t);
		w.write_index();
		Bytes store = cat({B, X});
		auto local = [&](bool side) {
			w.local("l", store);
			Ix s;
			s.p = w.ix.p;
			s.e.push_back({B.size(), sha256(B)});
			s.e.push_back({store.size(), ni});
			if (side) {
				w.x.env.add("l.ix", s.bytes());
				w.stores.push_back("l:l.ix");
			} else {
				w.stores.push_back("l");
			}
		};
		switch (c.chain) {
		case 0: w.http("http://h/s"); break;
		case 1: local(true); w.http("http://h/s"); break;
		case 2: w.stores.push_back("t"); w.http("http://h/s"); break;
		case 3: w.stores.push_back("./t:i.caibx"); local(false); break;
		case 4: w.http("http://h/e", KEY0_HEX); break;
		}
		w.policy = [](int, const Id &, int) { return (int)A_HIT; };
		return w.run();
	}
	// Entries of up to the largest length that is possible
	struct Large { int size, seq, ti, chain, kind; };
	static u64 large_size(int k)
	{
		static const u64 n[] = {4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000, 262143, 262144, 512, 1024, 8192};
		return n[k];
	}
	enum { LS_N = 10, LQ_N = 3, LT_N = 9, LC_N = 4, LK_N = 7 };
	static Bytes large_content(u64 n, int kind, int which)
	{
		Bytes b = fill(n, 900 + (u64)which);
		switch (kind) {
		case 1: b.assign(n, 0); break;
		case 2: b.assign(n, 0xff); break;
		case 3: b.assign(n, 0); b.back() = 1; break;
		case 4: std::fill(b.begin(), b.begin() + (long)std::min<u64>(n / 2, 4096), 0); break;
		case 5: std::fill(b.begin() + (long)(n - std::min<u64>(n / 2, 4096)), b.end(), 0); break;
		case 6:
			for (u64 i = n / 8; i < n; i++)
				b[i] = b[i - n / 8];
			break;
		}
		if (kind && which)
			b[n / 3] ^= 0x55;
		return b;
	}
	std::vector<Large> larges;
	void enumerate_large(bool thorough)
	{
		for (int k = 0; k < LS_N; k++)
			for (int q = 0; q < LQ_N; q++)
				for (int t = 0; t < LT_N; t++)
					for (int c = 0; c < LC_N; c++)
						if (thorough || k == 1 || k == 4 || k == 6 || k == 9)
							larges.push_back({k, q, t, c, 0});
		// contents that invite shortcuts
		for (int kind = 1; kind < LK_N; kind++)
			for (int k : {1, 4, 9, 10, 11, 12})
				for (int q = 0; q < LQ_N; q++)
					for (int t = 0; t < LT_N; t++)
						for (int c = 0; c < 3; c++)
							if (thorough || (q != 1 && (k < 9 || c == 0)))
								larges.push_back({k, q, t, c, kind});
	}
	std::string describe(const Large &c)
	{
		static const char *ch[] = {"H", "L:ix,H", "t,H", "Henc"};
		static const char *q[] = {"X", "XY", "BXX"};
		static const char *t[] = {"empty", "complete", "first byte bad", "last byte bad", "one byte in the middle bad", "shifted", "all but the last byte", "first half", "other data"};
		static const char *kd[] = {"", "zeroes ", "ones ", "zeroes and a one ", "zeroes first ", "zeroes last ", "periodic "};
		return strf("large %sentries of %llu bytes: index=%s target=%s stores=%s", kd[c.kind], (unsigned long long)large_size(c.size), q[c.seq], t[c.ti], ch[c.chain]);
	}
	Result run(Exec &x, World &w, const Large &c)
	{
		static std::map<u64, Bytes> cache;
		auto big = [&](u64 n, int k) -> Bytes & {
			Bytes &b = cache[(n * 2 + (u64)k) * LK_N + (u64)c.kind];
			if (b.empty())
				b = large_content(n, c.kind, k);
			return b;
		};
		u64 n = large_size(c.size);
		w.ix.p = Params{65536 / 4, 65536, 262144};
		const Bytes &X = big(n, 0), &Y = big(n, 1);
		if (c.seq == 2)
			w.entry(B);
		w.entry(X);
		if (c.seq == 1)
			w.entry(Y);
		if (c.seq == 2)
			w.entry(X);
		Bytes im = w.image(), t = im;
		switch (c.ti) {
		case 0: t.clear(); break;
		case 1: break;
		case 2: t[0] ^= 1; break;
		case 3: t.back() ^= 0x80; break;
		case 4: t[t.size() / 2 + 7] ^= 4; break;
		case 5: t = cat({rep(1, 3), im}); break;
		case 6: t.pop_back(); break;
		case 7: t.resize(t.size() / 2); break;
		case 8: t = fill(im.size(), 4242); break;
		}
		w.set_target(t);
		w.write_index();
		switch (c.chain) {
		case 0: w.http("http://h/s"); break;
		case 1: {
			Bytes st = cat({B, Y, X});
			w.local("l", st);
			Ix s;
			s.p = w.ix.p;
			s.e.push_back({B.size(), sha256(B)});
			s.e.push_back({B.size() + n, sha256(Y)});
			s.e.push_back({st.size(), sha256(X)});
			x.env.add("l.ix", s.bytes());
			w.stores.push_back("l:l.ix");
			w.http("http://h/s");
			break;
		}
		case 2: w.stores.push_back("t"); w.http("http://h/s"); break;
		case 3: w.http("http://h/e", KEY0_HEX); break;
		}
		static const int menu[] = {A_HIT, A_WRONG, A_TRUNC, A_TIMEOUT_MID, A_LONGER, A_PREFIX};
		w.policy = [&](int, const Id &, int) { return menu[x.choose(6, 1)]; };
		return w.run();
	}
	// Tens of thousands of entries
	struct Many { int n, chain, ti; };
	std::vector<Many> manys;
	void enumerate_many()
	{
		for (int n : {1023, 1025, 4097, 65535, 65536, 65537, 70000})
			for (int c = 0; c < (n < 5000 ? 4 : 2); c++)
				for (int t = 0; t < 6; t++)
					manys.push_back({n, c, t});
	}
	std::string describe(const Many &c)
	{
		static const char *ch[] = {"L", "L:ix", "H", "t,H"}, *t[] = {"empty", "zeroes", "complete", "complete but for the last entry", "complete but for an entry in the middle", "first half"};
		return strf("%d entries: target=%s stores=%s", c.n, t[c.ti], ch[c.chain]);
	}
	Result run(Exec &x, World &w, const Many &c)
	{
		w.ix.p = SMALL;
		Bytes st;
		Ix s;
		s.p = SMALL;
		std::vector<const Bytes *> ch;
		for (int i = 0; i < 8; i++)
			ch.push_back(&al[i]);
		for (auto *b : ch) {
			st = cat({st, *b});
			s.add(b->size(), sha256(*b));
		}
		Bytes im;
		std::vector<Id> ids;
		for (auto *b : ch)
			ids.push_back(w.dict.add(*b));
		u64 r = 12345;
		for (int i = 0; i < c.n; i++) {
			r = r * 6364136223846793005ull + 1442695040888963407ull;
			size_t k = (size_t)(r >> 40) % 8;
			w.ix.add(ch[k]->size(), ids[k]);
			im.insert(im.end(), ch[k]->begin(), ch[k]->end());
		}
		w.write_index();
		if (c.ti == 0)
			im.clear();
		if (c.ti == 1)
			im.assign(im.size(), 0);
		if (c.ti == 3)
			im.back() ^= 2;
		if (c.ti == 4)
			im[im.size() / 2] ^= 2;
		if (c.ti == 5)
			std::fill(im.begin() + (long)(im.size() / 2), im.end(), 0x33);
		w.set_target(im);
		w.local("l", st);
		x.env.horizon = 40 * (u64)c.n + 400000;
		switch (c.chain) {
		case 0: w.stores.push_back("l"); break;
		case 1: x.env.add("l.ix", s.bytes()); w.stores.push_back("l:l.ix"); break;
		case 2: w.http("http://h/s"); break;
		case 3: w.stores.push_back("t"); w.http("http://h/s"); break;
		}
		w.policy = [](int, const Id &, int) { return (int)A_HIT; };
		return w.run();
	}
	// Long extractions during which the content of a local store changes: by the extraction itself (the store is the
	// target, which holds the chunks in another order) or after so many reads.
	struct Alias { int n, kind, k, chain; };
	std::vector<Alias> aliases;
	void enumerate_alias()
	{
		for (int n : {5, 40, 150, 700})
			for (int c = 0; c < 4; c++) {
				for (int k = 0; k < 4; k++)
					aliases.push_back({n, 0, k, c});
				for (int kind = 1; kind < 6; kind++)
					for (int k : {0, 1, 3, 17, 63, 64, 65, 100, 129, 255, 256, 300, 600})
						if (k < n)
							aliases.push_back({n, kind, k, c});
			}
	}
	std::string describe(const Alias &c)
	{
		static const char *ch[] = {"L,H", "L:ix,H", "L:wrong ix,H", "H(even),L"};
		static const char *kn[] = {"", "inverted", "one bit changed in every chunk", "shifted", "cut off", "replaced by zeroes"};
		static const char *tn[] = {"reversed", "rotated", "rotated by a byte", "neighbours exchanged"};
		return strf("%d entries, stores=%s: ", c.n, ch[c.chain]) + (c.kind ? strf("the store is %s after %d reads", kn[c.kind], c.k) : strf("the store is the target, %s", tn[c.k]));
	}
	Result run(Exec &x, World &w, const Alias &c)
	{
		w.ix.p = SMALL;
		Bytes big = fill((u64)(c.n + 3) * 200, 77);
		std::vector<Bytes> ch;
		u64 pos = 0;
		for (u64 e : ref_chunks(big, SMALL)) {
			if ((int)ch.size() < c.n && e != big.size())
				ch.push_back(Bytes(big.begin() + (long)pos, big.begin() + (long)e));
			pos = e;
		}
		Ix s;
		s.p = SMALL;
		for (auto &b : ch)
			w.entry(b);
		w.write_index();
		std::vector<Bytes> o = ch;
		if (c.kind == 0 && c.k == 0)
			std::reverse(o.begin(), o.end());
		if (c.kind == 0 && (c.k == 1 || c.k == 2))
			std::rotate(o.begin(), o.begin() + 1 + (long)o.size() / 3, o.end());
		if (c.kind == 0 && c.k == 3)
			for (size_t i = 0; i + 1 < o.size(); i += 2)
				std::swap(o[i], o[i + 1]);
		Bytes st;
		for (auto &b : o) {
			st = cat({st, b});
			s.add(b.size() + (c.chain == 2 && s.e.size() == 2), sha256(b));
		}
		if (c.kind == 0 && c.k == 2)
			st.insert(st.begin(), 9);
		std::string name = "l";
		VF f;
		if (c.kind == 0) {
			name = "./t";
			w.set_target(st);
			f = w.target;
		} else {
			w.set_target({});
			f = w.local("l", st);
		}
		std::string l = name;
		if (c.chain == 1 || c.chain == 2) {
			x.env.add("l.ix", s.bytes());
			l += ":l.ix";
		}
		if (c.chain < 3)
			w.stores.push_back(l);
		int h = w.http("http://h/s");
		if (c.chain == 3)
			w.stores.push_back(l);
		x.env.horizon = 400 * (u64)c.n + 400000;
		std::map<Id, int> no;
		for (int i = 0; i < (int)ch.size(); i++)
			no[w.ix.e[(size_t)i].id] = i;
		w.policy = [&, h](int, const Id &id, int) { return c.chain == 3 && no[id] % 2 ? (int)A_404 : (int)A_HIT; };
		int reads = 0;
		if (c.kind)
			x.env.io = [&](const IoReq &r) -> IoAns {
				if (r.op == Op::Pread && r.f == f.get() && r.f->role == 2 && reads++ == c.k) {
					mark_unreal();
					Bytes &d = r.f->data;
					if (c.kind == 1)
						for (auto &b : d)
							b = (u8)~b;
					if (c.kind == 2)
						for (size_t i = 30; i < d.size(); i += 64)
							d[i] ^= 4;
					if (c.kind == 3)
						d.insert(d.begin(), 1);
					if (c.kind == 4)
						d.resize(std::min<size_t>(d.size(), (size_t)r.off + 70));
					if (c.kind == 5)
						std::fill(d.begin(), d.end(), 0);
					r.f->size = d.size();
				}
				return IoAns();
			};
		Result res = w.run();
		x.env.io = nullptr;
		return res;
	}
	// set up and run one scenario
	Result run(Exec &x, World &w, const Scen &c, const std::vector<int> &menu, bool write_faults = false)
	{
		w.ix.p = SMALL;
		for (int k : seq(c.seq))
			w.entry(*ch(k));
		mod(w, c.im, (size_t)c.at);
		target(w, c.ti);
		w.write_index();
		chain(w, c.chain);
		w.policy = [&x, &menu](int, const Id &, int) { return menu[(size_t)x.choose((int)menu.size(), 1)]; };
		// local stores change under the program's feet
		int muts = 0;
		x.env.io = [&](const IoReq &r) -> IoAns {
			if (r.op == Op::Pread && r.f && r.f->role == 2 && muts < 2 && r.f->size) {
				int m = x.choose(4, 1);
				if (m) {
					muts++;
					mark_unreal();
					VFile *f = r.f;
					if (m == 1)
						f->data[std::min<u64>(r.off + r.len / 2, f->data.size() - 1)] ^= 0x80;
					if (m == 2) {
						f->data.resize(std::min<u64>(f->data.size(), r.off + 1));
						f->size = f->data.size();
					}
					if (m == 3)
						std::fill(f->data.begin(), f->data.end(), 0);
				}
			}
			if (write_faults && r.f && r.f->role == 0 && (r.op == Op::Pwrite || r.op == Op::Write) && c.im == IM_NONE) {
				IoAns a;
				switch (x.choose(5, 1)) {
				case 1: a.k = IoAns::Short; a.n = 1; break;
				case 2: a.k = IoAns::Short; a.n = r.len - 1; break;
				case 3: a.k = IoAns::Err; a.err = EINTR; break;
				case 4: a.k = IoAns::Err; a.err = ENOSPC; break;
				}
				return a;
			}
			return IoAns();
		};
		Result res = w.run();
		x.env.io = nullptr;
		return res;
	}
};
