#include "world.h"
#include <curl/curl.h>

const u8 KEY0[32] = {0x00, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff,
                     0x0f, 0x1e, 0x2d, 0x3c, 0x4b, 0x5a, 0x69, 0x78, 0x87, 0x96, 0xa5, 0xb4, 0xc3, 0xd2, 0xe1, 0xf0};
const char *KEY0_HEX = "00112233445566778899aabbccddeeff0f1e2d3c4b5a69788796a5b4c3d2e1f0";

const char *ans_name(int a)
{
	static const char *n[] = {"hit", "404", "410", "garbage", "empty", "truncated", "bitflip", "wrong", "prefix", "longer", "huge", "500",
		"403", "503", "204", "fatal", "fatal-mid", "connect", "resolve", "timeout", "timeout-mid", "timeout-end", "onebyte", "hit+garbage"};
	return n[a];
}

std::string id_short(const Id &i) { return hex(i.data(), 4); }

VF World::set_target(const Bytes &b, bool blk)
{
	target = x.env.add(target_path, b);
	target->blk = blk;
	target->role = 0;
	target_before = b;
	return target;
}

VF World::local(const std::string &name, const Bytes &content, bool blk)
{
	VF f = x.env.add(name, content);
	f->blk = blk;
	f->role = 2;
	return f;
}

Bytes World::image() const
{
	Bytes r;
	for (auto &e : ix.e) {
		const Bytes *b = dict.get(e.id);
		if (b)
			r.insert(r.end(), b->begin(), b->end());
	}
	return r;
}

static int hexval(char c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	if (c >= 'a' && c <= 'f')
		return c - 'a' + 10;
	return -1;
}

int World::http(const std::string &base, const char *keyhex, const std::string &suffix)
{
	HttpDef d;
	d.base = base;
	if (keyhex) {
		d.enc = true;
		for (int i = 0; i < 32; i++)
			d.key[i] = (u8)(hexval(keyhex[2 * i]) << 4 | hexval(keyhex[2 * i + 1]));
	}
	https.push_back(d);
	stores.push_back(base + suffix + (keyhex ? std::string("#encrypt=key:") + keyhex : ""));
	return (int)https.size() - 1;
}

static std::map<std::pair<Id, int>, Bytes> zcache;
static const Bytes &zget(const Id &id, const Bytes &data, int kind)
{
	auto k = std::make_pair(id, kind);
	auto it = zcache.find(k);
	if (it != zcache.end())
		return it->second;
	if (zcache.size() > 4000)
		zcache.clear();
	return zcache[k] = zcompress(data, kind);
}

void World::build_reply(HttpReply &r, int store, const Id &wanted, int ans)
{
	HttpDef &h = https[(size_t)store];
	Id id = wanted;
	const Bytes *d = dict.get(id);
	if (!d && near) {
		int most = -1;
		for (auto &p : dict.m) {
			int same = 0;
			for (size_t i = 0; i < 32; i++)
				same += p.first[i] == wanted[i];
			if (same > most) {
				most = same;
				id = p.first;
				d = &p.second;
			}
		}
	}
	Bytes dummy;
	if (!d) {
		dummy = fill(64, 77);
		d = &dummy;
	}
	auto enc = [&](const Bytes &b) { return h.enc ? ref_xchacha20(h.key, wanted.data(), b) : b; };
	switch (ans) {
	case A_HIT: r.body = enc(zget(id, *d, h.zkind)); break;
	case A_HITGARB: {
		Bytes b = zget(id, *d, h.zkind);
		Bytes g = fill(40, 5);
		b.insert(b.end(), g.begin(), g.end());
		r.body = enc(b);
		break;
	}
	case A_404: r.status = 404; r.body = str("not found\n"); break;
	case A_410: r.status = 410; break;
	case A_500: r.status = 500; r.body = str("oops"); break;
	case A_403: r.status = 403; break;
	case A_503: r.status = 503; r.body = str("busy"); break;
	case A_204: r.status = 204; break;
	case A_GARBAGE: r.body = fill(100, 3); break;
	case A_EMPTY: break;
	case A_SHORT1: r.body = enc(Bytes{0x28}); break;
	case A_TRUNC: {
		Bytes b = zget(id, *d, h.zkind);
		b.resize(b.size() / 2 + 3);
		r.body = enc(b);
		break;
	}
	case A_FLIP: {
		Bytes b = zget(id, *d, Z_RAW);
		b[b.size() - 1 - d->size() / 2] ^= 0x10;
		r.body = enc(b);
		break;
	}
	case A_WRONG: {
		Bytes b = *d;
		b[b.size() / 2] ^= 1;
		r.body = enc(zcompress(b, h.zkind));
		break;
	}
	case A_PREFIX: {
		Bytes b(d->begin(), d->begin() + (long)(d->size() / 2));
		r.body = enc(zcompress(b, h.zkind));
		break;
	}
	case A_LONGER: {
		Bytes b = *d;
		b.push_back(0x55);
		r.body = enc(zcompress(b, h.zkind));
		break;
	}
	case A_HUGE: {
		Bytes b = *d;
		b.resize(300 * 1024, 0x11);
		r.body = enc(zcompress(b, h.zkind));
		break;
	}
	case A_FATAL: r.pre = CURLE_RECV_ERROR; break;
	case A_FATAL_MID: r.body = enc(zget(id, *d, h.zkind)); r.post = CURLE_PARTIAL_FILE; r.post_at = r.body.size() / 2; break;
	case A_CONN: r.pre = CURLE_COULDNT_CONNECT; break;
	case A_RESOLVE: r.pre = CURLE_COULDNT_RESOLVE_HOST; break;
	case A_TIMEOUT: r.pre = CURLE_OPERATION_TIMEDOUT; break;
	case A_TIMEOUT_MID: r.body = enc(zget(id, *d, h.zkind)); r.post = CURLE_OPERATION_TIMEDOUT; r.post_at = r.body.size() / 2; break;
	case A_TIMEOUT_END: r.body = enc(zget(id, *d, h.zkind)); r.post = CURLE_OPERATION_TIMEDOUT; break;
	default: abort();
	}
}

void World::serve(const std::string &url, HttpReply &r)
{
	if (url.compare(0, 13, "http://moved/") == 0) {
		if (--moved_hops > 0) {
			r.status = moved.status;
			r.location = url + "x";
		} else {
			r = moved_to;
		}
		return;
	}
	// the longest matching base wins
	int best = -1;
	auto fits = [&](int i) { return url.size() == https[(size_t)i].base.size() + 6 + 64 + (https[(size_t)i].enc ? 10u : 6u); };
	for (size_t i = 0; i < https.size(); i++)
		if (url.compare(0, https[i].base.size() + 1, https[i].base + "/") == 0 &&
		    (best < 0 || https[i].base.size() > https[(size_t)best].base.size() ||
		     (https[i].base == https[(size_t)best].base && !fits(best) && fits((int)i))))
			best = (int)i;
	Get g;
	g.store = best;
	g.wellformed = false;
	g.ans = A_404;
	g.url = url;
	g.ev = x.ev.size() - 1;
	g.id.fill(0);
	if (best >= 0) {
		std::string rest = url.substr(https[(size_t)best].base.size() + 1);
		std::string suf = https[(size_t)best].enc ? ".cacnk.enc" : ".cacnk";
		if (rest.size() == 5 + 64 + suf.size() && rest[4] == '/' && rest.compare(0, 4, rest, 5, 4) == 0 &&
		    rest.substr(69) == suf) {
			g.wellformed = true;
			for (int i = 0; i < 32; i++) {
				int a = hexval(rest[(size_t)(5 + 2 * i)]), b = hexval(rest[(size_t)(6 + 2 * i)]);
				if (a < 0 || b < 0)
					g.wellformed = false;
				g.id[(size_t)i] = (u8)(a << 4 | b);
			}
		}
	}
	if (g.wellformed) {
		int nth = counts[{best, g.id}]++;
		g.ans = policy ? policy(best, g.id, nth) : A_HIT;
		if (g.ans == A_HIT && !near && !dict.get(g.id))
			g.ans = A_404;
		build_reply(r, best, g.id, g.ans);
		if (tweak)
			tweak(r, best, g.id);
		if (https[(size_t)best].redirect && (!r.pre || r.pre == CURLE_RECV_ERROR)) {
			moved_to = r;
			moved = HttpReply();
			moved.status = https[(size_t)best].redirect;
			moved.body = str("moved");
			moved.location = strf("http://moved/%zu", gets.size());
			moved_hops = https[(size_t)best].hops;
			r = moved;
		}
	} else {
		r.status = 404;
	}
	gets.push_back(g);
	if (x.verbose)
		fprintf(stderr, "      store %d chunk %s: %s\n", g.store, id_short(g.id).c_str(), g.wellformed ? ans_name(g.ans) : "malformed request");
	x.note_state((u64)g.ans * 31 + 7);
}

void World::remember()
{
	versions.clear();
	for (auto &p : x.env.fs)
		versions.push_back({p.first, p.second->ver});
	if (target && !target->discard) // (else the scenario looks after it)
		target_before = target->content();
}

Result World::run_args(const std::vector<std::string> &args)
{
	x.env.http = [this](const std::string &u, HttpReply &r) { serve(u, r); };
	gets.clear();
	counts.clear();
	remember();
	res = sut_run(x, P_CSN, args);
	return res;
}

Result World::run(const std::string &prog)
{
	std::vector<std::string> a;
	if (prog == "casync") {
		a = {"casync"};
		for (auto &s : stores) {
			a.push_back(s.compare(0, 4, "http") == 0 ? "--store" : "--seed");
			a.push_back(s);
		}
		a.push_back("extract");
		a.push_back(index_path);
		a.push_back(target_path);
	} else {
		a = {prog, index_path, target_path};
		for (auto &s : stores)
			a.push_back(s);
	}
	return run_args(a);
}

std::string World::check_image() const
{
	Ix p;
	ref_index(ixb, &p);
	Bytes t = target ? target->content() : Bytes();
	u64 pos = 0;
	for (size_t i = 0; i < p.e.size(); i++) {
		u64 end = p.e[i].end;
		if (end <= pos)
			return strf("entry %zu has no extent, yet the extraction succeeded", i);
		u64 len = end - pos;
		if (end > t.size())
			return strf("entry %zu (offset %llu, length %llu) lies beyond the end of the target (%zu)", i, (unsigned long long)pos,
			            (unsigned long long)len, t.size());
		if (sha256(t.data() + pos, len) != p.e[i].id)
			return strf("entry %zu (offset %llu, length %llu): target content does not have the chunk id %s", i, (unsigned long long)pos,
			            (unsigned long long)len, id_short(p.e[i].id).c_str());
		pos = end;
	}
	return "";
}

std::string World::check_writes() const
{
	Ix p;
	IxVerdict v = ref_index(ixb, &p);
	(void)v;
	// the image ends where the index stops making sense
	u64 size = 0;
	for (size_t i = 0; i < p.e.size(); i++) {
		if (p.e[i].end <= size || p.e[i].end - size > 0xffffffffull) {
			p.e.resize(i);
			break;
		}
		size = p.e[i].end;
	}
	for (auto &e : x.ev) {
		switch (e.op) {
		case Op::Write:
		case Op::Pwrite: {
			if (!e.f)
				break; // standard output
			if (e.f != target.get())
				return strf("write to %s", e.f->path.c_str());
			if (e.ret <= 0)
				break;
			u64 n = (u64)e.ret;
			if (e.off + n > size)
				return strf("write of %llu bytes at %llu exceeds the image (%llu bytes)", (unsigned long long)n, (unsigned long long)e.off,
				            (unsigned long long)size);
			// compare with what the index demands
			// (the ends are strictly increasing)
			size_t i = (size_t)(std::upper_bound(p.e.begin(), p.e.end(), e.off, [](u64 o, const auto &q) { return o < q.end; }) - p.e.begin());
			for (; i < p.e.size(); i++) {
				u64 pos = i ? p.e[i - 1].end : 0, end = p.e[i].end;
				if (pos >= e.off + n)
					break;
				const Bytes *c = dict.get(p.e[i].id);
				if (!c || c->size() != end - pos)
					return strf("data was written for entry %zu, for which no valid data exists", i);
				u64 a = std::max(pos, e.off), b = std::min(end, e.off + n);
				if (!e.data.empty() && memcmp(e.data.data() + (a - e.off), c->data() + (a - pos), b - a))
					return strf("wrong data written for entry %zu (write of %llu bytes at %llu)", i, (unsigned long long)n,
					            (unsigned long long)e.off);
			}
			break;
		}
		case Op::Ftruncate: return strf("truncated or allocated %s", e.f ? e.f->path.c_str() : "?");
		case Op::Unlink:
		case Op::Rename: return strf("%s %s", op_name(e.op), e.s.c_str());
		case Op::Misc: return strf("unexpected file system operation %s", e.s.c_str());
		case Op::Open:
			if (e.off)
				return strf("created or truncated %s", e.s.c_str());
			break;
		default: break;
		}
	}
	for (auto &q : versions) {
		auto it = x.env.fs.find(q.first);
		if (it == x.env.fs.end())
			return "file " + q.first + " is gone";
		if (it->second != target && it->second->ver != q.second)
			return "file " + q.first + " was modified";
	}
	if (x.env.fs.size() != versions.size())
		return "a file was created";
	if (target) {
		Bytes t = target->content();
		if (target->size < target_before.size())
			return "the target shrank";
		if (target->size > std::max<u64>(target_before.size(), size))
			return "the target grew beyond the image";
		if (target_before.size() > size && memcmp(t.data() + size, target_before.data() + size, target_before.size() - size))
			return "bytes behind the image were changed";
	}
	return "";
}

u64 World::prefix_entries(const Bytes &t) const
{
	u64 pos = 0, n = 0;
	for (auto &e : ix.e) {
		if (e.end > t.size() || e.end - pos > 256 * 1024)
			break;
		if (sha256(t.data() + pos, e.end - pos) != e.id)
			break;
		pos = e.end;
		n++;
	}
	return n;
}

RefOut ref_chain(World &w, std::vector<RefStore> chain, const Bytes &before, size_t first)
{
	RefOut o;
	size_t gi = first;
	u64 n0 = w.prefix_entries(before);
	std::set<Id> on_target;
	for (size_t i = 0; i < n0; i++)
		on_target.insert(w.ix.e[i].id);
	Id last;
	bool have_last = false;
	auto mism = [&](const std::string &s) {
		if (o.mismatch.empty())
			o.mismatch = s;
	};
	u64 pos = n0 ? w.ix.e[n0 - 1].end : 0;
	o.by.assign(w.ix.e.size(), -1);
	for (size_t i = n0; i < w.ix.e.size(); i++) {
		Id id = w.ix.e[i].id;
		u64 len = w.ix.e[i].end - pos;
		pos = w.ix.e[i].end;
		const Bytes *content = w.dict.get(id);
		if (have_last && last == id) {
			on_target.insert(id);
			continue;
		}
		bool found = false;
		o.by[i] = -2;
		for (size_t k = 0; k < chain.size() && !found; k++) {
			RefStore &s = chain[k];
			struct Note {
				RefOut &o;
				bool &f;
				size_t i, k;
				~Note() { if (f) o.by[i] = (int)k; }
			} note{o, found, i, k};
			if (s.dead)
				continue;
			if (s.k == RefStore::TARGET) {
				found = on_target.count(id) > 0;
				continue;
			}
			if (s.k == RefStore::LOCAL) {
				if (s.has.count(id)) {
					if (s.unreadable.count(id))
						s.dead = true;
					else
						found = true;
				}
				continue;
			}
			// HTTP
			auto wants = [&]() {
				return gi < w.gets.size() && w.gets[gi].wellformed && w.gets[gi].store == s.http && w.gets[gi].id == id;
			};
			if (s.maybe_dead) {
				// whether a bad copy counts as a complete response is left open
				if (!wants()) {
					s.dead = true;
					continue;
				}
				s.maybe_dead = false;
				s.err_hi = 10;
				s.err_lo = std::min(s.err_lo, 10);
			}
			o.gets.push_back({s.http, id});
			int tries = 0;
			for (;;) {
				if (gi >= w.gets.size()) {
					o.missing = o.mismatch.empty();
					mism(strf("no request to store %d for chunk %zu (attempt %d), although it was next", s.http, i, tries + 1));
					return o;
				}
				Get &g = w.gets[gi];
				if (!wants()) {
					mism(strf("request %zu: expected chunk %zu (%s) from store %d (attempt %d), got %s", gi, i, id_short(id).c_str(), s.http,
					          tries + 1, g.url.c_str()));
					return o;
				}
				gi++;
				tries++;
				if (ans_transient(g.ans) && tries < 10)
					continue;
				if (g.ans == A_HIT && content) {
					s.err_lo = s.err_hi = 0;
					found = true;
				} else if (g.ans == A_HITGARB) {
					s.err_lo = 0; // may or may not be accepted; decided by what comes next
					found = !(gi < w.gets.size() && w.gets[gi].id == id) && content;
					if (found)
						o.unsure = true;
				} else if (ans_fatal(g.ans)) {
					s.dead = true;
				} else if (ans_error(g.ans) || ans_transient(g.ans)) {
					s.err_lo++;
					s.err_hi++;
					if (s.err_lo > 10)
						s.dead = true;
					else if (s.err_hi > 10)
						s.maybe_dead = true;
				} else if (g.ans == A_404 || g.ans == A_410 || g.ans == A_GARBAGE) { // garbage is not received to its end
				} else if (g.ans == A_WRONG || g.ans == A_PREFIX) { // complete, if useless
					s.err_lo = s.err_hi = 0;
				} else {
					s.err_lo = 0; // a bad copy may count as a complete response
				}
				break;
			}
		}
		if (!found || !content || content->size() != len) {
			o.used = gi;
			if (gi < w.gets.size())
				mism(strf("unexpected request %s", w.gets[gi].url.c_str()));
			return o;
		}
		last = id;
		have_last = true;
		on_target.insert(id);
	}
	o.success = true;
	o.used = gi;
	if (gi < w.gets.size())
		mism(strf("unexpected request %s", w.gets[gi].url.c_str()));
	return o;
}
