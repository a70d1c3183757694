// patchdd: destination becomes the source, nothing else is touched.
#include "chains.h"

struct Case { std::string name; int bound; std::function<void(Exec &)> f; };
static std::vector<Case> cases;
static bool thorough;
static const u64 M = 1024 * 1024;
static Bytes P, Q; // two contents that differ in every byte

static Bytes mk(const Bytes &src, u64 n) { return Bytes(src.begin(), src.begin() + (long)n); }

struct Before {
	VF src, dst;
	Bytes s, d;
	u64 sver;
	std::set<std::string> names;
	void take(Exec &x, VF a, VF b)
	{
		src = a;
		dst = b;
		s = a->content();
		d = b->content();
		sver = a->ver;
		names.clear();
		for (auto &f : x.env.fs)
			names.insert(f.first);
	}
	// every modification of one run; `cur` follows the destination
	std::string check(Exec &x, const Result &r)
	{
		if (src != dst && src->ver != sver)
			return "the source was modified";
		for (auto &f : x.env.fs)
			if (!names.count(f.first))
				return "file " + f.first + " appeared";
		if (names.size() != x.env.fs.size())
			return "a file disappeared";
		bool dirty = true, touched = false;
		for (auto &e : x.ev) {
			if (e.ret < 0)
				continue;
			if (e.f && e.f != dst.get() && (e.op == Op::Write || e.op == Op::Pwrite || e.op == Op::Ftruncate || e.op == Op::Unlink || e.op == Op::Rename))
				return strf("%s of %s", op_name(e.op), e.f->path.c_str());
			if (e.f != dst.get())
				continue;
			switch (e.op) {
			case Op::Write: case Op::Pwrite:
				if (e.ret > 0)
					dirty = touched = true;
				for (u64 i = 0; i < e.data.size(); i++) {
					u64 at = e.off + i;
					bool isnew = at < s.size() && e.data[i] == s[at];
					bool isold = at < d.size() && e.data[i] == d[at];
					if (!isnew && !isold)
						return strf("byte %llu of the destination was changed to something else", (unsigned long long)at);
				}
				break;
			case Op::Fsync: dirty = false; break;
			case Op::Ftruncate: return "the destination was resized";
			case Op::Unlink: case Op::Rename: return "the destination was replaced";
			default: break;
			}
		}
		if (d.size() < s.size() && (touched || r.ok()))
			return strf("a destination smaller than the source was not refused (%s%s)", r.str().c_str(), touched ? ", written to" : "");
		if (r.ok()) {
			Bytes want = d;
			std::copy(s.begin(), s.end(), want.begin());
			Bytes got = dst->content();
			if (got.size() != want.size())
				return strf("exit 0, but the size of the destination is %zu instead of %zu", got.size(), want.size());
			if (memcmp(got.data(), want.data(), got.size()))
				for (u64 i = 0; i < got.size(); i++)
					if (got[i] != want[i])
						return strf("exit 0, but byte %llu of the destination (source: %zu bytes) is wrong", (unsigned long long)i, s.size());
			if (dirty)
				return "exit 0, but the destination was not flushed after the last write";
		}
		return "";
	}
};

struct Init { u64 slen, dlen; int diff; u64 at; bool sblk, dblk; };
static Bytes dst_content(const Init &c)
{
	Bytes d = cat({mk(P, std::min(c.slen, c.dlen)), fill(c.dlen > c.slen ? c.dlen - c.slen : 0, 5)});
	auto flip = [&](u64 i) {
		if (i < d.size() && i < c.slen)
			d[i] ^= 0x55;
	};
	switch (c.diff) {
	case 0: break;
	case 1: // everything
		for (u64 i = 0; i < d.size() && i < c.slen; i++)
			d[i] = Q[i];
		break;
	case 2: flip(c.at); break;                       // one byte
	case 3: for (u64 i = c.at; i < d.size() && i < c.slen; i++) d[i] = Q[i]; break; // from here on
	case 4: for (u64 i = 0; i < c.at && i < d.size() && i < c.slen; i++) d[i] = Q[i]; break; // up to here
	case 5: flip(c.at); flip(c.at + M); flip(c.slen - 1); break;
	case 6: for (u64 i = 0; i < d.size() && i < c.slen; i++) d[i] = 0; break;
	}
	return d;
}
static std::string dname(const Init &c)
{
	static const char *n[] = {"equal", "all bytes differ", "byte", "differs from", "differs up to", "bytes", "zeroes"};
	return strf("source %llu%s, destination %llu%s, %s %llu", (unsigned long long)c.slen, c.sblk ? " (blk)" : "", (unsigned long long)c.dlen,
		c.dblk ? " (blk)" : "", n[c.diff], (unsigned long long)c.at);
}
static void files(Exec &x, const Init &c, VF &s, VF &d)
{
	s = c.sblk ? x.env.mkblk("s", mk(P, c.slen)) : x.env.add("s", mk(P, c.slen));
	Bytes b = dst_content(c);
	d = c.dblk ? x.env.mkblk("d", b) : x.env.add("d", b);
}

// without faults: success is expected exactly if the destination is large enough
static void plain(Exec &x, const Init &c)
{
	VF s, d;
	files(x, c, s, d);
	Before b;
	b.take(x, s, d);
	Result r = sut_run(x, P_PATCHDD, {"patchdd", "s", "d"});
	x.outcome(r.str());
	std::string e = b.check(x, r);
	if (!e.empty())
		x.fail("%s", e.c_str());
	else if (r.end != End::Exit || r.ok() != (c.dlen >= c.slen))
		x.fail("%s", r.str().c_str());
}

// system call faults at any point, then a run without
static void faults(Exec &x, const Init &c)
{
	VF s, d;
	files(x, c, s, d);
	int harmful = 0;
	x.env.io = [&](const IoReq &r) -> IoAns {
		IoAns a;
		if (r.op == Op::Access || r.op == Op::Stdin || (r.op == Op::Close))
			return a;
		auto err = [&](int e) {
			a.k = IoAns::Err;
			a.err = e;
		};
		switch (r.op) {
		case Op::Read: case Op::Pread:
			switch (x.choose(7, 1)) {
			case 1: a.k = IoAns::Short; a.n = 1; break;
			case 2: a.k = IoAns::Short; a.n = r.len - 1; break;
			case 3: err(EINTR); break;
			case 4: err(EIO); harmful++; break;
			case 5: a.k = IoAns::Eof; harmful++; break;
			case 6: a.k = IoAns::Short; a.n = r.len / 2; break;
			}
			break;
		case Op::Write: case Op::Pwrite:
			if (!r.f)
				break;
			switch (x.choose(7, 1)) {
			case 1: a.k = IoAns::Short; a.n = 1; break;
			case 2: a.k = IoAns::Short; a.n = r.len - 1; break;
			case 3: err(EINTR); break;
			case 4: err(EIO); harmful++; break;
			case 5: err(ENOSPC); harmful++; break;
			case 6: a.k = IoAns::Short; a.n = r.len / 2; break;
			}
			break;
		default:
			if (r.op == Op::Alloc)
				break;
			if (x.choose(2, 1)) {
				err(r.op == Op::Open ? EACCES : EIO);
				harmful++;
			}
		}
		return a;
	};
	for (int attempt = 0; attempt < 2; attempt++) {
		Before b;
		b.take(x, s, d);
		Result r = sut_run(x, P_PATCHDD, {"patchdd", "s", "d"});
		x.outcome(r.str());
		std::string e = b.check(x, r);
		if (!e.empty()) {
			x.fail("run %d: %s", attempt + 1, e.c_str());
			return;
		}
		if (r.end != End::Exit || (r.failed() && !harmful && c.dlen >= c.slen)) {
			x.fail("run %d: %s", attempt + 1, r.str().c_str());
			return;
		}
		if (r.ok())
			break;
		if (c.dlen < c.slen)
			break;
		if (attempt)
			x.fail("the run without faults: %s", r.str().c_str());
		harmful = 0;
		x.env.io = nullptr;
	}
}

// interruptions, process and power
static void crashes(Exec &x, const Init &c)
{
	VF s, d;
	files(x, c, s, d);
	Bytes initial = d->content(), want = initial;
	std::copy(P.begin(), P.begin() + (long)c.slen, want.begin());
	Bytes stable = initial;
	for (int attempt = 0; attempt < 5; attempt++) {
		x.env.io = [&](const IoReq &r) -> IoAns {
			IoAns a;
			if (r.f != d.get())
				return a;
			if (r.op == Op::Pread || r.op == Op::Read) {
				if (x.choose(2, 1))
					a.k = IoAns::CrashBefore;
				return a;
			}
			if (r.op == Op::Fsync) {
				int k = x.choose(3, 1);
				if (k)
					a.k = k == 1 ? IoAns::CrashBefore : IoAns::CrashAfter;
				return a;
			}
			if (r.op != Op::Pwrite && r.op != Op::Write)
				return a;
			static const int CUTS = 5;
			int k = x.choose(CUTS + 1, 1);
			if (k) {
				a.k = IoAns::CrashBefore;
				u64 cut[CUTS] = {0, r.len / 2, 1, r.len - 1, r.len};
				a.n = cut[k - 1];
			}
			return a;
		};
		Before b;
		b.take(x, s, d);
		Result r = sut_run(x, P_PATCHDD, {"patchdd", "s", "d"});
		x.env.io = nullptr;
		std::string e = b.check(x, r);
		if (!e.empty()) {
			x.fail("run %d: %s", attempt + 1, e.c_str());
			return;
		}
		if (r.end != End::Crash) {
			x.outcome(strf("%d interruptions, %s", attempt, r.str().c_str()));
			if (!r.ok())
				x.fail("run %d: %s", attempt + 1, r.str().c_str());
			else if (d->content() != want)
				x.fail("run %d: exit 0, but the destination isn't what it should be", attempt + 1);
			return;
		}
		// nothing of what was written since the last successful flush is certain to survive
		std::vector<Ev *> pending;
		Bytes now = stable;
		for (auto &v : x.ev) {
			if (v.f != d.get())
				continue;
			if ((v.op == Op::Pwrite || v.op == Op::Write) && v.ret > 0)
				pending.push_back(&v);
			if (v.op == Op::Fsync && v.ret == 0) {
				for (Ev *p : pending)
					std::copy(p->data.begin(), p->data.end(), now.begin() + (long)p->off);
				pending.clear();
			}
		}
		int mode = x.choose(2, 0);
		for (Ev *p : pending) {
			int k = mode ? x.choose(3, 0) : 0;
			u64 n = p->data.size(), from = 0;
			if (k == 1)
				continue;
			if (k == 2)
				from = n / 2; // only the later half reached the disk
			std::copy(p->data.begin() + (long)from, p->data.end(), now.begin() + (long)(p->off + from));
		}
		d->set(now);
		stable = now;
		for (u64 i = 0; i < now.size(); i++)
			if (now[i] != initial[i] && now[i] != want[i]) {
				x.fail("byte %llu is neither old nor new", (unsigned long long)i);
				return;
			}
	}
	x.fail("no end in sight");
}

static void cmdline(Exec &x, const std::vector<std::string> &a, int expect)
{
	VF s = x.env.add("s", mk(P, 3000)), d = x.env.add("d", mk(Q, 4000));
	x.env.add("small", mk(Q, 2999));
	x.env.add("dir", {})->dir = true;
	Before b;
	b.take(x, s, d);
	Bytes small = x.env.find("small")->content();
	Result r = sut_run(x, P_PATCHDD, a);
	x.outcome(r.str());
	if (r.end != End::Exit || r.ok() != (expect == 1)) {
		x.fail("%s", r.str().c_str());
		return;
	}
	if (expect == 1) {
		std::string e = b.check(x, r);
		if (!e.empty())
			x.fail("%s", e.c_str());
		return;
	}
	for (auto &e : x.ev)
		if ((e.op == Op::Write || e.op == Op::Pwrite || e.op == Op::Ftruncate) && e.f && e.ret >= 0)
			x.fail("%s was written to", e.f->path.c_str());
	if (x.env.fs.size() != b.names.size())
		x.fail("a file appeared or disappeared");
	if (s->content() != b.s || d->content() != b.d || x.env.find("small")->content() != small)
		x.fail("a file was changed");
}

// beyond 4 GiB: all zero but for some places
static void huge(Exec &x, u64 size, const std::vector<std::pair<u64, int>> &at, u64 extra, bool blk)
{
	VF s = x.env.add("s", {}), d = blk ? x.env.mkblk("d", {}) : x.env.add("d", {});
	s->discard = d->discard = true;
	s->size = size;
	d->size = size + extra;
	Bytes a = fill(3000, 1), o = fill(3000, 2);
	for (auto &p : at) {
		if (p.second & 1)
			s->put_at(p.first, a.data(), std::min<u64>(a.size(), size - p.first));
		if (p.second & 2)
			d->put_at(p.first, o.data(), std::min<u64>(o.size(), size - p.first));
	}
	if (extra)
		d->put_at(size, o.data(), std::min<u64>(extra, o.size()));
	d->size = size + extra;
	x.env.keep_write_data = false;
	x.env.horizon = 5 * (size / 4096) + 1000; // any reasonable transfer size
	auto sp = s->pages;
	Result r = sut_run(x, P_PATCHDD, {"patchdd", "s", "d"});
	x.outcome(r.str());
	if (!r.ok()) {
		x.fail("%s", r.str().c_str());
		return;
	}
	if (s->pages != sp || s->size != size || d->size != size + extra) {
		x.fail("a size or the source changed");
		return;
	}
	auto cmp = [&](u64 off) {
		u64 n = std::min<u64>(VFile::PAGE, size > off ? size - off : 0);
		Bytes p(n), q(n);
		s->read_at(off, p.data(), n);
		d->read_at(off, q.data(), n);
		if (p != q)
			x.fail("exit 0, but the destination differs near %llu", (unsigned long long)off);
		Bytes t(VFile::PAGE - n), u(VFile::PAGE - n, 0);
		d->read_at(off + n, t.data(), t.size());
		for (u64 i = 0; i < t.size(); i++)
			if (off + n + i >= size && off + n + i < size + std::min<u64>(extra, o.size()))
				u[i] = o[off + n + i - size];
		if (t != u)
			x.fail("what is behind the source's data changed");
	};
	for (auto &p : d->pages)
		cmp(p.first * VFile::PAGE);
	for (auto &p : s->pages)
		cmp(p.first * VFile::PAGE);
}

static u64 prepare(const Tier &t)
{
	thorough = t.thorough;
	P = fill(4 * M + 16, 1);
	Q = P;
	for (auto &b : Q)
		b ^= (u8)(1 + (&b - Q.data()) % 255);
	auto add = [](const std::string &n, int bound, std::function<void(Exec &)> f) { cases.push_back({n, bound, f}); };
	auto addp = [&](const Init &c) { add(dname(c), 0, [c](Exec &x) { plain(x, c); }); };

	std::vector<u64> S = {0, 1, 2, 511, 512, 4096, 65537, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1};
	if (thorough)
		for (u64 v : {(u64)3, (u64)255, (u64)256, (u64)65535, M - 4096, M + 4095, M + M / 2, 3 * M - 1, 3 * M, 3 * M + 7, 4 * M})
			S.push_back(v);
	for (u64 n : S) {
		std::vector<u64> D = {n, n + 1, n + 512, n + M + 1};
		if (n) {
			D.push_back(n - 1);
			D.push_back(0);
			if (n > M)
				D.push_back(n - M);
		}
		for (u64 m : D)
			for (int b = 0; b < 4; b++) {
				if (b && m != n && m != n + 512 && m != n - 1)
					continue;
				for (int df : {0, 1, 6})
					addp({n, m, df, 0, (b & 1) != 0, (b & 2) != 0});
			}
		// where they differ
		std::set<u64> at;
		for (u64 a : {(u64)0, (u64)1, (u64)2, (u64)511, (u64)4095, (u64)4096, n / 2, n - 2, n - 1, M - 2, M - 1, M, M + 1, M + 4096, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M - 1, 3 * M})
			if (a < n)
				at.insert(a);
		for (u64 a : at)
			for (int df : {2, 3, 4, 5}) {
				addp({n, n, df, a, false, false});
				addp({n, n + 7, df, a, false, true});
			}
	}
	// every single position of short files
	for (u64 n = 1; n <= (thorough ? 40 : 16); n++)
		for (u64 a = 0; a < n; a++)
			for (int df : {2, 3, 4})
				addp({n, n + n % 3, df, a, false, false});

	std::vector<Init> F = {
		{0, 0, 0, 0, false, false}, {1, 1, 1, 0, false, false}, {100, 120, 1, 0, false, false}, {100, 100, 2, 50, false, true},
		{M + 5, M + 5, 1, 0, false, false}, {M + 5, M + 9, 0, 0, true, false}, {2 * M + 3, 2 * M + 3, 5, 7, false, true},
		{2 * M, 2 * M + 1, 3, M - 3, false, false}, {100, 99, 1, 0, false, false}, {2 * M + 3, 2 * M + 2, 1, 0, true, true},
	};
	for (auto &c : F)
		add("faults: " + dname(c), c.slen < 1000 ? (thorough ? 4 : 3) : thorough ? 2 : c.diff == 1 ? 2 : 1, [c](Exec &x) { faults(x, c); });
	std::vector<Init> C = {
		{0, 3, 0, 0, false, false}, {1, 1, 1, 0, false, false}, {100, 120, 1, 0, false, false}, {100, 100, 2, 50, false, true}, {100, 100, 0, 0, false, false},
		{M + 5, M + 5, 1, 0, false, false}, {2 * M + 3, 2 * M + 9, 1, 0, false, true}, {3 * M, 3 * M, 5, 9, false, false}, {2 * M, 2 * M, 4, M + 1, false, false},
	};
	for (auto &c : C)
		add("interruptions: " + dname(c), c.slen < 1000 ? (thorough ? 4 : 3) : thorough ? 2 : c.slen < 2 * M ? 2 : 1, [c](Exec &x) { crashes(x, c); });

	for (int tty = 0; tty < 2; tty++)
		add("terminal", 0, [=](Exec &x) {
			x.env.tty_out = tty;
			x.env.tty_err = true;
			plain(x, {2 * M + 1, 2 * M + 1, 1, 0, false, false});
		});

	typedef std::vector<std::string> A;
	for (auto &v : std::vector<A>{{"patchdd"}, {"patchdd", "s"}, {"patchdd", ""}, {"patchdd", "s", ""}, {"patchdd", "", "d"}, {"patchdd", "nope", "d"}, {"patchdd", "s", "nope"},
		     {"patchdd", "s", "dir"}, {"patchdd", "dir", "d"}, {"patchdd", "-h"}, {"patchdd", "--help"}, {"patchdd", "-h", "d"}, {"patchdd", "s", "small"}, {"patchdd", "s", "nope/d"}, {"patchdd", "s", "dir/"}})
		add("arguments", 0, [v](Exec &x) { cmdline(x, v, 0); });
	for (auto &v : std::vector<A>{{"patchdd", "s", "d"}, {"patchdd", "./s", "/w/d"}, {"./some/path/patchdd", "s", "d"}})
		add("arguments", 0, [v](Exec &x) { cmdline(x, v, 1); });
	add("the source itself as destination", 0, [](Exec &x) {
		VF f = x.env.add("s", mk(P, M + 77));
		Before b;
		b.take(x, f, f);
		Result r = sut_run(x, P_PATCHDD, {"patchdd", "s", "./s"});
		std::string e = b.check(x, r);
		if (!r.ok() || !e.empty() || f->content() != b.s)
			x.fail("%s %s", r.str().c_str(), e.c_str());
	});
	const u64 G = 1024 * M;
	auto big = [&](u64 size, u64 extra, bool blk, std::vector<std::pair<u64, int>> at) {
		add(strf("%llu bytes%s", (unsigned long long)size, blk ? " to a block device" : ""), 0, [=](Exec &x) { huge(x, size, at, extra, blk); });
	};
	big(2 * G + 3 * M + 5, 0, false, {{0, 1}, {M + 17, 3}, {2 * G - 1500, 1}, {2 * G + M + 3, 3}, {2 * G + 3 * M - 100, 2}});
	big(4 * G + 2 * M + 9, 4096, true, {{5, 2}, {4 * G - 1500, 3}, {4 * G + M + 3, 1}, {4 * G + 2 * M - 4, 3}, {2 * G + 77, 2}});
	if (thorough)
		big(9 * G + 1, 1, false, {{8 * G - 1, 3}, {8 * G + 12345, 1}, {9 * G, 1}});
	std::reverse(cases.begin(), cases.end()); // the long ones first
	return cases.size();
}

static Property prop = {
	.id = "C15",
	.prepare = prepare,
	.run = [](Exec &x) { cases[x.scenario].f(x); },
	.bound = [](const Tier &, u64 n) { return cases[n].bound; },
	.describe = [](u64 n) { return cases[n].name; },
	.space = "source and destination sizes around the transfer size and differences at every boundary, files and block devices, more than 4 GiB; choices: short, "
	         "interrupted, failing and end-of-file answers of every system call; interruption before and inside every read, write and flush with unflushed writes kept, "
	         "lost or half written, followed by further runs; command lines",
	.bounds = "faults per run: 1-3 (quick), 2-4 (thorough); interruptions per history: 1-3 (quick), 2-4 (thorough)",
	.timeout_s = 200,
};
static RegisterProperty reg(&prop);
