// The closed environment: everything the programs ask the outside world is answered here.
#include "rt.h"
#include <stdio_ext.h>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <algorithm>
#include <unordered_map>
#include <fcntl.h>
#include <getopt.h>
#include <linux/fs.h>
#include <linux/if_alg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <curl/curl.h>
#define ZSTD_STATIC_LINKING_ONLY
#define ZSTD_STATIC_LINKING_ONLY
#include <zstd.h>

static Exec *X;              // the execution in progress
static bool in_sut;
static sigjmp_buf sut_jb;
static Result sut_res;
static u64 heap_now, heap_peak;
u64 env_heap() { return heap_now; }
static u64 vclock_us;
static u64 run_events;
std::vector<RecRun> *g_record;
static RecRun *cur_rec;
static bool next_unreal;
void mark_unreal()
{
	if (cur_rec)
		cur_rec->replayable = false;
	else
		next_unreal = true;
}

// ---- history ---------------------------------------------------------------------------------

const char *op_name(Op op)
{
	static const char *n[] = {"open", "close", "read", "pread", "write", "pwrite", "lseek", "fstat", "ioctl",
		"access", "unlink", "rename", "fsync", "ftruncate", "alloc", "socket", "bind", "accept", "send",
		"recv", "http", "http-data", "http-end", "sleep", "stdin", "getenv", "exit", "crash", "mmap", "misc"};
	return n[(int)op];
}

static void end_run(End e, int code) __attribute__((noreturn));
static void end_run(End e, int code)
{
	sut_res.end = e;
	sut_res.code = code;
	siglongjmp(sut_jb, 1);
}

static Ev &event(Op op, VFile *f, u64 off, u64 len, i64 ret, int err)
{
	if (!X->env.no_history || X->ev.empty())
		X->ev.emplace_back();
	Ev &e = X->ev.back();
	if (X->env.no_history)
		e = Ev();
	e.op = op;
	e.f = f;
	e.off = off;
	e.len = len;
	e.ret = ret;
	e.err = err;
	u64 v = ((u64)op << 56) ^ off * 0x9e3779b97f4a7c15ull ^ len * 0xc2b2ae3d27d4eb4full ^ (u64)ret * 0x165667b19e3779f9ull ^ ((u64)err << 40);
	if (f)
		v ^= hash64(f->path.data(), f->path.size());
	X->note_state(v);
	if (X->verbose)
		fprintf(stderr, "  [%zu] %s %s off=%llu len=%llu -> %lld%s\n", X->ev.size() - 1, op_name(op),
		        f ? f->path.c_str() : "", (unsigned long long)off, (unsigned long long)len, (long long)ret,
		        err ? strf(" errno=%d", err).c_str() : "");
	return e;
}

static void check_horizon()
{
	if (++run_events > X->env.horizon)
		end_run(End::Horizon, 0);
}

static IoAns ask(Op op, VFile *f, u64 off, u64 len, const char *path = nullptr)
{
	check_horizon();
	if (!X->env.io)
		return IoAns();
	IoReq r{op, f, off, len, path};
	IoAns a = X->env.io(r);
	if (a.k != IoAns::Normal && cur_rec)
		cur_rec->replayable = false;
	return a;
}

static void do_crash(VFile *f, u64 off, u64 len)
{
	event(Op::Crash, f, off, len, 0, 0);
	end_run(End::Crash, 0);
}

// ---- virtual files ---------------------------------------------------------------------------

void VFile::read_at(u64 off, u8 *dst, u64 n) const
{
	u64 k = 0;
	if (off < data.size()) {
		k = std::min<u64>(n, data.size() - off);
		memcpy(dst, data.data() + off, k);
	}
	if (k < n)
		memset(dst + k, 0, n - k);
	if (!pages.empty() && k < n)
		for (auto it = pages.lower_bound((off + k) / PAGE); it != pages.end() && it->first * PAGE < off + n; ++it) {
			u64 a = std::max(it->first * PAGE, off + k), b = std::min((it->first + 1) * PAGE, off + n);
			memcpy(dst + (a - off), it->second.data() + (a - it->first * PAGE), b - a);
		}
}

static bool all_zero(const u8 *p, u64 n)
{
	return n == 0 || (p[0] == 0 && memcmp(p, p + 1, n - 1) == 0);
}

// into a huge file
void VFile::put_at(u64 off, const u8 *src, u64 n)
{
	u64 k = 0;
	if (off < data.size()) {
		k = std::min<u64>(n, data.size() - off);
		memcpy(data.data() + off, src, k);
	}
	while (k < n) {
		u64 pg = (off + k) / PAGE, in = (off + k) % PAGE, l = std::min(PAGE - in, n - k);
		auto it = pages.find(pg);
		if (it == pages.end() && !all_zero(src + k, l))
			it = pages.emplace(pg, Bytes(PAGE, 0)).first;
		if (it != pages.end())
			memcpy(it->second.data() + in, src + k, l);
		k += l;
	}
	size = std::max(size, off + n);
}

static void write_at(VFile *f, u64 off, const u8 *src, u64 n)
{
	f->ver++;
	u64 end = off + n;
	if (f->discard) {
		f->put_at(off, src, n);
		return;
	}
	if (end > f->data.size())
		f->data.resize(end);
	memcpy(f->data.data() + off, src, n);
	if (end > f->size)
		f->size = end;
}

std::string Env::norm(const std::string &p) const
{
	std::string full = (!p.empty() && p[0] == '/') ? p : cwd + "/" + p;
	std::vector<std::string> parts;
	size_t i = 0;
	while (i < full.size()) {
		size_t j = full.find('/', i);
		if (j == std::string::npos)
			j = full.size();
		std::string c = full.substr(i, j - i);
		i = j + 1;
		if (c.empty() || c == ".")
			continue;
		if (c == "..") {
			if (!parts.empty())
				parts.pop_back();
			continue;
		}
		parts.push_back(c);
	}
	std::string r;
	for (auto &c : parts)
		r += "/" + c;
	return r.empty() ? "/" : r;
}

VF Env::find(const std::string &path) const
{
	auto it = fs.find(norm(path));
	return it == fs.end() ? nullptr : it->second;
}

VF Env::add(const std::string &path, const Bytes &b)
{
	VF f = std::make_shared<VFile>();
	f->path = norm(path);
	f->set(b);
	fs[f->path] = f;
	return f;
}

VF Env::mkblk(const std::string &path, const Bytes &b)
{
	VF f = add(path, b);
	f->blk = true;
	return f;
}

static bool parent_exists(const std::string &n)
{
	size_t p = n.rfind('/');
	std::string d = n.substr(0, p);
	if (d.empty() || d == X->env.cwd)
		return true;
	auto it = X->env.fs.find(d);
	if (it != X->env.fs.end())
		return it->second->dir;
	std::string pre = d + "/";
	auto lb = X->env.fs.lower_bound(pre);
	return lb != X->env.fs.end() && lb->first.compare(0, pre.size(), pre) == 0;
}

// what the kernel says about a path whatever it names
static int path_err(const char *path)
{
	size_t n = strlen(path);
	if (n == 0)
		return ENOENT;
	if (n >= 4096)
		return ENAMETOOLONG;
	for (const char *p = path; *p;) {
		const char *q = strchrnul(p, '/');
		if (q - p > 255)
			return ENAMETOOLONG;
		p = *q ? q + 1 : q;
	}
	return 0;
}

// ---- descriptors -----------------------------------------------------------------------------

enum FdKind : u8 { FD_NONE, FD_FILE, FD_STDIN, FD_STDOUT, FD_STDERR, FD_ALG, FD_ALGOP };
struct Fd {
	FdKind kind = FD_NONE;
	VF f;
	u64 pos = 0;
	int flags = 0;
	// kernel hashing
	Bytes acc;
	bool more = false, have_result = false;
	u8 result[32];
	bool bound = false;
};
static std::vector<Fd> fds;

static int new_fd(FdKind k)
{
	for (size_t i = 0; i < fds.size(); i++)
		if (fds[i].kind == FD_NONE) {
			fds[i] = Fd();
			fds[i].kind = k;
			return (int)i;
		}
	fds.emplace_back();
	fds.back().kind = k;
	return (int)fds.size() - 1;
}

static Fd *get_fd(int fd)
{
	if (fd < 0 || (size_t)fd >= fds.size() || fds[fd].kind == FD_NONE)
		return nullptr;
	return &fds[fd];
}

static u64 stdin_pos;
static FILE *stdin_file;
struct StreamRec { FILE *f; int fd; };
static std::vector<StreamRec> streams;

extern "C" {

FILE *mc_stdin, *mc_stdout, *mc_stderr;
ssize_t mc_recv(int, void *, size_t, int);
ssize_t mc_send(int, const void *, size_t, int);

static int do_open(const char *path, int flags, mode_t mode)
{
	IoAns a = ask(Op::Open, nullptr, (u64)flags, 0, path);
	std::string n = X->env.norm(path);
	auto it = X->env.fs.find(n);
	VF f = it == X->env.fs.end() ? nullptr : it->second;
	int err = 0;
	bool created = false, truncated = false;

	if (a.k == IoAns::CrashBefore) {
		do_crash(f.get(), 0, 0);
	}
	if (a.k == IoAns::Err)
		err = a.err;
	else if ((err = path_err(path)))
		;
	else if (f) {
		if ((flags & O_CREAT) && (flags & O_EXCL))
			err = EEXIST;
		else if ((f->noread && (flags & O_ACCMODE) != O_WRONLY) || (f->nowrite && (flags & O_ACCMODE) != O_RDONLY))
			err = EACCES;
		else if (f->dir && (flags & O_ACCMODE) != O_RDONLY)
			err = EISDIR;
		else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && !f->blk)
			truncated = true;
	} else if (flags & O_CREAT) {
		if (!parent_exists(n))
			err = ENOENT;
		else
			created = true;
	} else {
		err = ENOENT;
	}
	if (!err && (size_t)std::count_if(fds.begin(), fds.end(), [](const Fd &q) { return q.kind != FD_NONE; }) >= 1024) {
		err = EMFILE; // the usual limit
		created = truncated = false;
	}
	int fd = -1;
	if (!err) {
		if (created) {
			f = std::make_shared<VFile>();
			f->path = n;
			f->mode = mode;
			X->env.fs[n] = f;
		}
		if (truncated) {
			f->set(Bytes());
			f->ver++;
		}
		fd = new_fd(FD_FILE);
		fds[fd].f = f;
		fds[fd].flags = flags;
	}
	Ev &e = event(Op::Open, f.get(), 0, 0, fd, err);
	e.aux = (u32)flags;
	e.s = path;
	if (X->verbose)
		fprintf(stderr, "      open(\"%s\", 0x%x)%s%s\n", path, flags, created ? " CREATED" : "", truncated ? " TRUNCATED" : "");
	if (created || truncated)
		e.off = 1;
	if (!err && a.k == IoAns::CrashAfter)
		do_crash(f.get(), 0, 0);
	if (err) {
		errno = err;
		return -1;
	}
	return fd;
}

int mc_open(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, mode_t);
		va_end(ap);
	}
	return do_open(path, flags, mode);
}

int mc_openat(int dfd, const char *path, int flags, ...)
{
	mode_t mode = 0;
	(void)dfd;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, mode_t);
		va_end(ap);
	}
	return do_open(path, flags, mode);
}

int mc_creat(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int mc_mkstemp(char *tmpl)
{
	size_t n = strlen(tmpl);
	if (n < 6) {
		errno = EINVAL;
		return -1;
	}
	for (int i = 0; i < 100000; i++) {
		char b[16];
		snprintf(b, sizeof(b), "%06d", i);
		memcpy(tmpl + n - 6, b, 6);
		if (!X->env.find(tmpl))
			return do_open(tmpl, O_RDWR | O_CREAT | O_EXCL, 0600);
	}
	errno = EEXIST;
	return -1;
}

int mc_close(int fd)
{
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	IoAns a = d->kind == FD_FILE ? ask(Op::Close, d->f.get(), 0, 0) : IoAns();
	VF f = d->f;
	if (a.k == IoAns::CrashBefore)
		do_crash(f.get(), 0, 0);
	*d = Fd();
	event(Op::Close, f.get(), 0, 0, a.k == IoAns::Err ? -1 : 0, a.k == IoAns::Err ? a.err : 0);
	if (a.k == IoAns::Err) {
		errno = a.err;
		return -1;
	}
	return 0;
}

static ssize_t do_read(Op op, Fd *d, u8 *buf, size_t len, u64 off)
{
	VFile *f = d->f.get();
	if ((d->flags & O_ACCMODE) == O_WRONLY) {
		errno = EBADF;
		return -1;
	}
	if (f->dir) {
		event(op, f, off, len, -1, EISDIR);
		errno = EISDIR;
		return -1;
	}
	IoAns a = ask(op, f, off, len);
	if (a.k == IoAns::CrashBefore)
		do_crash(f, off, 0);
	u64 avail = off < f->size ? f->size - off : 0;
	u64 n = std::min<u64>(len, avail);
	if (a.k == IoAns::Short && a.n < n)
		n = std::max<u64>(a.n, std::min<u64>(n, 1)); // a transfer of nothing isn't a short one
	if (a.k == IoAns::Eof)
		n = 0;
	int err = a.k == IoAns::Err ? a.err : 0;
	if (!err && n && off < f->bad_to && off + n > f->bad_from) {
		if (off < f->bad_from)
			n = f->bad_from - off; // the part in front of the bad range
		else
			err = EIO;
	}
	if (err) {
		event(op, f, off, len, -1, err);
		errno = err;
		return -1;
	}
	f->read_at(off, buf, n);
	event(op, f, off, len, (i64)n, 0);
	return (ssize_t)n;
}

static ssize_t stdin_read(void *, char *buf, size_t len)
{
	Env &e = X->env;
	check_horizon();
	u64 n = std::min<u64>(len, e.stdin_data.size() - stdin_pos);
	if (e.stdin_err_at >= 0) {
		if ((u64)e.stdin_err_at <= stdin_pos) {
			event(Op::Stdin, nullptr, stdin_pos, len, -1, EIO);
			errno = EIO;
			return -1;
		}
		n = std::min<u64>(n, (u64)e.stdin_err_at - stdin_pos);
	}
	for (u32 c : e.stdin_cuts)
		if (c > stdin_pos) {
			n = std::min<u64>(n, c - stdin_pos);
			break;
		}
	memcpy(buf, e.stdin_data.data() + stdin_pos, n);
	event(Op::Stdin, nullptr, stdin_pos, len, (i64)n, 0);
	stdin_pos += n;
	return (ssize_t)n;
}

ssize_t mc_read(int fd, void *buf, size_t len)
{
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	if (d->kind == FD_STDIN)
		return stdin_read(nullptr, (char *)buf, len);
	if (d->kind != FD_FILE) {
		return mc_recv(fd, buf, len, 0);
	}
	ssize_t r = do_read(Op::Read, d, (u8 *)buf, len, d->pos);
	if (r > 0)
		d->pos += (u64)r;
	return r;
}

ssize_t mc_pread(int fd, void *buf, size_t len, off_t off)
{
	Fd *d = get_fd(fd);
	if (!d || d->kind != FD_FILE) {
		errno = d ? ESPIPE : EBADF;
		return -1;
	}
	if (off < 0) {
		event(Op::Pread, d->f.get(), (u64)off, len, -1, EINVAL);
		errno = EINVAL;
		return -1;
	}
	return do_read(Op::Pread, d, (u8 *)buf, len, (u64)off);
}

static ssize_t do_write(Op op, Fd *d, const u8 *buf, size_t len, u64 off)
{
	VFile *f = d->f.get();
	if ((d->flags & O_ACCMODE) == O_RDONLY) {
		errno = EBADF;
		return -1;
	}
	IoAns a = ask(op, f, off, len);
	u64 n = len;
	int err = 0;
	if (a.k == IoAns::Err)
		err = a.err;
	if (a.k == IoAns::Short && a.n < n)
		n = std::max<u64>(a.n, std::min<u64>(n, 1)); // a transfer of nothing isn't a short one
	if (f->blk && !err) {
		u64 room = off < f->size ? f->size - off : 0;
		if (n > room)
			n = room;
		if (n == 0 && len)
			err = ENOSPC;
	}
	if (a.k == IoAns::CrashBefore || a.k == IoAns::CrashAfter) {
		n = a.k == IoAns::CrashBefore ? std::min<u64>(n, a.n) : n;
		if (n) {
			write_at(f, off, buf, n);
			Ev &e = event(op, f, off, len, (i64)n, 0);
			if (X->env.keep_write_data)
				e.data.assign(buf, buf + n);
		}
		do_crash(f, off, n);
	}
	if (err) {
		event(op, f, off, len, -1, err);
		errno = err;
		return -1;
	}
	write_at(f, off, buf, n);
	Ev &e = event(op, f, off, len, (i64)n, 0);
	if (X->env.keep_write_data) {
		e.data.assign(buf, buf + n);
		X->note_state(hash64(buf, n));
	}
	return (ssize_t)n;
}

ssize_t mc_write(int fd, const void *buf, size_t len)
{
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	if (d->kind == FD_STDOUT) {
		IoAns a = ask(Op::Write, nullptr, 0, len, "<stdout>");
		if (a.k == IoAns::Err) {
			event(Op::Write, nullptr, 0, len, -1, a.err);
			errno = a.err;
			return -1;
		}
		u64 n = len;
		if (a.k == IoAns::Short)
			n = std::min<u64>(n, a.n);
		if (a.k == IoAns::CrashBefore)
			do_crash(nullptr, 0, 0);
		X->env.stdout_data.insert(X->env.stdout_data.end(), (const u8 *)buf, (const u8 *)buf + n);
		event(Op::Write, nullptr, 0, len, (i64)n, 0);
		return (ssize_t)n;
	}
	if (d->kind == FD_STDERR)
		return X->env.text ? X->env.text(2, (const char *)buf, len) : (ssize_t)len;
	if (d->kind != FD_FILE) {
		return mc_send(fd, buf, len, 0);
	}
	if (d->flags & O_APPEND)
		d->pos = d->f->size;
	ssize_t r = do_write(Op::Write, d, (const u8 *)buf, len, d->pos);
	if (r > 0)
		d->pos += (u64)r;
	return r;
}

ssize_t mc_pwrite(int fd, const void *buf, size_t len, off_t off)
{
	Fd *d = get_fd(fd);
	if (!d || d->kind != FD_FILE) {
		errno = d ? ESPIPE : EBADF;
		return -1;
	}
	if (off < 0) {
		event(Op::Pwrite, d->f.get(), (u64)off, len, -1, EINVAL);
		errno = EINVAL;
		return -1;
	}
	return do_write(Op::Pwrite, d, (const u8 *)buf, len, (u64)off);
}

static ssize_t iov_loop(int fd, const struct iovec *iov, int cnt, bool wr, bool pos, off_t off)
{
	ssize_t total = 0;
	for (int i = 0; i < cnt; i++) {
		ssize_t r;
		if (wr)
			r = pos ? mc_pwrite(fd, iov[i].iov_base, iov[i].iov_len, off) : mc_write(fd, iov[i].iov_base, iov[i].iov_len);
		else
			r = pos ? mc_pread(fd, iov[i].iov_base, iov[i].iov_len, off) : mc_read(fd, iov[i].iov_base, iov[i].iov_len);
		if (r < 0)
			return total ? total : -1;
		total += r;
		off += r;
		if ((size_t)r < iov[i].iov_len)
			break;
	}
	return total;
}
ssize_t mc_readv(int fd, const struct iovec *v, int c) { return iov_loop(fd, v, c, false, false, 0); }
ssize_t mc_writev(int fd, const struct iovec *v, int c) { return iov_loop(fd, v, c, true, false, 0); }
ssize_t mc_preadv(int fd, const struct iovec *v, int c, off_t o) { return iov_loop(fd, v, c, false, true, o); }
ssize_t mc_pwritev(int fd, const struct iovec *v, int c, off_t o) { return iov_loop(fd, v, c, true, true, o); }

off_t mc_lseek(int fd, off_t off, int whence)
{
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	if (d->kind != FD_FILE) {
		errno = ESPIPE;
		return -1;
	}
	IoAns a = ask(Op::Lseek, d->f.get(), (u64)off, (u64)whence);
	if (a.k == IoAns::CrashBefore)
		do_crash(d->f.get(), 0, 0);
	i64 np;
	if (whence == SEEK_SET)
		np = off;
	else if (whence == SEEK_CUR)
		np = (i64)d->pos + off;
	else if (whence == SEEK_END)
		np = (i64)d->f->size + off;
	else
		np = -1;
	int err = a.k == IoAns::Err ? a.err : np < 0 ? EINVAL : 0;
	event(Op::Lseek, d->f.get(), (u64)off, 0, err ? -1 : np, err);
	if (err) {
		errno = err;
		return -1;
	}
	d->pos = (u64)np;
	return np;
}

static int fill_stat(VFile *f, struct stat *st)
{
	memset(st, 0, sizeof(*st));
	st->st_mode = f->mode | (f->dir ? S_IFDIR : f->blk ? S_IFBLK : S_IFREG);
	st->st_size = f->blk ? 0 : (off_t)f->size;
	st->st_blksize = 4096;
	st->st_blocks = (blkcnt_t)((f->size + 511) / 512);
	st->st_nlink = 1;
	st->st_ino = (ino_t)(hash64(f->path.data(), f->path.size()) & 0xffffffff);
	return 0;
}

int mc_fstat(int fd, struct stat *st)
{
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	if (d->kind != FD_FILE) {
		memset(st, 0, sizeof(*st));
		st->st_mode = S_IFCHR | 0600;
		return 0;
	}
	IoAns a = ask(Op::Fstat, d->f.get(), 0, 0);
	if (a.k == IoAns::CrashBefore)
		do_crash(d->f.get(), 0, 0);
	event(Op::Fstat, d->f.get(), 0, 0, a.k == IoAns::Err ? -1 : 0, a.k == IoAns::Err ? a.err : 0);
	if (a.k == IoAns::Err) {
		errno = a.err;
		return -1;
	}
	return fill_stat(d->f.get(), st);
}

int mc_stat(const char *path, struct stat *st)
{
	IoAns a = ask(Op::Access, nullptr, 0, 0, path);
	VF f = path_err(path) ? nullptr : X->env.find(path);
	int err = a.k == IoAns::Err ? a.err : path_err(path) ? path_err(path) : f ? 0 : ENOENT;
	event(Op::Access, f.get(), 0, 0, err ? -1 : 0, err);
	if (err) {
		errno = err;
		return -1;
	}
	return fill_stat(f.get(), st);
}
int mc_lstat(const char *path, struct stat *st) { return mc_stat(path, st); }

int mc_access(const char *path, int mode)
{
	IoAns a = ask(Op::Access, nullptr, 0, 0, path);
	VF f = path_err(path) ? nullptr : X->env.find(path);
	if (a.k == IoAns::CrashBefore)
		do_crash(f.get(), 0, 0);
	int err = a.k == IoAns::Err ? a.err : path_err(path) ? path_err(path) : !f ? ENOENT : (f->noread && (mode & R_OK)) || (f->nowrite && (mode & W_OK)) ? EACCES : 0;
	event(Op::Access, f.get(), 0, 0, err ? -1 : 0, err).s = path;
	if (err) {
		errno = err;
		return -1;
	}
	return 0;
}
int mc_faccessat(int, const char *path, int mode, int) { return mc_access(path, mode); }

int mc_unlink(const char *path)
{
	IoAns a = ask(Op::Unlink, nullptr, 0, 0, path);
	std::string n = X->env.norm(path);
	auto it = X->env.fs.find(n);
	VF f = it == X->env.fs.end() ? nullptr : it->second;
	if (a.k == IoAns::CrashBefore)
		do_crash(f.get(), 0, 0);
	int err = a.k == IoAns::Err ? a.err : path_err(path) ? path_err(path) : f ? (f->dir ? EISDIR : 0) : ENOENT;
	if (!err)
		X->env.fs.erase(it);
	event(Op::Unlink, f.get(), 0, 0, err ? -1 : 0, err).s = path;
	if (!err && a.k == IoAns::CrashAfter)
		do_crash(f.get(), 0, 0);
	if (err) {
		errno = err;
		return -1;
	}
	return 0;
}
int mc_remove(const char *path) { return mc_unlink(path); }
int mc_unlinkat(int, const char *path, int) { return mc_unlink(path); }

int mc_rename(const char *from, const char *to)
{
	IoAns a = ask(Op::Rename, nullptr, 0, 0, from);
	std::string nf = X->env.norm(from), nt = X->env.norm(to);
	auto it = X->env.fs.find(nf);
	VF f = it == X->env.fs.end() ? nullptr : it->second;
	if (a.k == IoAns::CrashBefore)
		do_crash(f.get(), 0, 0);
	VF ft = X->env.find(to);
	int err = a.k == IoAns::Err ? a.err : path_err(from) ? path_err(from) : path_err(to) ? path_err(to) : !f ? ENOENT
		: !parent_exists(nt) ? ENOENT : ft && ft->dir && !f->dir ? EISDIR : 0;
	if (!err && ft != f) {
		X->env.fs.erase(it);
		X->env.fs[nt] = f;
	}
	Ev &e = event(Op::Rename, f.get(), 0, 0, err ? -1 : 0, err);
	e.s = std::string(from) + " -> " + to;
	if (!err && a.k == IoAns::CrashAfter)
		do_crash(f.get(), 0, 0);
	if (err) {
		errno = err;
		return -1;
	}
	return 0;
}
int mc_renameat(int, const char *a, int, const char *b) { return mc_rename(a, b); }
int mc_link(const char *from, const char *to)
{
	VF f = X->env.find(from);
	check_horizon();
	int err = !f ? ENOENT : X->env.find(to) ? EEXIST : 0;
	if (!err)
		X->env.fs[X->env.norm(to)] = f;
	event(Op::Misc, f.get(), 0, 0, err ? -1 : 0, err).s = std::string("link -> ") + to;
	errno = err;
	return err ? -1 : 0;
}
int mc_symlink(const char *from, const char *to) { (void)from; (void)to; errno = EPERM; return -1; }
int mc_mkdir(const char *path, mode_t)
{
	check_horizon();
	std::string n = X->env.norm(path);
	if (X->env.fs.count(n)) {
		errno = EEXIST;
		return -1;
	}
	VF f = X->env.add(path, Bytes());
	f->dir = true;
	event(Op::Misc, f.get(), 0, 0, 0, 0).s = "mkdir";
	return 0;
}
int mc_chmod(const char *, mode_t) { check_horizon(); return 0; }
int mc_fchmod(int, mode_t) { check_horizon(); return 0; }

static int do_sync(int fd)
{
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	if (d->kind != FD_FILE) {
		errno = EINVAL;
		return -1;
	}
	IoAns a = ask(Op::Fsync, d->f.get(), 0, 0);
	if (a.k == IoAns::CrashBefore)
		do_crash(d->f.get(), 0, 0);
	event(Op::Fsync, d->f.get(), 0, 0, a.k == IoAns::Err ? -1 : 0, a.k == IoAns::Err ? a.err : 0);
	if (a.k == IoAns::Err) {
		errno = a.err;
		return -1;
	}
	if (a.k == IoAns::CrashAfter)
		do_crash(d->f.get(), 0, 0);
	return 0;
}
int mc_fsync(int fd) { return do_sync(fd); }
int mc_fdatasync(int fd) { return do_sync(fd); }
// syncfs and sync_file_range with all flags are accepted as flushes, too
int mc_syncfs(int fd) { return do_sync(fd); }
int mc_sync_file_range(int fd, off64_t, off64_t, unsigned) { Fd *d = get_fd(fd); check_horizon(); return d ? 0 : -1; }
int mc_posix_fadvise(int, off_t, off_t, int) { check_horizon(); return 0; }

int mc_ftruncate(int fd, off_t len)
{
	Fd *d = get_fd(fd);
	if (!d || d->kind != FD_FILE || len < 0) {
		errno = EBADF;
		return -1;
	}
	IoAns a = ask(Op::Ftruncate, d->f.get(), (u64)len, 0);
	int err = a.k == IoAns::Err ? a.err : d->f->blk ? EINVAL : 0;
	if (!err) {
		if (!d->f->discard || (u64)len < d->f->data.size())
			d->f->data.resize((size_t)len);
		d->f->pages.erase(d->f->pages.lower_bound(((u64)len + VFile::PAGE - 1) / VFile::PAGE), d->f->pages.end());
		d->f->size = (u64)len;
		d->f->ver++;
	}
	event(Op::Ftruncate, d->f.get(), (u64)len, 0, err ? -1 : 0, err);
	if (err) {
		errno = err;
		return -1;
	}
	return 0;
}
int mc_truncate(const char *path, off_t len)
{
	VF f = X->env.find(path);
	check_horizon();
	event(Op::Ftruncate, f.get(), (u64)len, 0, f ? 0 : -1, f ? 0 : ENOENT);
	if (!f) {
		errno = ENOENT;
		return -1;
	}
	f->data.resize((size_t)len);
	f->size = (u64)len;
	f->ver++;
	return 0;
}
int mc_fallocate(int fd, int mode, off_t off, off_t len)
{
	Fd *d = get_fd(fd);
	check_horizon();
	if (!d || d->kind != FD_FILE) {
		errno = EBADF;
		return -1;
	}
	event(Op::Ftruncate, d->f.get(), (u64)off, (u64)len, 0, 0);
	if (!(mode & 1) && (u64)(off + len) > d->f->size) {
		d->f->data.resize((size_t)(off + len));
		d->f->size = (u64)(off + len);
	}
	d->f->ver++;
	return 0;
}
int mc_posix_fallocate(int fd, off_t off, off_t len) { return mc_fallocate(fd, 0, off, len) ? errno : 0; }

int mc_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	Fd *d = get_fd(fd);
	if (!d || d->kind != FD_FILE) {
		errno = d ? ENOTTY : EBADF;
		return -1;
	}
	IoAns a = ask(Op::Ioctl, d->f.get(), req, 0);
	int err = a.k == IoAns::Err ? a.err : 0;
	if (!err) {
		if (!d->f->blk)
			err = ENOTTY;
		else if (req == BLKGETSIZE64)
			*(u64 *)arg = d->f->size;
		else if (req == BLKGETSIZE)
			*(unsigned long *)arg = d->f->size / 512;
		else if (req == BLKSSZGET)
			*(int *)arg = 512;
		else
			err = ENOTTY;
	}
	event(Op::Ioctl, d->f.get(), req, 0, err ? -1 : 0, err);
	if (err) {
		errno = err;
		return -1;
	}
	return 0;
}

int mc_dup(int fd)
{
	Fd *d = get_fd(fd);
	check_horizon();
	if (!d) {
		errno = EBADF;
		return -1;
	}
	Fd c = *d;
	int n = new_fd(c.kind);
	fds[n] = c; // shares no offset, good enough
	return n;
}
int mc_fcntl(int fd, int cmd, ...)
{
	(void)cmd;
	check_horizon();
	Fd *d = get_fd(fd);
	if (!d) {
		errno = EBADF;
		return -1;
	}
	return cmd == F_GETFL ? d->flags : 0;
}
int mc_isatty(int fd)
{
	check_horizon();
	bool t = (fd == 1 && X->env.tty_out) || (fd == 2 && X->env.tty_err);
	if (!t)
		errno = ENOTTY;
	return t;
}

struct MapRec { void *p; size_t len; };
static std::vector<MapRec> maps;
void *mc_mmap(void *, size_t len, int prot, int flags, int fd, off_t off)
{
	check_horizon();
	Fd *d = get_fd(fd);
	if (flags & MAP_ANONYMOUS) {
		void *p = mmap(nullptr, len, prot, flags, -1, 0);
		maps.push_back({p, len});
		return p;
	}
	if (!d || d->kind != FD_FILE || ((flags & MAP_SHARED) && (prot & PROT_WRITE)) || len == 0) {
		errno = EINVAL;
		return MAP_FAILED;
	}
	void *p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	u64 n = (u64)off < d->f->size ? std::min<u64>(len, d->f->size - (u64)off) : 0;
	d->f->read_at((u64)off, (u8 *)p, n);
	maps.push_back({p, len});
	event(Op::Mmap, d->f.get(), (u64)off, len, 0, 0);
	return p;
}
int mc_munmap(void *p, size_t len)
{
	for (size_t i = 0; i < maps.size(); i++)
		if (maps[i].p == p) {
			munmap(p, maps[i].len);
			maps.erase(maps.begin() + (long)i);
			return 0;
		}
	(void)len;
	return 0;
}
int mc_msync(void *, size_t, int) { return 0; }
int mc_madvise(void *, size_t, int) { return 0; }

// ---- stdio on virtual files ------------------------------------------------------------------

static ssize_t ck_read(void *c, char *b, size_t n) { return mc_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	ssize_t r = mc_write((int)(intptr_t)c, b, n);
	return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *o, int w)
{
	off_t r = mc_lseek((int)(intptr_t)c, *o, w);
	if (r < 0)
		return -1;
	*o = r;
	return 0;
}
static int ck_close(void *c) { return mc_close((int)(intptr_t)c); }

FILE *mc_fdopen(int fd, const char *mode)
{
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
	streams.push_back({f, fd});
	return f;
}
FILE *mc_fopen(const char *path, const char *mode)
{
	int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	if (strchr(mode, '+'))
		fl = (fl & ~O_ACCMODE) | O_RDWR;
	if (strchr(mode, 'x'))
		fl |= O_EXCL;
	int fd = do_open(path, fl, 0666);
	if (fd < 0)
		return nullptr;
	return mc_fdopen(fd, mode);
}
int mc_fclose(FILE *f)
{
	for (size_t i = 0; i < streams.size(); i++)
		if (streams[i].f == f) {
			streams.erase(streams.begin() + (long)i);
			return fclose(f);
		}
	if (f == mc_stdin)
		return 0;
	if (f == mc_stdout || f == mc_stderr)
		return fflush(f);
	return fclose(f);
}
int mc_fileno(FILE *f)
{
	for (auto &s : streams)
		if (s.f == f)
			return s.fd;
	if (f == mc_stdin)
		return 0;
	return f == mc_stdout ? 1 : 2;
}

// standard output and standard error of the program
static Prog cur_prog;
static bool in_cookie; // left with a jump: the stream is abandoned
static ssize_t text_write(void *c, const char *b, size_t n)
{
	int fd = (int)(intptr_t)c;
	if (!X)
		return (ssize_t)n;
	Env &e = X->env;
	if (e.text) {
		ssize_t r = e.text(fd, b, n);
		if (r < 0)
			errno = EIO;
		return r < 0 ? 0 : r;
	}
	if (fd == 1 && cur_prog == P_TOOL) { // may be data
		in_cookie = true;
		ssize_t r = mc_write(fd, b, n);
		in_cookie = false;
		return r < 0 ? 0 : r;
	}
	return (ssize_t)n;
}
static void text_open()
{
	cookie_io_functions_t io = {nullptr, text_write, nullptr, nullptr};
	mc_stdout = fopencookie((void *)(intptr_t)1, "w", io);
	if (X->env.tty_out)
		setvbuf(mc_stdout, nullptr, _IOLBF, 0);
	mc_stderr = stderr;
	if (X->env.text) {
		mc_stderr = fopencookie((void *)(intptr_t)2, "w", io);
		setvbuf(mc_stderr, nullptr, _IONBF, 0);
	}
	in_cookie = false;
}
static void text_close()
{
	if (mc_stdout && !in_cookie) {
		__fpurge(mc_stdout);
		fclose(mc_stdout);
	}
	if (mc_stderr != stderr)
		fclose(mc_stderr);
	mc_stdout = mc_stderr = nullptr;
}
int mc_printf(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vfprintf(mc_stdout, f, ap);
	va_end(ap);
	return r;
}
int mc_vprintf(const char *f, va_list ap) { return vfprintf(mc_stdout, f, ap); }
int mc_puts(const char *s) { return fputs(s, mc_stdout) < 0 || putc('\n', mc_stdout) < 0 ? EOF : 1; }
int mc_putchar(int c) { return putc(c, mc_stdout); }
int mc_fflush(FILE *f) { return fflush(f ? f : mc_stdout); }

// ---- memory ----------------------------------------------------------------------------------

static std::unordered_map<void *, size_t> allocs;

static void *track(void *p, size_t n)
{
	if (p && in_sut) {
		allocs[p] = n;
		heap_now += n;
		if (heap_now > heap_peak)
			heap_peak = heap_now;
		if (X->env.heap_limit && heap_peak > X->env.heap_limit)
			end_run(End::Memory, 0);
	}
	return p;
}
static void untrack(void *p)
{
	auto it = allocs.find(p);
	if (it != allocs.end()) {
		heap_now -= it->second;
		allocs.erase(it);
	}
}
static bool alloc_fails(size_t n)
{
	if (!in_sut || !X->env.log_alloc)
		return false;
	IoAns a = ask(Op::Alloc, nullptr, 0, n);
	event(Op::Alloc, nullptr, 0, n, a.k == IoAns::Err ? -1 : 0, 0);
	if (a.k == IoAns::Err) {
		errno = ENOMEM;
		return true;
	}
	return false;
}
void *mc_malloc(size_t n) { return alloc_fails(n) ? nullptr : track(malloc(n), n); }
void *mc_calloc(size_t a, size_t b) { return alloc_fails(a * b) ? nullptr : track(calloc(a, b), a * b); }
void mc_free(void *p)
{
	if (!p)
		return;
	untrack(p);
	free(p);
}
void *mc_realloc(void *p, size_t n)
{
	if (alloc_fails(n))
		return nullptr;
	size_t old = 0;
	auto it = allocs.find(p);
	if (it != allocs.end())
		old = it->second;
	// while growing, both copies exist
	if (heap_now + n > heap_peak)
		heap_peak = heap_now + n;
	(void)old;
	void *q = realloc(p, n);
	if (q || n == 0) {
		if (p)
			untrack(p);
		track(q, n);
	}
	return q;
}
void *mc_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return nullptr;
	}
	return mc_realloc(p, n);
}
char *mc_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *)mc_malloc(n);
	if (p)
		memcpy(p, s, n);
	return p;
}
char *mc_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = (char *)mc_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
int mc_posix_memalign(void **out, size_t al, size_t n)
{
	if (alloc_fails(n))
		return ENOMEM;
	int r = posix_memalign(out, al, n);
	if (r == 0)
		track(*out, n);
	return r;
}
void *mc_aligned_alloc(size_t al, size_t n) { return alloc_fails(n) ? nullptr : track(aligned_alloc(al, n), n); }

// ---- process, time ---------------------------------------------------------------------------

void mc_exit(int code) __attribute__((noreturn));
void mc_exit(int code)
{
	fflush(mc_stdout);
	end_run(End::Exit, code & 0xff);
}
void mc_abort(void) __attribute__((noreturn));
void mc_abort(void) { end_run(End::Abort, 0); }
void mc___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void mc___assert_fail(const char *, const char *, unsigned, const char *) { end_run(End::Abort, 0); }
char *mc_getenv(const char *n)
{
	auto it = X->env.env.find(n);
	return it == X->env.env.end() ? nullptr : (char *)it->second.c_str();
}
char *mc_secure_getenv(const char *n) { return mc_getenv(n); }
pid_t mc_getpid(void) { return 4242; }
pid_t mc_getppid(void) { return 4241; }

int mc_clock_gettime(clockid_t, struct timespec *ts)
{
	check_horizon();
	vclock_us += 10;
	ts->tv_sec = (time_t)(1000 + vclock_us / 1000000);
	ts->tv_nsec = (long)(vclock_us % 1000000) * 1000;
	return 0;
}
time_t mc_time(time_t *t)
{
	time_t v = (time_t)(1700000000 + vclock_us / 1000000);
	if (t)
		*t = v;
	return v;
}
int mc_gettimeofday(struct timeval *tv, void *)
{
	tv->tv_sec = (time_t)(1700000000 + vclock_us / 1000000);
	tv->tv_usec = (suseconds_t)(vclock_us % 1000000);
	return 0;
}
static void do_sleep(u64 us)
{
	check_horizon();
	vclock_us += us;
	event(Op::Sleep, nullptr, us, 0, 0, 0);
}
int mc_usleep(useconds_t us) { do_sleep(us); return 0; }
unsigned mc_sleep(unsigned s) { do_sleep((u64)s * 1000000); return 0; }
int mc_nanosleep(const struct timespec *a, struct timespec *) { do_sleep((u64)a->tv_sec * 1000000 + (u64)a->tv_nsec / 1000); return 0; }
int mc_clock_nanosleep(clockid_t, int fl, const struct timespec *a, struct timespec *)
{
	u64 t = (u64)a->tv_sec * 1000000 + (u64)a->tv_nsec / 1000;
	if (fl & TIMER_ABSTIME) {
		u64 now = 1000ull * 1000000 + vclock_us;
		t = t > now ? t - now : 0;
	}
	do_sleep(t);
	return 0;
}

// ---- kernel crypto sockets -------------------------------------------------------------------

static IoAns ask_sock(Op op, u64 len)
{
	check_horizon();
	if (cur_rec)
		cur_rec->replayable = false;
	if (!X->env.sock)
		return IoAns();
	return X->env.sock(op, len);
}

int mc_socket(int domain, int, int)
{
	IoAns a = ask_sock(Op::Socket, 0);
	int err = a.k == IoAns::Err ? a.err : (domain != AF_ALG || !X->env.kcapi) ? EAFNOSUPPORT : 0;
	int fd = err ? -1 : new_fd(FD_ALG);
	event(Op::Socket, nullptr, 0, 0, fd, err);
	errno = err;
	return fd;
}
int mc_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	Fd *d = get_fd(fd);
	IoAns a = ask_sock(Op::Bind, len);
	int err = a.k == IoAns::Err ? a.err : !d ? EBADF : d->kind != FD_ALG ? EINVAL : 0;
	if (!err) {
		const struct sockaddr_alg *al = (const struct sockaddr_alg *)sa;
		if (len < sizeof(*al) || al->salg_family != AF_ALG || strcmp((const char *)al->salg_type, "hash"))
			err = EINVAL;
		else {
			const char *nm = (const char *)al->salg_name;
			if (strnlen(nm, sizeof(al->salg_name)) == sizeof(al->salg_name) || strncmp(nm, "sha256", 6))
				err = ENOENT;
		}
	}
	if (!err)
		d->bound = true;
	event(Op::Bind, nullptr, 0, len, err ? -1 : 0, err);
	errno = err;
	return err ? -1 : 0;
}
int mc_accept(int fd, struct sockaddr *, socklen_t *)
{
	Fd *d = get_fd(fd);
	IoAns a = ask_sock(Op::Accept, 0);
	int err = a.k == IoAns::Err ? a.err : !d ? EBADF : d->kind != FD_ALG || !d->bound ? EINVAL : 0;
	int n = err ? -1 : new_fd(FD_ALGOP);
	event(Op::Accept, nullptr, 0, 0, n, err);
	errno = err;
	return n;
}
int mc_accept4(int fd, struct sockaddr *sa, socklen_t *l, int) { return mc_accept(fd, sa, l); }
int mc_setsockopt(int, int, int, const void *, socklen_t) { check_horizon(); return 0; }

ssize_t mc_send(int fd, const void *buf, size_t len, int flags)
{
	Fd *d = get_fd(fd);
	if (!d || d->kind != FD_ALGOP) {
		errno = EBADF;
		return -1;
	}
	IoAns a = ask_sock(Op::Send, len);
	size_t n = len;
	if (a.k == IoAns::Short && a.n < n)
		n = std::max<u64>(a.n, std::min<u64>(n, 1)); // a transfer of nothing isn't a short one
	if (a.k == IoAns::Err) {
		event(Op::Send, nullptr, 0, len, -1, a.err);
		errno = a.err;
		return -1;
	}
	if (!d->more)
		d->acc.clear();
	d->acc.insert(d->acc.end(), (const u8 *)buf, (const u8 *)buf + n);
	// a partial transfer always leaves the kernel expecting more
	d->more = (flags & MSG_MORE) || n < len;
	d->have_result = false;
	if (!d->more) {
		SHA256(d->acc.data(), d->acc.size(), d->result);
		d->have_result = true;
	}
	event(Op::Send, nullptr, 0, len, (i64)n, 0);
	return (ssize_t)n;
}
ssize_t mc_recv(int fd, void *buf, size_t len, int)
{
	Fd *d = get_fd(fd);
	if (!d || d->kind != FD_ALGOP) {
		errno = EBADF;
		return -1;
	}
	IoAns a = ask_sock(Op::Recv, len);
	if (a.k == IoAns::Err) {
		event(Op::Recv, nullptr, 0, len, -1, a.err);
		errno = a.err;
		return -1;
	}
	if (!d->have_result || d->more) {
		if (!d->more)
			d->acc.clear();
		SHA256(d->acc.data(), d->acc.size(), d->result);
		d->have_result = true;
		d->more = false;
	}
	size_t n = std::min<size_t>(len, 32);
	if (a.k == IoAns::Short)
		n = std::min<size_t>(n, a.n);
	if (a.k == IoAns::Eof)
		n = 0;
	memcpy(buf, d->result, n);
	d->have_result = false; // handed out
	event(Op::Recv, nullptr, 0, len, (i64)n, 0);
	return (ssize_t)n;
}
ssize_t mc_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return mc_send(fd, b, n, fl); }
ssize_t mc_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return mc_recv(fd, b, n, fl); }
ssize_t mc_sendmsg(int fd, const struct msghdr *m, int fl)
{
	ssize_t t = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) {
		bool last = i + 1 == m->msg_iovlen;
		ssize_t r = mc_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, last ? fl : fl | MSG_MORE);
		if (r < 0)
			return t ? t : -1;
		t += r;
		if ((size_t)r < m->msg_iov[i].iov_len)
			break;
	}
	return t;
}

// ---- libcurl ---------------------------------------------------------------------------------

struct MCurl {
	std::string url;
	size_t (*wf)(char *, size_t, size_t, void *) = nullptr;
	void *wd = nullptr;
	char *errbuf = nullptr;
	long code = 0;
	bool failonerror = false;
	bool nobody = false, follow = false;
	long maxredirs = 30;
	long low_time = 0, low_limit = 0, timeout = 0;
	HttpReply reply;
	char *piece = nullptr;
};
static std::vector<MCurl *> curls;

CURLcode mc_curl_global_init(long) { check_horizon(); return CURLE_OK; }
void mc_curl_global_cleanup(void) {}
CURL *mc_curl_easy_init(void)
{
	if (alloc_fails(1))
		return nullptr;
	MCurl *c = new MCurl;
	curls.push_back(c);
	return (CURL *)c;
}
static void curl_destroy(MCurl *c)
{
	free(c->piece);
	delete c;
}
void mc_curl_easy_cleanup(CURL *h)
{
	MCurl *c = (MCurl *)h;
	if (!c)
		return;
	auto it = std::find(curls.begin(), curls.end(), c);
	if (it == curls.end())
		end_run(End::Abort, 1); // double cleanup
	curls.erase(it);
	curl_destroy(c);
}
void mc_curl_easy_reset(CURL *h)
{
	MCurl *c = (MCurl *)h;
	c->url.clear();
	c->wf = nullptr;
	c->wd = nullptr;
	c->errbuf = nullptr;
	c->failonerror = c->nobody = c->follow = false;
	c->maxredirs = 30;
	c->low_time = c->low_limit = c->timeout = 0;
}
CURLcode mc_curl_easy_setopt(CURL *h, CURLoption opt, ...)
{
	MCurl *c = (MCurl *)h;
	va_list ap;
	va_start(ap, opt);
	switch (opt) {
	case CURLOPT_URL: c->url = va_arg(ap, const char *); break;
	case CURLOPT_WRITEFUNCTION: c->wf = va_arg(ap, size_t (*)(char *, size_t, size_t, void *)); break;
	case CURLOPT_WRITEDATA: c->wd = va_arg(ap, void *); break;
	case CURLOPT_ERRORBUFFER: c->errbuf = va_arg(ap, char *); break;
	case CURLOPT_FAILONERROR: c->failonerror = va_arg(ap, long) != 0; break;
	case CURLOPT_LOW_SPEED_TIME: c->low_time = va_arg(ap, long); break;
	case CURLOPT_LOW_SPEED_LIMIT: c->low_limit = va_arg(ap, long); break;
	case CURLOPT_TIMEOUT: case CURLOPT_TIMEOUT_MS: c->timeout = va_arg(ap, long); break;
	case CURLOPT_FOLLOWLOCATION: c->follow = va_arg(ap, long) != 0; break;
	case CURLOPT_MAXREDIRS: c->maxredirs = va_arg(ap, long); break;
	case CURLOPT_NOBODY: c->nobody = va_arg(ap, long) != 0; break;
	default: break;
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode mc_curl_easy_getinfo(CURL *h, CURLINFO info, ...)
{
	MCurl *c = (MCurl *)h;
	va_list ap;
	va_start(ap, info);
	if (info == CURLINFO_RESPONSE_CODE) {
		*va_arg(ap, long *) = c->code;
	} else if ((info & CURLINFO_TYPEMASK) == CURLINFO_LONG) {
		*va_arg(ap, long *) = 0;
	} else if ((info & CURLINFO_TYPEMASK) == CURLINFO_DOUBLE) {
		*va_arg(ap, double *) = 0;
	} else if ((info & CURLINFO_TYPEMASK) == CURLINFO_STRING) {
		*va_arg(ap, const char **) = c->url.c_str();
	} else {
		*va_arg(ap, curl_off_t *) = 0;
	}
	va_end(ap);
	return CURLE_OK;
}
const char *mc_curl_easy_strerror(CURLcode c) { return curl_easy_strerror(c); }

static CURLcode curl_end(MCurl *c, int code)
{
	if (code && c->errbuf)
		snprintf(c->errbuf, CURL_ERROR_SIZE, "simulated error %d", code);
	event(Op::HttpEnd, nullptr, (u64)code, (u64)c->code, code, 0);
	return (CURLcode)code;
}

CURLcode mc_curl_easy_perform(CURL *h)
{
	MCurl *c = (MCurl *)h;
	check_horizon();
	if (c->errbuf)
		c->errbuf[0] = 0;
	c->code = 0;
	Ev &e = event(Op::Http, nullptr, 0, 0, 0, 0);
	e.s = c->url;
	X->note_state(hash64(c->url.data(), c->url.size()));
	size_t evidx = X->ev.size() - 1;
	if (X->verbose)
		fprintf(stderr, "      GET %s\n", c->url.c_str());
	HttpReply &r = c->reply;
	std::string url = c->url;
	for (long hops = 0;; hops++) {
		r = HttpReply();
		if (X->env.http)
			X->env.http(url, r);
		else
			r.pre = CURLE_COULDNT_CONNECT;
		if (cur_rec) {
			if (r.gen || (r.pre && r.pre != CURLE_RECV_ERROR && r.pre != CURLE_GOT_NOTHING) || (r.post && r.post != CURLE_PARTIAL_FILE))
				cur_rec->replayable = false;
			cur_rec->replies.push_back({url, r});
		}
		if (r.location.empty() || !c->follow || r.pre || r.status < 300 || r.status > 399)
			break;
		if (c->maxredirs >= 0 && hops >= c->maxredirs) {
			r = HttpReply();
			r.pre = CURLE_TOO_MANY_REDIRECTS;
			break;
		}
		url = r.location;
		X->note_state(hash64(url.data(), url.size()));
	}
	X->ev[evidx].aux = (u32)r.status;
	X->ev[evidx].ret = r.pre;
	if (X->verbose)
		fprintf(stderr, "      reply: curl=%d status=%ld body=%zu cuts=%zu post=%d@%lld\n", r.pre, r.status, r.body.size(),
		        r.cuts.size(), r.post, (long long)r.post_at);
	if (r.pre)
		return curl_end(c, r.pre);
	c->code = r.status;
	if (c->failonerror && r.status >= 400)
		return curl_end(c, CURLE_HTTP_RETURNED_ERROR);
	if (c->nobody)
		return curl_end(c, 0);

	u64 total = r.body.size();
	if (r.post_at < total)
		total = r.post_at;
	u64 pos = 0;
	size_t ci = 0;
	u64 gen_i = 0;
	for (;;) {
		u64 n;
		const u8 *src;
		Bytes g;
		if (r.gen) {
			g = r.gen(gen_i++);
			if (g.empty())
				break;
			n = g.size();
			src = g.data();
		} else {
			if (pos >= total)
				break;
			while (ci < r.cuts.size() && r.cuts[ci] <= pos)
				ci++;
			u64 end = std::min<u64>(total, pos + std::min<u32>(r.max_piece, 16384));
			if (ci < r.cuts.size() && r.cuts[ci] < end)
				end = r.cuts[ci];
			n = end - pos;
			src = r.body.data() + pos;
		}
		check_horizon();
		// an exactly sized heap copy, so that reading beyond it is noticed
		free(c->piece);
		c->piece = (char *)malloc(n);
		memcpy(c->piece, src, n);
		X->note_state(hash64(src, n));
		size_t got = n;
		if (c->wf)
			got = c->wf(c->piece, 1, n, c->wd);
		{
			Ev &d = event(Op::HttpData, nullptr, pos, n, (i64)got, 0);
			(void)d;
		}
		pos += n;
		if (got != n)
			return curl_end(c, CURLE_WRITE_ERROR);
	}
	// a transfer that stalls doesn't end unless somebody asked for that
	if (r.post == CURLE_OPERATION_TIMEDOUT && !(c->low_time > 0 && c->low_limit > 0) && c->timeout <= 0)
		end_run(End::Horizon, 0);
	return curl_end(c, r.post);
}

// ---- libzstd, libcrypto: only resource tracking ----------------------------------------------

static std::vector<ZSTD_DCtx *> dctxs;
ZSTD_DStream *mc_ZSTD_createDStream(void)
{
	if (alloc_fails(2))
		return nullptr;
	// what it allocates counts, too
	ZSTD_customMem cm;
	cm.opaque = nullptr;
	cm.customAlloc = [](void *, size_t n) -> void * {
		u64 *p = (u64 *)malloc(n + 16);
		if (!p)
			return nullptr;
		*p = n;
		heap_now += n;
		heap_peak = std::max(heap_peak, heap_now);
		return p + 2;
	};
	cm.customFree = [](void *, void *q) {
		if (!q)
			return;
		u64 *p = (u64 *)q - 2;
		heap_now -= *p;
		free(p);
	};
	ZSTD_DStream *d = ZSTD_createDStream_advanced(cm);
	dctxs.push_back(d);
	return d;
}
ZSTD_DCtx *mc_ZSTD_createDCtx(void) { return mc_ZSTD_createDStream(); }
size_t mc_ZSTD_freeDStream(ZSTD_DStream *d)
{
	if (!d)
		return 0;
	auto it = std::find(dctxs.begin(), dctxs.end(), d);
	if (it == dctxs.end())
		end_run(End::Abort, 2);
	dctxs.erase(it);
	return ZSTD_freeDStream(d);
}
size_t mc_ZSTD_freeDCtx(ZSTD_DCtx *d) { return mc_ZSTD_freeDStream(d); }

static std::vector<EVP_CIPHER_CTX *> evps;
EVP_CIPHER_CTX *mc_EVP_CIPHER_CTX_new(void)
{
	if (alloc_fails(3))
		return nullptr;
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	evps.push_back(c);
	return c;
}
void mc_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c)
{
	if (!c)
		return;
	auto it = std::find(evps.begin(), evps.end(), c);
	if (it == evps.end())
		end_run(End::Abort, 3);
	evps.erase(it);
	EVP_CIPHER_CTX_free(c);
}

int sut_csn_main(int, char **);
int sut_tool_main(int, char **);
int sut_patchdd_main(int, char **);
extern u8 __start_sutdata_csn[] __attribute__((weak)), __stop_sutdata_csn[] __attribute__((weak));
extern u8 __start_sutdata_tool[] __attribute__((weak)), __stop_sutdata_tool[] __attribute__((weak));
extern u8 __start_sutdata_patchdd[] __attribute__((weak)), __stop_sutdata_patchdd[] __attribute__((weak));

const char *__asan_default_options(void)
{
	return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=2:"
	       "thread_local_quarantine_size_kb=64:malloc_context_size=6:detect_stack_use_after_return=0:"
	       "handle_abort=1:max_malloc_fill_size=4096:strict_string_checks=0:use_sigaltstack=1:max_allocation_size_mb=6000";
}
const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }

} // extern "C"

// raw copies that the address sanitizer does not check (globals have red zones)
static void raw_copy(u8 *d, const u8 *s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

struct Seg { u8 *start; size_t len; Bytes snap; };
static Seg segs[3];
static bool snapped;

static void snapshot()
{
	u8 *b[3] = {__start_sutdata_csn, __start_sutdata_tool, __start_sutdata_patchdd};
	u8 *e[3] = {__stop_sutdata_csn, __stop_sutdata_tool, __stop_sutdata_patchdd};
	for (int i = 0; i < 3; i++) {
		segs[i].start = b[i];
		segs[i].len = (size_t)(e[i] - b[i]);
		segs[i].snap.resize(segs[i].len);
		raw_copy(segs[i].snap.data(), segs[i].start, segs[i].len);
	}
	snapped = true;
}

static void cleanup_run()
{
	in_sut = false;
	text_close();
	for (auto &s : streams)
		fclose(s.f);
	streams.clear();
	for (auto &a : allocs)
		free(a.first);
	allocs.clear();
	heap_now = 0;
	for (auto *c : curls)
		curl_destroy(c);
	curls.clear();
	for (auto *d : dctxs)
		ZSTD_freeDStream(d);
	dctxs.clear();
	for (auto *c : evps)
		EVP_CIPHER_CTX_free(c);
	evps.clear();
	for (auto &m : maps)
		munmap(m.p, m.len);
	maps.clear();
	fds.clear();
	if (stdin_file) {
		fclose(stdin_file);
		stdin_file = nullptr;
	}
}

std::string Result::str() const
{
	switch (end) {
	case End::Exit: return strf("exit %d", code);
	case End::Abort: return "abort";
	case End::Crash: return "interrupted";
	case End::Horizon: return "endless (event horizon)";
	case End::Memory: return "stopped at the memory limit";
	}
	return "?";
}

static void record_fs(RecRun &r, std::map<std::string, Bytes> &out)
{
	std::string pre = X->env.cwd + "/";
	for (auto &f : X->env.fs) {
		VFile &v = *f.second;
		if (f.first.compare(0, pre.size(), pre) || v.blk || v.discard || v.bad_from != ~0ull || v.size > (32u << 20)) {
			r.replayable = false;
			continue;
		}
		if (v.dir) {
			r.dirs.insert(f.first.substr(pre.size()));
			continue;
		}
		out[f.first.substr(pre.size())] = v.content();
	}
}

Result sut_run(Exec &x, Prog p, const std::vector<std::string> &args)
{
	static char **argv;
	static int argc;
	static std::vector<char *> owned;
	if (!snapped)
		snapshot();
	X = &x;
	x.ev.clear();
	if (x.verbose) {
		std::string s;
		for (auto &a : args)
			s += " '" + (a.size() > 300 ? a.substr(0, 300) + "..." : a) + "'";
		fprintf(stderr, " run:%s\n", s.c_str());
	}
	for (auto &a : args)
		x.note_state(hash64(a.data(), a.size()));

	Seg &sg = segs[(int)p];
	raw_copy(sg.start, sg.snap.data(), sg.len);
	fds.assign(3, Fd());
	fds[0].kind = FD_STDIN;
	fds[1].kind = FD_STDOUT;
	fds[2].kind = FD_STDERR;
	stdin_pos = 0;
	run_events = 0;
	heap_now = heap_peak = 0;
	optind = 0;
	opterr = 1;
	{
		cookie_io_functions_t io = {stdin_read, nullptr, nullptr, nullptr};
		stdin_file = fopencookie(nullptr, "r", io);
		mc_stdin = stdin_file;
	}
	cur_prog = p;
	text_open();

	owned.clear();
	argc = (int)args.size();
	argv = (char **)malloc(sizeof(char *) * (args.size() + 1));
	for (size_t i = 0; i < args.size(); i++) {
		argv[i] = (char *)malloc(args[i].size() + 1);
		memcpy(argv[i], args[i].c_str(), args[i].size() + 1);
		owned.push_back(argv[i]);
	}
	argv[args.size()] = nullptr;

	RecRun rec;
	cur_rec = nullptr;
	if (g_record) {
		cur_rec = &rec;
		rec.p = p;
		rec.args = args;
		rec.cwd = x.env.cwd;
		rec.env = x.env.env;
		rec.stdin_data = x.env.stdin_data;
		rec.replayable = !x.env.kcapi && !x.env.tty_out && !x.env.tty_err && x.env.stdin_err_at < 0 && !x.env.log_alloc && !next_unreal;
		x.env.stdout_data.clear();
		record_fs(rec, rec.before);
	}
	next_unreal = false;
	sut_res = Result();
	errno = 0;
	if (sigsetjmp(sut_jb, 0) == 0) {
		in_sut = true;
		int r = p == P_CSN ? sut_csn_main(argc, argv) : p == P_TOOL ? sut_tool_main(argc, argv) : sut_patchdd_main(argc, argv);
		fflush(mc_stdout);
		sut_res.end = End::Exit;
		sut_res.code = r & 0xff;
	}
	in_sut = false;
	Result res = sut_res;
	res.peak_heap = heap_peak;
	res.events = run_events;
	cleanup_run();
	if (cur_rec) {
		cur_rec = nullptr;
		bool ok = rec.replayable;
		record_fs(rec, rec.after);
		rec.replayable &= ok && res.end == End::Exit;
		rec.res = res;
		rec.stdout_data = x.env.stdout_data;
		g_record->push_back(std::move(rec));
	}
	for (char *c : owned)
		free(c);
	free(argv);
	event(Op::Exit, nullptr, (u64)res.end, (u64)res.code, 0, 0);
	X = nullptr;
	if (x.verbose)
		fprintf(stderr, " -> %s\n", res.str().c_str());
	return res;
}
