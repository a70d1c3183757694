// Repeats recorded runs with the plain program: real files in a scratch directory, the real libcurl talking
// to a server on the loopback interface that gives the recorded answers.
#include "rt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <curl/curl.h>

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static void mkdirs(const std::string &base, const std::string &rel)
{
	for (size_t i = 0; i < rel.size(); i++)
		if (rel[i] == '/' && i)
			mkdir((base + "/" + rel.substr(0, i)).c_str(), 0755);
}

static bool put(const std::string &p, const Bytes &b)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0)
		return false;
	size_t k = 0;
	while (k < b.size()) {
		ssize_t n = write(fd, b.data() + k, b.size() - k);
		if (n <= 0)
			break;
		k += (size_t)n;
	}
	close(fd);
	return k == b.size();
}

static bool get(const std::string &p, Bytes &b)
{
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0)
		return false;
	b.clear();
	u8 buf[65536];
	ssize_t n;
	while ((n = read(fd, buf, sizeof(buf))) > 0)
		b.insert(b.end(), buf, buf + n);
	close(fd);
	return true;
}

// all regular files below a directory
static void list(const std::string &base, const std::string &rel, std::map<std::string, Bytes> &out)
{
	DIR *d = opendir((base + "/" + rel).c_str());
	if (!d)
		return;
	while (struct dirent *e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..")
			continue;
		std::string r = rel.empty() ? n : rel + "/" + n;
		struct stat st;
		if (lstat((base + "/" + r).c_str(), &st))
			continue;
		if (S_ISDIR(st.st_mode))
			list(base, r, out);
		else
			get(base + "/" + r, out[r]);
	}
	closedir(d);
}

static void wipe(const std::string &base)
{
	DIR *d = opendir(base.c_str());
	if (!d)
		return;
	while (struct dirent *e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..")
			continue;
		std::string p = base + "/" + n;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
			wipe(p);
		else
			unlink(p.c_str());
	}
	closedir(d);
	rmdir(base.c_str());
}

std::string real_replay(const RecRun &r, const std::string &exe, const std::string &scratch, bool *skipped)
{
	*skipped = true;
	for (auto &f : r.before)
		if (f.first.find("..") != std::string::npos || f.first.size() > 2000)
			return "";
	for (auto &a : r.args)
		if (a.compare(0, 1, "/") == 0 || a.find("../") != std::string::npos || a.find(":/w") != std::string::npos ||
		    a.compare(0, 5, "https") == 0)
			return "";
	for (auto &x : r.replies)
		if (x.second.body.size() > (8u << 20))
			return "";

	mkdir(scratch.c_str(), 0755);
	std::string base = scratch + "/w";
	wipe(base);
	mkdir(base.c_str(), 0755);
	for (auto &d : r.dirs) {
		mkdirs(base, d + "/");
	}
	for (auto &f : r.before) {
		mkdirs(base, f.first);
		if (!put(base + "/" + f.first, f.second)) {
			wipe(base);
			return "";
		}
	}
	put(scratch + "/stdin", r.stdin_data);

	int ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_in sa;
	memset(&sa, 0, sizeof(sa));
	sa.sin_family = AF_INET;
	sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t sl = sizeof(sa);
	if (ls < 0 || bind(ls, (struct sockaddr *)&sa, sizeof(sa)) || listen(ls, 64) || getsockname(ls, (struct sockaddr *)&sa, &sl)) {
		if (ls >= 0)
			close(ls);
		wipe(base);
		return "";
	}
	*skipped = false;
	std::string proxy = strf("http_proxy=http://127.0.0.1:%d", ntohs(sa.sin_port));

	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		if (chdir(base.c_str()))
			_exit(126);
		int in = open((scratch + "/stdin").c_str(), O_RDONLY);
		int out = open((scratch + "/stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		int nul = open((scratch + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(in, 0);
		dup2(out, 1);
		dup2(nul, 2);
		for (int i = 3; i < 64; i++)
			close(i);
		signal(SIGALRM, SIG_DFL);
		alarm(60);
		std::vector<char *> av, ev;
		for (auto &a : r.args)
			av.push_back((char *)a.c_str());
		av.push_back(nullptr);
		ev.push_back((char *)proxy.c_str());
		std::vector<std::string> keep;
		for (auto &e : r.env)
			keep.push_back(e.first + "=" + e.second);
		for (auto &k : keep)
			ev.push_back((char *)k.c_str());
		ev.push_back(nullptr);
		execve(exe.c_str(), av.data(), ev.data());
		_exit(126);
	}

	std::vector<std::string> urls;
	size_t ri = 0;
	int st = 0;
	double t0 = now();
	bool done = false;
	auto reap = [&]() {
		if (!done && waitpid(pid, &st, WNOHANG) == pid)
			done = true;
		return done;
	};
	while (!reap() && now() - t0 < 50) {
		struct pollfd pf = {ls, POLLIN, 0};
		if (poll(&pf, 1, 2) <= 0)
			continue;
		int c = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC);
		if (c < 0)
			continue;
		std::string req;
		char buf[4096];
		double t1 = now();
		while (req.find("\r\n\r\n") == std::string::npos && now() - t1 < 10) {
			struct pollfd pc = {c, POLLIN, 0};
			if (poll(&pc, 1, 100) <= 0) {
				if (reap())
					break;
				continue;
			}
			ssize_t n = read(c, buf, sizeof(buf));
			if (n <= 0)
				break;
			req.append(buf, (size_t)n);
		}
		size_t a = req.find(' '), b = a == std::string::npos ? a : req.find(' ', a + 1);
		if (b != std::string::npos)
			urls.push_back(req.compare(0, 4, "GET ") == 0 ? req.substr(a + 1, b - a - 1) : req.substr(0, b));
		else
			urls.push_back("?");
		HttpReply rep;
		if (ri < r.replies.size())
			rep = r.replies[ri].second;
		else
			rep.status = 404;
		ri++;
		if (!rep.pre) {
			std::string head = strf("HTTP/1.1 %ld X\r\nContent-Length: %zu\r\nConnection: close\r\n\r\n", rep.status, rep.body.size());
			if (rep.status == 204 || rep.status == 304)
				head = strf("HTTP/1.1 %ld X\r\nConnection: close\r\n\r\n", rep.status);
			if (!rep.location.empty())
				head.insert(head.size() - 2, "Location: " + rep.location + "\r\n");
			std::string out = head;
			u64 n = std::min<u64>(rep.body.size(), rep.post ? rep.post_at : ~0ull);
			out.append((const char *)rep.body.data(), n);
			size_t k = 0;
			while (k < out.size()) {
				ssize_t w = send(c, out.data() + k, out.size() - k, MSG_NOSIGNAL);
				if (w <= 0)
					break;
				k += (size_t)w;
			}
		}
		shutdown(c, SHUT_WR);
		// wait for the other side, so that nothing is cut off
		double t2 = now();
		while (now() - t2 < 2) {
			struct pollfd pc = {c, POLLIN, 0};
			if (poll(&pc, 1, 50) > 0 && read(c, buf, sizeof(buf)) <= 0)
				break;
			if (reap())
				break;
		}
		close(c);
	}
	close(ls);
	if (!done) {
		kill(pid, SIGKILL);
		waitpid(pid, &st, 0);
		wipe(base);
		return "the program did not end within 50 s";
	}
	std::string diff;
	if (!WIFEXITED(st))
		diff = strf("ended by signal %d", WTERMSIG(st));
	else if (WEXITSTATUS(st) == 126)
		*skipped = true;
	else if (WEXITSTATUS(st) != r.res.code)
		diff = strf("exit status %d, expected %d", WEXITSTATUS(st), r.res.code);
	if (diff.empty() && !*skipped) {
		std::vector<std::string> want;
		for (auto &x : r.replies)
			want.push_back(x.first);
		for (size_t i = 0; i < std::max(urls.size(), want.size()) && diff.empty(); i++) {
			if (i >= urls.size())
				diff = "request for " + want[i] + " was not made";
			else if (i >= want.size())
				diff = "unexpected request for " + urls[i];
			else if (urls[i] != want[i])
				diff = "request for " + urls[i] + " instead of " + want[i];
		}
	}
	if (diff.empty() && !*skipped) {
		std::map<std::string, Bytes> after;
		list(base, "", after);
		for (auto &f : r.after)
			if (!after.count(f.first))
				diff = "file " + f.first + " is missing";
			else if (after[f.first] != f.second)
				diff = "file " + f.first + " differs";
		for (auto &f : after)
			if (!r.after.count(f.first))
				diff = "unexpected file " + f.first;
		if (r.p == P_TOOL) {
			Bytes o;
			get(scratch + "/stdout", o);
			if (o != r.stdout_data)
				diff = "standard output differs";
		}
	}
	wipe(base);
	return diff;
}
