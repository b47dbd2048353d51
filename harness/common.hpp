// Shared pieces of the conformance harnesses: a seeded generator, a JSON
// writer, fork isolation and stdout capture.  Nothing here knows about the
// code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>

struct VRng {
	uint64_t s;
	// The seed is mixed, so that the streams of neighbouring seeds have nothing
	// in common.
	VRng(uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull) { s = next() ^ (s << 32 | s >> 32); next(); }
	uint64_t next() {
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// inclusive range
	long in(long a, long b) { return a + (long) (next() % (uint64_t) (b - a + 1)); }
	bool coin(int num, int den) { return in(1, den) <= num; }
	template<class T> const T &pick(const std::vector<T> &v) { return v[in(0, (long) v.size()-1)]; }
};

// A minimal JSON builder.
struct Js {
	std::string s;
	Js() { }
	explicit Js(const std::string &raw) : s(raw) { }
	static std::string q(const std::string &v) {
		std::string o = "\"";
		for (unsigned char c : v) {
			char b[8];
			if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
			else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += (char) c;
		}
		return o + "\"";
	}
	static std::string num(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); return b; }
	template<class V> static std::string arr(const V &v) {
		std::string o = "[";
		bool first = true;
		for (auto x : v) { if (!first) o += ","; first = false; o += num((long long) x); }
		return o + "]";
	}
	static std::string join(const std::vector<std::string> &v) {
		std::string o = "[";
		for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; }
		return o + "]";
	}
};
struct Obj {
	std::string s;
	Obj &raw(const char *k, const std::string &v) { s += s.empty() ? "{" : ","; s += Js::q(k) + ":" + v; return *this; }
	Obj &n(const char *k, long long v) { return raw(k, Js::num(v)); }
	Obj &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
	Obj &str(const char *k, const std::string &v) { return raw(k, Js::q(v)); }
	template<class V> Obj &arr(const char *k, const V &v) { return raw(k, Js::arr(v)); }
	std::string done() const { return s.empty() ? "{}" : s + "}"; }
};

inline std::string slurp(const std::string &path) {
	std::string o;
	FILE *f = fopen(path.c_str(), "r");
	if (!f) return o;
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
	fclose(f);
	return o;
}

// vscratch is a private scratch directory given by the driver.
inline std::string &vscratch() { static std::string s = "."; return s; }

// Runs fn in a forked child with a CPU time limit.  fn returns the line to be
// recorded.  On a crash, abort, exit or time-out the returned line is empty and
// why says what happened.  The child's stdout is captured in *out when given.
inline std::string forked(std::function<std::string()> fn, std::string &why,
		std::string *out = NULL, int cpusecs = 20, size_t maxmem = 0) {
	int p[2];
	if (pipe(p) != 0) { perror("pipe"); exit(2); }
	std::string outp = vscratch() + "/stdout." + Js::num(getpid());
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (pid == 0) {
		close(p[0]);
		struct rlimit rl = { (rlim_t) cpusecs, (rlim_t) cpusecs + 1 };
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit rc = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rc);
		if (maxmem) {
			struct rlimit rm = { maxmem, maxmem };
			setrlimit(RLIMIT_AS, &rm);
		}
		int fd = open(outp.c_str(), O_CREAT|O_TRUNC|O_RDWR, 0600);
		dup2(fd, 1);
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 2);
		std::string line = fn();
		fflush(NULL);
		if (!line.empty()) line += "\n";
		size_t off = 0;
		while (off < line.size()) {
			ssize_t n = write(p[1], line.data()+off, line.size()-off);
			if (n <= 0) _exit(3);
			off += n;
		}
		_exit(77);
	}
	close(p[1]);
	std::string got;
	char b[65536];
	ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
	close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	if (out) *out = slurp(outp);
	unlink(outp.c_str());
	why = "";
	if (WIFSIGNALED(st)) {
		int sg = WTERMSIG(st);
		why = sg == SIGXCPU || sg == SIGKILL ? "timeout" : sg == SIGABRT ? "abort" : sg == SIGSEGV ? "segv" : "signal";
		return "";
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { why = "exit"; return ""; }
	if (!got.empty() && got[got.size()-1] == '\n') got.resize(got.size()-1);
	return got;
}

struct VArgs {
	uint64_t seed;
	long count;
	std::string out, mode;
	std::map<std::string, std::string> kv;
	VArgs(int argc, char *argv[]) : seed(1), count(10) {
		for (int i = 1; i + 1 < argc; i += 2) kv[argv[i]] = argv[i+1];
		if (kv.count("seed")) seed = strtoull(kv["seed"].c_str(), NULL, 10);
		if (kv.count("count")) count = atol(kv["count"].c_str());
		if (kv.count("out")) out = kv["out"];
		if (kv.count("mode")) mode = kv["mode"];
		if (kv.count("scratch")) vscratch() = kv["scratch"];
	}
	long num(const char *k, long d) { return kv.count(k) ? atol(kv[k].c_str()) : d; }
	std::string get(const char *k, const char *d) { return kv.count(k) ? kv[k] : d; }
};
