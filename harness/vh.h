// Common part of all harnesses: cases, deterministic randomness, oracles' verdicts as JSON lines.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <mpi.h>
#include <unistd.h>

namespace vh {

// thrown in place of MPI_Abort, which natrium_errorexit() ends in
struct Abort: public std::runtime_error {
	Abort(const std::string& s) : std::runtime_error(s) {}
};

inline uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
	return h;
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
	uint64_t next() { s = s + 0x9e3779b97f4a7c15ULL; return mix(s); }
	double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * uni(); }
	size_t below(size_t n) { return next() % n; }
	bool flip(double p = 0.5) { return uni() < p; }
	double logu(double a, double b) { return a * std::pow(b / a, uni()); }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct State {
	FILE* out = nullptr;
	uint64_t seed = 1;
	bool thorough = false;
	int rank = 0, np = 1;
	std::string case_name;
	uint64_t evals = 0;
	std::set<uint64_t> distinct;
	std::map<std::string, double> metrics;
	std::map<std::string, int> viol;
	int samples = 0;
	Rng rng;
	std::string scratch;
	std::vector<std::string> extra; // remaining command line
};
inline State& st() { static State s; return s; }
inline Rng& rng() { return st().rng; }
inline bool thorough() { return st().thorough; }
inline size_t scale(size_t quick, size_t deep) { return st().thorough ? deep : quick; }

inline std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
	char b[2048];
	va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	return b;
}
inline void line(const std::string& s) {
	if (!st().out) return;
	fprintf(st().out, "%s\n", s.c_str());
	fflush(st().out);
}
// one more observed execution; distinct ones are told apart by `what`
inline void seen(const std::string& what) {
	st().evals++;
	st().distinct.insert(hash_str(what));
}
inline void seen_n(uint64_t n) { st().evals += n; }
inline void metric(const std::string& k, double n = 1) { st().metrics[k] += n; }
inline void metric_max(const std::string& k, double n) {
	double& m = st().metrics["max:" + k];
	if (n > m) m = n;
}
inline void sample(const std::string& s) {
	if (st().samples++ < 2)
		line("{\"t\":\"sample\",\"case\":\"" + esc(st().case_name) + "\",\"s\":\"" + esc(s) + "\"}");
}
inline void violation(const std::string& key, const std::string& msg) {
	int& n = st().viol[key];
	if (n++ < 2)
		line("{\"t\":\"viol\",\"case\":\"" + esc(st().case_name) + "\",\"key\":\"" + esc(key)
				+ "\",\"msg\":\"" + esc(msg) + "\"}");
}
inline bool check(bool ok, const std::string& key, const std::string& msg) {
	if (!ok) violation(key, msg);
	return ok;
}
// |a-b| <= tol, and both finite
inline bool near(double a, double b, double tol, const std::string& key, const std::string& msg = "") {
	bool ok = std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol;
	if (!ok) violation(key, fmt("got %.17g, expected %.17g, tolerance %.3g; ", a, b, tol) + msg);
	return ok;
}

struct Case { std::string name; std::function<void()> f; };
typedef std::vector<Case> Suite;
} // namespace vh

void vh_cases(vh::Suite& s); // each harness defines it
