// Support for the replay / runtime-contract drivers: inputs, oracles' CHECK, reporting.
// Everything runs against the repository's current sources; no file outside the output directory is written.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <random>
#include <sstream>
#include <fstream>
#include <functional>
#include <chrono>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace rv
{
typedef std::vector<size_t> dims_t;

struct Ctx
{
	std::mt19937_64 rng{1};
	std::vector<double> dict;          // numeric literals of the current sources
	std::string out, prop;
	double deadline = 1e18;
	bool thorough = false;
	long evals = 0, nontrivial = 0;
	std::set<size_t> distinct;
	std::set<std::string> failed;
	std::map<std::string, long> bucket;
	std::vector<std::string> samples;
	std::map<std::string, std::vector<std::vector<double> > > cex;  // verifier counterexamples, by input name
	char* cur = nullptr;
};
inline Ctx& C (void) { static Ctx c; return c; }

inline double now (void)
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline bool more (void) { return now() < C().deadline; }
inline size_t rnd (size_t lo, size_t hi) // inclusive
{
	return lo + C().rng() % (hi - lo + 1);
}
inline double rndd (double lo, double hi)
{
	return lo + (hi - lo) * (C().rng() % 1000001) / 1000000.0;
}
inline bool coin (int n = 2) { return C().rng() % n == 0; }

// declare the case about to run (survives a crash of the code under test)
inline void begin (const std::string& bucket, const std::string& desc, bool nontrivial = true)
{
	Ctx& c = C();
	c.evals++;
	c.bucket[bucket]++;
	if (nontrivial && c.distinct.size() < 4000000) c.distinct.insert(std::hash<std::string>()(bucket + "|" + desc));
	if (c.cur) { strncpy(c.cur, (bucket + "|" + desc).c_str(), 4000); c.cur[4000] = 0; }
	if (c.bucket[bucket] == 3 && c.samples.size() < 12) c.samples.push_back(bucket + ": " + desc);
	struct itimerval t = {{0, 0}, {20, 0}};
	setitimer(ITIMER_REAL, &t, nullptr);   // a hanging case is a failing case
}
inline std::string current (void) { return C().cur ? std::string(C().cur) : ""; }

inline void fail (const std::string& key, const std::string& msg)
{
	Ctx& c = C();
	if (!c.failed.insert(key).second) return;
	std::string f = c.out + "/fail-" + std::to_string(c.failed.size()) + ".txt";
	std::ofstream o(f);
	o << "property " << c.prop << "\nkey " << key << "\ncase " << current() << "\n" << msg << "\n";
	o.close();
	std::string m = msg;
	for (char& ch : m) if (ch == '\n') ch = ' ';
	printf("FAIL\t%s\t%s\t%s\t%s\n", key.c_str(), f.c_str(), current().c_str(), m.c_str());
	fflush(stdout);
}
#define RV_CHECK(cond, key, msg) do { if (!(cond)) { std::ostringstream _o; _o << msg; rv::fail(key, _o.str()); } } while (0)

template <typename V>
std::string str (const V& v)
{
	std::ostringstream o;
	o.precision(17);
	o << "[";
	bool first = true;
	for (auto x : v) { if (!first) o << ","; o << x; first = false; }
	o << "]";
	return o.str();
}

inline bool close (double a, double b, double tol = 1e-9)
{
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

// all shapes of rank <= maxrank with dims drawn from vals
inline std::vector<dims_t> all_shapes (size_t maxrank, const std::vector<size_t>& vals)
{
	std::vector<dims_t> out = {{}}, level = {{}};
	for (size_t r = 0; r < maxrank; r++)
	{
		std::vector<dims_t> next;
		for (auto& s : level) for (size_t v : vals) { dims_t t = s; t.push_back(v); next.push_back(t); }
		out.insert(out.end(), next.begin(), next.end());
		level = next;
	}
	return out;
}
inline size_t nelems (const dims_t& d) { if (d.empty()) return 0; size_t n = 1; for (size_t x : d) n *= x; return n; }

// random dimension, mixing in literals of the sources
inline size_t rdim (size_t lo, size_t hi, size_t cap = 64)
{
	auto& d = C().dict;
	if (!d.empty() && coin(4))
	{
		double v = d[rnd(0, d.size() - 1)];
		long k = (long) v + (long) rnd(0, 2) - 1;
		if (k >= (long) lo && k <= (long) std::max<size_t>(hi, cap)) return (size_t) k;
	}
	return rnd(lo, hi);
}
inline dims_t rshape (size_t rlo, size_t rhi, size_t lo, size_t hi, size_t cap = 4096)
{
	for (int tries = 0; tries < 100; tries++)
	{
		dims_t s;
		size_t r = rnd(rlo, rhi);
		for (size_t i = 0; i < r; i++) s.push_back(rdim(lo, hi, cap));
		size_t n = 1;
		for (size_t x : s) n *= std::max<size_t>(x, 1);
		if (n <= cap) return s;
	}
	return dims_t(rlo, 1);
}
inline double rval (void)
{
	auto& d = C().dict;
	if (!d.empty() && coin(6)) return d[rnd(0, d.size() - 1)] * (coin() ? 1 : -1);
	switch (rnd(0, 5))
	{
		case 0: return (double) rnd(0, 6) - 3;
		case 1: return rndd(-1, 1);
		case 2: return rndd(-100, 100);
		default: return rndd(-5, 5);
	}
}
inline std::vector<double> rvec (size_t n) { std::vector<double> v(n); for (double& x : v) x = rval(); return v; }
inline std::vector<double> rvecd (size_t n, double lo, double hi) { std::vector<double> v(n); for (double& x : v) x = rndd(lo, hi); return v; }

inline void on_signal (int s)
{
	Ctx& c = C();
	char buf[5000];
	int n = snprintf(buf, sizeof buf, "CRASH\t%s\t%s\n", s == SIGALRM ? "hang" : (s == SIGABRT ? "abort" : "signal"), c.cur ? c.cur : "");
	if (write(1, buf, n)) {}
	_exit(70);
}

inline int main_ (int argc, char** argv, const std::map<std::string, std::function<void(void)> >& props)
{
	// prop seed seconds outdir tier [dict] [cex]
	Ctx& c = C();
	if (argc < 6) return 2;
	c.prop = argv[1];
	c.rng.seed(strtoull(argv[2], nullptr, 10) * 7919 + 17);
	c.out = argv[4];
	c.thorough = std::string(argv[5]) == "thorough";
	if (argc > 6) { std::ifstream i(argv[6]); double v; while (i >> v) c.dict.push_back(v); }
	if (argc > 7)
	{
		std::ifstream i(argv[7]);
		std::string line;
		while (std::getline(i, line))
		{
			std::istringstream l(line);
			std::string nm; l >> nm;
			std::vector<double> v; double x;
			while (l >> x) v.push_back(x);
			c.cex[nm].push_back(v);
		}
	}
	int fd = open((c.out + "/current.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0 && ftruncate(fd, 8192) == 0)
		c.cur = (char*) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (c.cur == MAP_FAILED) c.cur = nullptr;
	signal(SIGALRM, on_signal);
	signal(SIGABRT, on_signal);
	auto it = props.find(c.prop);
	if (it == props.end()) return 2;
	c.deadline = now() + atof(argv[3]);
	try { it->second(); }
	catch (const std::exception& e) { fail("unexpected-exception:" + current().substr(0, current().find('|')), std::string("exception escaped: ") + e.what()); }
	catch (...) { fail("unexpected-exception:" + current().substr(0, current().find('|')), "exception escaped"); }
	for (auto& s : c.samples) printf("SAMPLE\t%s\n", s.c_str());
	for (auto& b : c.bucket) printf("BUCKET\t%s\t%ld\n", b.first.c_str(), b.second);
	printf("STATS\t%ld\t%zu\n", c.evals, c.distinct.size());
	fflush(stdout);
	_exit(c.failed.empty() ? 0 : 1);
}
}
