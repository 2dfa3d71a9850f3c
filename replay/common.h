// Replay harness support: concrete scenarios and seeded histories against the real code, with an oracle.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <random>
#include <chrono>
#include <cstring>
#include <functional>
#include <sstream>
#include <unistd.h>
namespace rp {
inline std::string prop; inline unsigned seed = 1; inline double seconds = 5; inline long runs = 0;
inline std::vector<std::string> trace;
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
[[noreturn]] inline void fail(const std::string& what) {
  fflush(stdout);
  printf("FAIL %s %s\n", prop.c_str(), what.c_str());
  printf("history (seed %u):\n", seed);
  size_t b = trace.size() > 200 ? trace.size() - 200 : 0;
  for (size_t i = b; i < trace.size(); ++i) printf("  %s\n", trace[i].c_str());
  fflush(stdout); _exit(1);
}
inline void check(bool c, const std::string& what) { if (!c) fail(what); }
template<class... A> void log(A&&... a) { std::ostringstream o; (o << ... << a); trace.push_back(o.str()); }
inline void init(int argc, char** argv) {
  prop = argc > 1 ? argv[1] : ""; if (argc > 2) seed = atoi(argv[2]); if (argc > 3) seconds = atof(argv[3]);
  setvbuf(stdout, nullptr, _IOLBF, 0);
}
inline void done() { printf("OK %s runs=%ld\n", prop.c_str(), runs); fflush(stdout); }
using Rng = std::mt19937;
inline int rnd(Rng& r, int lo, int hi) { return lo + int(r() % unsigned(hi - lo + 1)); }
// every history until the time is used up; histories are derived from the seed
inline void histories(const std::function<void(Rng&)>& f, long most = 1000000) {
  for (long n = 0; n < most && elapsed() < seconds; ++n) { Rng r(seed * 1000003u + unsigned(n)); trace.clear(); log("history ", n); f(r); ++runs; }
}
}
