// Histories against the real Futex, RFutex, atomic helpers and Singleton.
#include "common.h"
#include <atomic>
#include <thread>
#include <iostream>
#include <mutex>
#include <condition_variable>
#include <limits>
#include <memory>
#include <type_traits>
#ifndef WITH_TSAN
// an instrumented std::atomic: every operation is recorded, and scripted steps of other threads happen before it
namespace vfa {
struct Ev { const void* obj; char kind; bool wrote; long oldv, newv; int order; bool weak; };
inline thread_local std::function<void(const void*)>* env = nullptr;
inline thread_local std::function<void(const Ev&)>* seen = nullptr;
inline bool on() { return env || seen; }
}
namespace std {
template<class T> struct vf_atomic {
  std::atomic<T> v; vf_atomic(): v() {} constexpr vf_atomic(T x): v(x) {} vf_atomic(const vf_atomic&) = delete;
  void pre() const { if (vfa::env) (*vfa::env)(this); }
  void ev(char k, bool w, T o, T n, int ord, bool weak = false) const { if (vfa::seen) (*vfa::seen)(vfa::Ev{this, k, w, long(o), long(n), ord, weak}); }
  T load(memory_order o = memory_order_seq_cst) const { pre(); T x = v.load(o); ev('l', false, x, x, int(o)); return x; }
  operator T() const { return load(); }
  void store(T x, memory_order o = memory_order_seq_cst) { pre(); T old = v.load(memory_order_relaxed); v.store(x, o); ev('s', true, old, x, int(o)); }
  T operator=(T x) { store(x); return x; }
  T exchange(T x, memory_order o = memory_order_seq_cst) { pre(); T old = v.exchange(x, o); ev('x', true, old, x, int(o)); return old; }
  bool cas(T& e, T d, memory_order o, memory_order f, bool weak) { pre(); T e0 = e; bool r; if (weak && vfa::on() && spurious()) { e = v.load(f); r = false; } else r = v.compare_exchange_strong(e, d, o, f); ev('c', r, r ? e0 : e, r ? d : e, int(r ? o : f), weak); return r; }
  static bool spurious() { static thread_local unsigned x = 12345; x = x * 1103515245u + 12345u; return ((x >> 16) & 7) == 0; }
  static memory_order fo(memory_order o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
  bool compare_exchange_weak(T& e, T d, memory_order o, memory_order f) { return cas(e, d, o, f, true); }
  bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) { return cas(e, d, o, fo(o), true); }
  bool compare_exchange_strong(T& e, T d, memory_order o, memory_order f) { return cas(e, d, o, f, false); }
  bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) { return cas(e, d, o, fo(o), false); }
  T add(T d, memory_order o) { pre(); T old = v.fetch_add(d, o); ev('x', true, old, T(old + d), int(o)); return old; }
  T fetch_add(T d, memory_order o = memory_order_seq_cst) { return add(d, o); }
  T fetch_sub(T d, memory_order o = memory_order_seq_cst) { return add(T(0) - d, o); }
  T operator++() { return T(add(1, memory_order_seq_cst) + 1); } T operator++(int) { return add(1, memory_order_seq_cst); }
  T operator--() { return T(add(T(-1), memory_order_seq_cst) - 1); } T operator+=(T d) { return T(add(d, memory_order_seq_cst) + d); }
};
}
static thread_local long yields = 0; static thread_local std::function<void()>* onyield = nullptr;
extern "C" int sched_yield() { ++yields; if (onyield) (*onyield)(); return 0; }
#define atomic vf_atomic
#endif
#include <falcon/futex.h>
#ifndef WITH_TSAN
#undef atomic
#endif
#include <falcon/atomic.h>
#include <falcon/singleton.h>
#define atomic vf_atomic
#ifdef WITH_TSAN
#undef atomic
#endif
#include FALCON_ENGINE(futex.cpp)
#undef atomic
using namespace rp;
static bool acq(int o) { return o == int(std::memory_order_acquire) || o == int(std::memory_order_acq_rel) || o == int(std::memory_order_seq_cst); }
static bool rel(int o) { return o == int(std::memory_order_release) || o == int(std::memory_order_acq_rel) || o == int(std::memory_order_seq_cst); }

#ifndef WITH_TSAN
// one thread is real, the others are played by a script that owns and frees the futex between its steps
template<unsigned N> void scripted(Rng& r) {
  falcon::Futex<N> f; int holder = 0; long fails = 0, nacq = 0, nrel = 0, y = 0; bool aq = false; int budget = 0;
  std::function<void(const void*)> env = [&](const void*) {
    if (holder == 1) return;
    if (holder == 2 && (--budget < 0)) { holder = 0; f.m_owned.v.store(false); if (r() % 3 == 0) { holder = 2; budget = rnd(r, 0, 3); f.m_owned.v.store(true); } }
    else if (holder == 0 && r() % 4 == 0) { holder = 2; budget = rnd(r, 0, 2 * int(N) % 200 + 3); f.m_owned.v.store(true); }
  };
  std::function<void(const vfa::Ev&)> seen = [&](const vfa::Ev& e) {
    log(e.kind, " old ", e.oldv, " new ", e.newv, " order ", e.order, " holder ", holder);
    bool got = e.wrote && !e.oldv && e.newv;
    if (e.kind == 'c' || e.kind == 'x') { check(N == 0 || prop != "C11" || fails < long(N), "an attempt is made although a yield is due"); if (!got) ++fails; }
    if (!e.wrote || e.oldv == e.newv) return;
    if (got) { holder = 1; ++nacq; aq = acq(e.order); }
    else { if (prop == "C10") { check(holder == 1, "the futex of another thread was freed"); check(rel(e.order), "freed without release ordering"); } holder = 0; ++nrel; }
  };
  std::function<void()> oy = [&]() { log("yield"); ++y; if (prop == "C11") { check(N > 0, "spin count zero must never yield"); check(fails == long(N), "yield after " + std::to_string(fails) + " failed attempts, spin count " + std::to_string(N)); } fails = 0; };
  if (prop == "C10") check(!f.isLocked(), "a new futex must be free");
  for (int k = 0; k < 5; ++k) {
    holder = rnd(r, 0, 1) * 2; budget = rnd(r, 0, 3 * int(N % 100) + 4); f.m_owned.v.store(holder != 0);
    fails = nacq = nrel = 0; y = 0; vfa::env = &env; vfa::seen = &seen; onyield = &oy;
    log("lock, spin count ", N, " holder ", holder); f.lock();
    vfa::env = nullptr; vfa::seen = nullptr; onyield = nullptr;
    if (prop == "C10") { check(holder == 1, "lock() returned although the caller does not own the futex"); check(nacq - nrel == 1, "not acquired exactly once"); check(aq, "acquired without acquire ordering"); check(f.m_owned.v.load(), "owned flag not set"); check(f.isLocked(), "isLocked() false while held"); }
    nacq = nrel = 0; vfa::env = &env; vfa::seen = &seen; onyield = &oy; long y0 = y; f.unlock(); vfa::env = nullptr; vfa::seen = nullptr; onyield = nullptr;
    if (prop == "C10") { check(nrel == 1 && nacq == 0 && holder != 1, "unlock() did not free the futex once"); if (holder == 0) check(!f.isLocked(), "isLocked() true on a free futex"); }
    else check(y == y0, "unlock() yields");
  }
}
// a long wait: every N-th failed attempt is followed by a yield, and no other
template<unsigned N> void longwait(Rng& r) {
  falcon::Futex<N> f; long left = long(N) * rnd(r, 1, 3) + rnd(r, 0, 2), tries = left; long fails = 0, y = 0; f.m_owned.v.store(true); log("a wait of ", tries, " failed attempts, spin count ", N);
  std::function<void(const void*)> env = [&](const void*) { if (left-- <= 0) f.m_owned.v.store(false); };
  std::function<void(const vfa::Ev&)> seen = [&](const vfa::Ev& e) { if ((e.kind == 'c' || e.kind == 'x') && !(e.wrote && !e.oldv && e.newv)) { ++fails; check(fails <= long(N), "no yield although it is due"); } };
  std::function<void()> oy = [&]() { ++y; check(fails == long(N), "yield after " + std::to_string(fails) + " failed attempts, spin count " + std::to_string(N)); fails = 0; };
  vfa::env = &env; vfa::seen = &seen; onyield = &oy; f.lock(); vfa::env = nullptr; vfa::seen = nullptr; onyield = nullptr; check(y == tries / long(N), std::to_string(y) + " yields in a wait of " + std::to_string(tries) + " attempts");
}
template<unsigned N> void threads10() {
  falcon::Futex<N> f; int in = 0; long total = 0; std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t) ts.emplace_back([&] { for (int i = 0; i < 300; ++i) { f.lock(); int k = ++in; if (k != 1) fail("two threads inside the lock"); ++total; --in; f.unlock(); } });
  for (auto& t : ts) t.join(); check(total == 1200, "lost update under the lock");
}
#else
template<unsigned N> void threads10() {
  falcon::Futex<N> f; long total = 0; std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t) ts.emplace_back([&] { for (int i = 0; i < 50; ++i) { f.lock(); ++total; f.unlock(); std::this_thread::yield(); } });
  for (auto& t : ts) t.join(); check(total == 150, "lost update under the lock");
}
#endif
// ---------------------------------------------------------------- RFutex: workers executing commands one at a time
struct Worker {
  std::mutex m; std::condition_variable c; std::function<void()> job; bool busy = false, quit = false; std::thread t;
  Worker(): t([this] { run(); }) {}
  void run() { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [&] { return quit || (busy && job); }); if (quit) return; auto j = std::move(job); job = nullptr; l.unlock(); j(); l.lock(); busy = false; c.notify_all(); } }
  void start(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); busy = true; c.notify_all(); }
  bool wait(int ms) { std::unique_lock<std::mutex> l(m); return c.wait_for(l, std::chrono::milliseconds(ms), [&] { return !busy; }); }
  void call(std::function<void()> f) { start(std::move(f)); if (!wait(20000)) fail("a call that must return at once does not return"); }
  ~Worker() { { std::unique_lock<std::mutex> l(m); quit = true; c.notify_all(); } t.join(); }
};
static void rfutex(Rng& r) {
  falcon::RFutex f, g; int n = rnd(r, 2, 4); std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < n; ++i) ws.emplace_back(new Worker);
  int holder = -1, depth = 0; int ghold = -1, gdepth = 0; int waiter = -1;
  auto look = [&] {
    bool il = f.isLocked(); check(il == (holder >= 0), std::string("isLocked() is ") + (il ? "true" : "false"));
    check(!f.isOwner(), "isOwner() true in a thread that holds nothing");
    for (int i = 0; i < n; ++i) if (i != waiter) { bool o = false, l = false, og = false; ws[i]->call([&] { o = f.isOwner(); l = f.isLocked(); og = g.isOwner(); }); check(o == (holder == i), "isOwner() wrong in thread " + std::to_string(i)); check(l == (holder >= 0), "isLocked() wrong"); check(og == (ghold == i), "isOwner() wrong for the second futex"); }
  };
  look();
  for (int k = 0; k < 30; ++k) {
    int i = rnd(r, 0, n - 1); if (i == waiter) continue;
    bool two = r() % 4 == 0;
    if (two) {
      if ((ghold < 0 || ghold == i) && r() % 2) { log("thread ", i, " locks the second futex"); ws[i]->call([&] { g.lock(); }); ghold = i; ++gdepth; }
      else if (ghold == i) { log("thread ", i, " unlocks the second futex"); ws[i]->call([&] { g.unlock(); }); if (--gdepth == 0) ghold = -1; }
    } else if (holder < 0 || holder == i) {
      if (holder == i && (depth > 4 || r() % 2)) {
        log("thread ", i, " unlocks"); ws[i]->call([&] { f.unlock(); });
        if (--depth == 0) { holder = -1; if (waiter >= 0) { if (!ws[waiter]->wait(20000)) fail("the waiting thread does not get the freed futex"); holder = waiter; depth = 1; waiter = -1; } }
      } else { log("thread ", i, " locks"); ws[i]->call([&] { f.lock(); }); holder = i; ++depth; }
    } else if (waiter < 0 && r() % 3 == 0) {
      log("thread ", i, " locks and must wait"); waiter = i; ws[i]->start([&] { f.lock(); });
      if (ws[i]->wait(2)) fail("lock() returned although another thread holds the recursive futex");
    }
    look();
  }
  while (holder >= 0) { ws[holder]->call([&] { f.unlock(); }); if (--depth == 0) { holder = -1; if (waiter >= 0) { if (!ws[waiter]->wait(20000)) fail("the waiting thread does not get the freed futex"); holder = waiter; depth = 1; waiter = -1; } } look(); }
  while (ghold >= 0) { ws[ghold]->call([&] { g.unlock(); }); if (--gdepth == 0) ghold = -1; }
}
static void rthreads(Rng&) {
  falcon::RFutex f; long total = 0; std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 60; ++i) { f.lock(); if (i % 3 == t) f.lock(); if (!f.isOwner()) fail("holder is not the owner"); ++total; if (i % 3 == t) f.unlock(); if (!f.isOwner()) fail("the futex was freed too early"); f.unlock(); if (f.isOwner()) fail("owner after the last unlock"); } });
  for (auto& t : ts) t.join(); check(total == 180, "lost update under the recursive lock"); check(!f.isLocked(), "locked after all unlocks");
}
#ifndef WITH_TSAN
static void rscript(Rng& r) {   // the memory orders and identities of one thread
  falcon::RFutex f; unsigned depth = 0; bool aq = false; long nrel = 0; bool held2 = false; int budget = 0;
  std::function<void(const void*)> env = [&](const void* o) {
    if (o != (const void*)&f.m_owner) return;
    if (held2 && --budget < 0) { held2 = false; f.m_owner.v.store(0); }
    else if (!held2 && f.m_owner.v.load() == 0 && r() % 4 == 0) { held2 = true; budget = rnd(r, 0, 4); f.m_owner.v.store(0xfffffff0u); }
  };
  std::function<void(const vfa::Ev&)> seen = [&](const vfa::Ev& e) {
    if (e.obj != (const void*)&f.m_owner) return;
    log(e.kind, " old ", e.oldv, " new ", e.newv, " order ", e.order);
    if (!e.wrote || e.oldv == e.newv) { return; }
    check(!held2, "ownership of another thread was overwritten");
    if (e.newv) { check(e.oldv == 0, "taken over"); aq = acq(e.order); } else { check(rel(e.order), "freed without release ordering"); ++nrel; }
  };
  for (int k = 0; k < 12; ++k) {
    bool up = depth == 0 || (depth < 4 && r() % 2); nrel = 0; vfa::env = &env; vfa::seen = &seen;
    if (up) { log("lock at depth ", depth); aq = depth > 0; f.lock(); } else { log("unlock at depth ", depth); f.unlock(); }
    vfa::env = nullptr; vfa::seen = nullptr;
    if (up) { ++depth; check(!held2 && f.m_owner.v.load() != 0 && f.m_owner.v.load() == falcon::RFutex::s_thread_id, "lock() returned without ownership"); check(aq, "acquired without acquire ordering"); }
    else { --depth; check(nrel == (depth == 0), "freed at the wrong depth"); if (depth == 0 && held2) { held2 = false; f.m_owner.v.store(0); } }
    check(f.isOwner() == (depth > 0), "isOwner() wrong");
  }
}
#endif
// ---------------------------------------------------------------- atomic helpers
static int32_t wrap(int64_t x) { return int32_t(uint32_t(uint64_t(x))); }
static void atomics(Rng& r) {
  using namespace falcon;
  static const int32_t edge[] = {0, 1, -1, 2, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 0x55555555, int32_t(0xaaaaaaaau)};
  auto any = [&]() -> int32_t { return r() % 2 ? edge[r() % 10] : int32_t(r()); };
  for (int k = 0; k < 200; ++k) {
    struct { int32_t before; atomic_int a; int32_t after; } z; z.before = 0x1234567; z.after = 0x7654321; int32_t o = any(), v = any(), w = any(); z.a = o; int op = int(r() % 10); log("op ", op, " on ", o, " with ", v, " ", w);
    int64_t exp = 0, ret = 0, got = 0;
    switch (op) {
    case 0: got = atomicInc(z.a); exp = ret = wrap(int64_t(o) + 1); break;
    case 1: got = atomicDec(z.a); exp = ret = wrap(int64_t(o) - 1); break;
    case 2: got = atomicAdd(z.a, v); exp = ret = wrap(int64_t(o) + v); break;
    case 3: got = atomicFetch(z.a); exp = ret = o; break;
    case 4: atomicSet(z.a, v); exp = v; break;
    case 5: got = atomicExchange(z.a, v); exp = v; ret = o; break;
    case 6: { int32_t c = r() % 2 ? o : w; got = atomicCAS(z.a, c, v); ret = c == o; exp = c == o ? v : o; break; }
    case 7: got = atomicXor(z.a, v); exp = o ^ v; ret = o; break;
    case 8: got = atomicAnd(z.a, v); exp = o & v; ret = o; break;
    case 9: got = atomicOr(z.a, v); exp = o | v; ret = o; break;
    }
    check(got == ret, "returned " + std::to_string(got) + " instead of " + std::to_string(ret)); check(z.a == exp, "stored " + std::to_string(z.a) + " instead of " + std::to_string(exp));
    check(z.before == 0x1234567 && z.after == 0x7654321, "memory beside the target changed");
  }
}
static void atomth() {
  using namespace falcon; atomic_int a = 0, b = 0, x = 0, e = 0, m = 0; std::vector<std::thread> ts; std::atomic<long> esum{0}; std::atomic<int> go{0};
  const int K = 2000, T = 4; atomic_int up = 0, add = 0, down = 0; std::vector<std::atomic<char>> sup(K * T + 1), sadd(K * T + 1), sdown(K * T + 1); auto once = [&](std::vector<std::atomic<char>>& v, long i, const char* w) { if (i < 0 || i >= long(v.size()) || v[i]++) fail(std::string(w) + " returned the value of another update"); }; atomic_int bits = 0, ones = -1;
  for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { ++go; while (go < T) ; 
    for (int i = 0; i < K; ++i) {
      once(sup, atomicInc(up), "inc"); once(sadd, atomicAdd(add, 1), "add"); once(sdown, -atomicDec(down), "dec");
      atomicInc(a); atomicAdd(b, 3); atomicDec(b); atomicXor(x, 1 << t); 
      for (;;) { int32_t o = atomicFetch(m); if (atomicCAS(m, o, o + 1)) break; }
      esum += atomicExchange(e, t + 1);
      int32_t bit = 1 << t; if (atomicOr(bits, bit) & bit) fail("or: bit already set"); if (!(atomicAnd(bits, ~bit) & bit)) fail("and: update of an own bit lost");
      if (!(atomicAnd(ones, ~bit) & bit)) fail("and: update lost"); if (atomicOr(ones, bit) & bit) fail("or: update lost");
    } });
  for (auto& t : ts) t.join();
  check(a == K * T && b == 2 * K * T && x == 0 && m == K * T && bits == 0 && ones == -1, "an update of a concurrent thread was lost");
  long tot = 0; for (int t = 0; t < T; ++t) tot += long(t + 1) * K; check(esum + e == tot, "exchange lost or repeated a value");
}
// ---------------------------------------------------------------- Singleton
template<int I> struct Ob { static std::atomic<int>& made() { static std::atomic<int> n{0}; return n; } int val = 5; Ob() { ++made(); } Ob(const Ob&) { ++made(); } };
template<int I> void single() {
  falcon::Singleton<Ob<I>> s, t; const falcon::Singleton<Ob<I>>& c = s;
  const Ob<I>* p = nullptr; std::vector<const Ob<I>*> ps; std::mutex m; std::vector<std::thread> ts;
  for (int k = 0; k < 4; ++k) ts.emplace_back([&, k] { falcon::Singleton<Ob<I>> u; const Ob<I>* q[] = { k & 1 ? u.get() : &*u.mtbl, k & 2 ? u.operator->() : u.mtbl.operator->(), &*u, &*u.mtbl, u.mtbl.operator->(), u.get(), s.get(), t.mtbl.operator->() }; std::lock_guard<std::mutex> g(m); for (auto x : q) ps.push_back(x); });
  for (auto& x : ts) x.join();
  p = s.get(); for (auto q : ps) check(q == p, "two accessors designate different objects");
  check(c.operator->() == p && &*c == p && t.get() == p && &*t == p && t.mtbl.operator->() == p && &*t.mtbl == p && s.mtbl.operator->() == p && &*s.mtbl == p && s.operator->() == p && &*s == p, "two accessors designate different objects");
  auto cp = s.mtbl; check(&*cp == p && cp.operator->() == p, "a copied accessor designates another object");
  { auto* h = new falcon::Singleton<Ob<I>>; check(&*h->mtbl == p, "a heap handle designates another object"); delete h; }
  s.mtbl->val = 77 + I; check(t->val == 77 + I && c->val == 77 + I && (*t).val == 77 + I && s.get()->val == 77 + I, "a write is not seen by later reads");
  check(Ob<I>::made() == 1, "constructed " + std::to_string(Ob<I>::made()) + " times");
}
int main(int argc, char** argv) {
  init(argc, argv);
#ifndef WITH_TSAN
  if (prop == "C10" || prop == "C11") { threads10<0>(); threads10<3>(); histories([](Rng& r) { if (prop == "C11" && r() % 40 == 0) { switch (r() % 3) { case 0: longwait<300>(r); break; case 1: longwait<70000>(r); break; default: longwait<100000>(r); } return; } switch (r() % 8) { case 0: scripted<0>(r); break; case 1: scripted<1>(r); break; case 2: scripted<2>(r); break; case 3: scripted<3>(r); break; case 4: scripted<4>(r); break; case 5: scripted<10>(r); break; case 6: scripted<77>(r); break; default: scripted<1000>(r); } }); }
  if (prop == "C12") histories([](Rng& r) { switch (r() % 12) { case 0: rthreads(r); break; case 1: case 2: rfutex(r); break; default: rscript(r); } });
#else
  if (prop == "C10" || prop == "C11") histories([](Rng&) { threads10<0>(); threads10<1>(); threads10<2>(); threads10<50>(); });
  if (prop == "C12") histories([](Rng& r) { rthreads(r); rfutex(r); });
#endif
  if (prop == "C13") histories([](Rng& r) { if (r() % 20 == 0) atomth(); else atomics(r); });
  if (prop == "C14") { single<0>(); single<1>(); single<2>(); runs = 3; }
  done();
}
