#define _GLIBCXX_SANITIZE_VECTOR 1
#include "common.h"
#include <thread>
#include <mutex>
#include <memory>
#include <falcon/engine/pagedstack.h>
using namespace rp;
static long throwIn = -1; static bool mustHold = false; static bool isHeld = false; static long acquired = 0;
struct Boom {};
struct Mx {
  bool held = false;
  void lock() { if (held) fail("the lock of the stack is acquired while it is held"); held = true; isHeld = true; ++acquired; }
  void unlock() { if (!held) fail("the lock of the stack is released while it is not held"); held = false; isHeld = false; }
  bool try_lock() { if (held) return false; lock(); return true; }
};
static void step() { if (mustHold && !isHeld) fail("shared content is touched without the lock"); if (throwIn > 0 && --throwIn == 0) throw Boom(); }
struct Elem {
  int v; unsigned magic = 0xabcd1234u;
  Elem() : v(-7) {}
  Elem(int x) : v(x) { step(); }
  Elem(const Elem& o) : v(o.v) { o.ok(); step(); }
  Elem& operator=(const Elem& o) { o.ok(); ok(); step(); v = o.v; return *this; }
  ~Elem() { ok(); magic = 0; }
  void ok() const { if (magic != 0xabcd1234u) fail("an element that is not alive is used"); }
};
using St = falcon::PagedStack<Elem, std::allocator, Mx>;
struct Guard { long a; Guard() { a = acquired; mustHold = true; } ~Guard() { mustHold = false; } };
#define OP(...) do { long a_ = acquired; mustHold = true; try { __VA_ARGS__; } catch (...) { mustHold = false; throw; } mustHold = false; check(acquired > a_, "operation does not take the lock: " #__VA_ARGS__); check(!isHeld, "lock still held after: " #__VA_ARGS__); } while (0)
struct SyncIt { bool cst; std::unique_ptr<St::sync_iterator> i; std::unique_ptr<St::const_sync_iterator> c; long k; };
struct M {
  std::unique_ptr<St> s; std::vector<int> v; std::vector<const Elem*> addr; int P, A; bool req = false; size_t blocks; std::vector<SyncIt> its;
};
static int next_v = 1;
static void observe(M& m, bool addrs = true) {
  St& s = *m.s; const St& cs = s; size_t n = m.v.size(), sz; bool em;
  OP(sz = s.size()); check(sz == n, "size() is " + std::to_string(sz) + ", the stack holds " + std::to_string(n));
  OP(em = s.empty()); check(em == (n == 0), "empty() is wrong");
  size_t b, d, cb, cd; OP(s.getStats(b, d, cb, cd));
  size_t c = n == 0 ? 1 : (n + m.P - 1) / m.P;
  check(d == (size_t) m.P, "getStats: page size"); check(cb == c, "getStats: ordinal of the top page is " + std::to_string(cb) + " instead of " + std::to_string(c)); check(cd == n - (c - 1) * m.P, "getStats: fill of the top page is " + std::to_string(cd));
  check(b == m.blocks, "getStats: " + std::to_string(b) + " pages instead of " + std::to_string(m.blocks));
  // iteration, both ways
  std::vector<const Elem*> up;
  { size_t k = n; for (auto i = s.begin(); i != s.end(); ++i) { check(k > 0, "forward iteration visits too many elements"); --k; (*i).ok(); check((*i).v == m.v[k], "forward iteration: wrong element at " + std::to_string(k)); check(i->v == m.v[k], "operator->"); } check(k == 0, "forward iteration ends early"); }
  { size_t k = n; for (auto i = cs.cbegin(); i != cs.cend(); i++) { check(k > 0, "const forward iteration visits too many elements"); --k; check((*i).v == m.v[k], "const forward iteration: wrong element"); } check(k == 0, "const forward iteration ends early"); }
  { size_t k = 0; for (auto i = s.rbegin(); i != s.rend(); ++i) { check(k < n, "reverse iteration visits too many elements"); check((*i).v == m.v[k], "reverse iteration: wrong element at " + std::to_string(k)); up.push_back(&*i); ++k; } check(k == n, "reverse iteration ends early"); }
  { size_t k = 0; for (auto i = cs.crbegin(); i != cs.crend(); i++) { check(k < n, "const reverse iteration visits too many elements"); check((*i).v == m.v[k], "const reverse iteration: wrong element"); ++k; } check(k == n, "const reverse iteration ends early"); }
  if (addrs) for (size_t i = 0; i < std::min(up.size(), m.addr.size()); ++i) check(up[i] == m.addr[i], "element " + std::to_string(i) + " was moved to another address");
  m.addr = up;
  if (n) { int t; { long a = acquired; t = cs.top().v; check(acquired > a, "top() does not take the lock"); } check(t == m.v[n-1], "top() is not the topmost value"); }
}
static void iters(M& m, Rng& r) {
  St& s = *m.s; const St& cs = s; long n = m.v.size(); if (!n) return;
  auto walk = [&](auto it, auto endit, bool fwd, auto idx) {
    long k = 0; // steps from the beginning, 0..n
    for (int q = 0; q < 12; ++q) {
      int o = rnd(r, 0, 5); long was = k;
      if (o == 0 && k < n) { ++it; ++k; } else if (o == 1 && k > 0) { --it; --k; }
      else if (o == 2 && k < n) { auto old = it++; ++k; check(old != endit && (*old).v == m.v[idx(was)], "post-increment returns the old position"); }
      else if (o == 3 && k > 0) { auto old = it--; --k; if (was < n) check((*old).v == m.v[idx(was)], "post-decrement returns the old position"); else check(old == endit, "post-decrement of end"); }
      else if (o == 4) { long d = rnd(r, 0, n - k); it += d; k += d; } else if (o == 5) { long d = rnd(r, 0, k); it -= d; k -= d; }
      log("iterator op ", o, " -> ", k);
      check((it == endit) == (k == n), "equality with end"); check((it != endit) == (k != n), "inequality with end");
      if (k < n) { check((*it).v == m.v[idx(k)], "iterator designates the wrong element after " + std::to_string(k) + " steps"); check(it->v == m.v[idx(k)], "operator->"); }
    }
  };
  auto down = [&](long k) { return n - 1 - k; }; auto upw = [&](long k) { return k; };
  switch (rnd(r, 0, 3)) {
    case 0: walk(s.begin(), s.end(), true, down); break; case 1: walk(cs.begin(), cs.end(), true, down); break;
    case 2: walk(s.rbegin(), s.rend(), false, upw); break; default: walk(cs.rbegin(), cs.rend(), false, upw);
  }
}
static void grown(M& m) { // pages may be added only when everything allocated is used up
  size_t b, d, cb, cd; m.s->getStats(b, d, cb, cd);
  if (b != m.blocks) { check(b > m.blocks, "pages were released by a push"); size_t before = m.blocks * m.P; check(m.v.size() > before, "pages were allocated although pages were free"); m.blocks = b; }
}
static void shrunk(M& m) { size_t n = m.v.size(); m.blocks = n == 0 ? 1 : (n + m.P - 1) / m.P; }
static void dropIt(M& m, size_t i) { log("destroy sync iterator"); m.its.erase(m.its.begin() + i); check(!isHeld, "lock held"); if (m.its.empty() && m.req) { m.req = false; shrunk(m); } }
static void clearIts(M& m) { while (!m.its.empty()) dropIt(m, m.its.size() - 1); }
static void syncops(M& m, Rng& r) {
  St& s = *m.s; const St& cs = s; long n = m.v.size();
  int o = rnd(r, 0, 9);
  if (o < 3 || m.its.empty()) {
    if (n == 0) return;
    SyncIt t; t.cst = rnd(r, 0, 1); t.k = n - 1; log("sync_begin");
    if (t.cst) { OP(t.c.reset(new St::const_sync_iterator(cs.sync_begin()))); } else { OP(t.i.reset(new St::sync_iterator(s.sync_begin()))); }
    m.its.push_back(std::move(t)); return;
  }
  size_t x = rnd(r, 0, m.its.size() - 1); SyncIt& t = m.its[x];
  if (o == 3) { dropIt(m, x); return; }
  if (o == 4) { SyncIt u; u.cst = t.cst; u.k = t.k; log("copy sync iterator"); if (t.cst) { OP(u.c.reset(new St::const_sync_iterator(*t.c))); } else { OP(u.i.reset(new St::sync_iterator(*t.i))); } m.its.push_back(std::move(u)); return; }
  if (o == 5) { size_t y = rnd(r, 0, m.its.size() - 1); if (m.its[y].cst != t.cst) return; log("assign sync iterator"); if (t.cst) { OP(*t.c = *m.its[y].c); } else { OP(*t.i = *m.its[y].i); } t.k = m.its[y].k; return; }
  if (t.k < 0) return;
  bool in = t.k < n; log("sync iterator at ", t.k, " of ", n, " op ", o);
  bool thrown = false; Elem e;
  try {
    if (o == 6) { if (t.cst) { OP(++*t.c); } else { OP(++*t.i); } }
    else if (o == 7) { if (in && t.k == n - 1) return; if (t.cst) { OP(--*t.c); } else { OP(--*t.i); } }
    else { if (t.cst) { OP(t.c->get(e)); } else { OP(t.i->get(e)); } }
  } catch (std::runtime_error&) { thrown = true; check(!isHeld, "lock held after an exception"); }
  check(thrown == (!in && n == 0), thrown ? "std::runtime_error although the stack is not empty" : "no exception although the stack has been emptied");
  if (thrown) return;
  if (!in) t.k = n - 1; else if (o == 6) --t.k; else if (o == 7) ++t.k;
  if (o >= 8) check(e.v == m.v[t.k], "sync iterator reads " + std::to_string(e.v) + " instead of " + std::to_string(m.v[t.k]));
  if (t.k >= 0) { Elem f; if (t.cst) t.c->get(f); else t.i->get(f); check(f.v == m.v[t.k], "sync iterator is not where it should be: it reads " + std::to_string(f.v) + " instead of " + std::to_string(m.v[t.k])); }
  else { if (t.cst) check(*t.c == cs.sync_end(), "sync end"); else check(*t.i == s.sync_end(), "sync end"); }
}
static M fresh(Rng& r, int P = 0, int A = 0) {
  M m; m.P = P ? P : rnd(r, 1, 4); m.A = A ? A : r() % 32 ? rnd(r, 1, 3) : rnd(r, 255, 257); m.s.reset(new St(m.P, m.A)); size_t d, cb, cd; m.s->getStats(m.blocks, d, cb, cd);
  log("stack: page size ", m.P, ", preallocation ", m.A); check(m.blocks >= 1, "no page after construction"); return m;
}
// pages of a size that matters
static void bigpages(Rng& r) {
  int P = r() % 2 ? 4097 : rnd(r, 300, 70000), A = rnd(r, 1, 2); log("big pages: ", P, ", preallocation ", A); St s(P, A); std::vector<const Elem*> ad; size_t n = size_t(P) * 2 + rnd(r, 1, 5);
  for (size_t i = 0; i < n; ++i) { s.push(Elem(int(i))); ad.push_back(&s.top()); }
  size_t k = n; for (auto it = s.begin(); k > 0; ++it) { --k; check(&*it == ad[k], "element " + std::to_string(k) + " has moved"); check((*it).v == int(k), "element " + std::to_string(k) + " has changed"); }
  for (k = n; k > 0; --k) { check(s.top().v == int(k - 1), "not the top"); s.pop(); } check(s.empty(), "not empty");
}
static void op(M& m, Rng& r, bool sync) {
  St& s = *m.s; const St& cs = s; auto& v = m.v; size_t n = v.size(); int a = next_v++, b = next_v++, c = next_v++, d = next_v++;
  auto cut = [&](size_t k) { v.resize(k); if (m.addr.size() > k) m.addr.resize(k); };
  Elem x(-1), y(-1), z(-1), w(-1); Elem ea(a), eb(b), ec(c), ed(d);
  switch (rnd(r, 0, sync ? 27 : 21)) {
    case 0: case 1: log("push ", a); OP(s.push(ea)); v.push_back(a); grown(m); break;
    case 2: log("push ", a, ",", b); OP(s.push(ea, eb)); v.insert(v.end(), {a, b}); grown(m); break;
    case 3: log("push ", a, ",", b, ",", c); OP(s.push(ea, eb, ec)); v.insert(v.end(), {a, b, c}); grown(m); break;
    case 4: log("push ", a, "..", d); OP(s.push(ea, eb, ec, ed)); v.insert(v.end(), {a, b, c, d}); grown(m); break;
    case 5: log("push_emplace ", a); OP(s.push_emplace(a)); v.push_back(a); grown(m); break;
    case 6: if (n < 1) break; log("pop"); OP(s.pop()); cut(n - 1); break;
    case 7: if (n < 1) break; log("pop/1"); OP(s.pop(x)); check(x.v == v[n-1], "pop delivers the wrong value"); cut(n - 1); break;
    case 8: if (n < 2) break; log("pop/2"); OP(s.pop(x, y)); check(x.v == v[n-1] && y.v == v[n-2], "pop/2 delivers wrong values"); cut(n - 2); break;
    case 9: if (n < 3) break; log("pop/3"); OP(s.pop(x, y, z)); check(x.v == v[n-1] && y.v == v[n-2] && z.v == v[n-3], "pop/3 delivers wrong values"); cut(n - 3); break;
    case 10: if (n < 4) break; log("pop/4"); OP(s.pop(x, y, z, w)); check(x.v == v[n-1] && y.v == v[n-2] && z.v == v[n-3] && w.v == v[n-4], "pop/4 delivers wrong values"); cut(n - 4); break;
    case 11: if (n < 1) break; log("top = ", a); OP(s.top(ea)); v[n-1] = a; break;
    case 12: { size_t k = rnd(r, 0, n); log("discard ", k); OP(s.discard(k)); cut(n - k); break; }
    case 13: { if (!n) break; size_t k = rnd(r, 0, n - 1); log("discard(forward iterator at ", k, ")"); if (rnd(r, 0, 1)) { auto i = s.begin(); i += n - 1 - k; OP(s.discard(i)); } else { auto i = cs.begin(); i += n - 1 - k; OP(s.discard(i)); } cut(k); break; }
    case 14: { size_t k = rnd(r, 0, n); log("discard(reverse iterator at ", k, ")"); if (rnd(r, 0, 1)) { auto i = s.rbegin(); i += k; OP(s.discard(i)); } else { auto i = cs.rbegin(); i += k; OP(s.discard(i)); } cut(k); break; }
    case 15: if (n < 1) break; if (n == 1 || rnd(r, 0, 2) == 0) { log("pop_reverse/1"); OP(s.pop_reverse(x)); check(x.v == v[n-1], "pop_reverse delivers the wrong value"); cut(n - 1); }
             else if (n == 2 || rnd(r, 0, 1)) { log("pop_reverse/2"); OP(s.pop_reverse(x, y)); check(x.v == v[n-2] && y.v == v[n-1], "pop_reverse/2 delivers wrong values"); cut(n - 2); }
             else { log("pop_reverse/3"); OP(s.pop_reverse(x, y, z)); check(x.v == v[n-3] && y.v == v[n-2] && z.v == v[n-1], "pop_reverse/3 delivers wrong values"); cut(n - 3); } break;
    case 16: if (rnd(r, 0, 3)) break; log("clear"); OP(s.clear()); v.clear(); m.addr.clear(); { size_t b2, d2, cb, cd; s.getStats(b2, d2, cb, cd); check(b2 <= m.blocks && b2 >= 1, "clear allocates"); m.blocks = b2; } break;
    case 17: log("shrink_to_fit"); OP(s.shrink_to_fit()); if (m.its.empty()) shrunk(m); else m.req = true; break;
    case 18: if (n < 3) break; log("peek"); OP(cs.peek(x)); check(x.v == v[n-1], "peek/1"); OP(cs.peek(x, y)); check(x.v == v[n-1] && y.v == v[n-2], "peek/2"); OP(cs.peek(x, y, z)); check(x.v == v[n-1] && y.v == v[n-2] && z.v == v[n-3], "peek/3"); break;
    case 19: if (n < 3) break; log("peek_reverse"); OP(cs.peek_reverse(x)); check(x.v == v[n-1], "peek_reverse/1"); OP(cs.peek_reverse(x, y)); check(x.v == v[n-2] && y.v == v[n-1], "peek_reverse/2"); OP(cs.peek_reverse(x, y, z)); check(x.v == v[n-3] && y.v == v[n-2] && z.v == v[n-1], "peek_reverse/3"); break;
    case 20: { if (!n) break; size_t q = rnd(r, 0, n - 1); log("peek_depth ", q); // consecutive elements, from depth q upwards in the argument list: see the header
               OP(cs.peek_depth(q + 1, x)); check(x.v == v[n - 1 - q] , "peek_depth/1");
               if (q >= 1) { OP(cs.peek_depth(q + 1, x, y)); check(x.v == v[n - 1 - q] && y.v == v[n - q], "peek_depth/2"); }
               if (q >= 2) { OP(cs.peek_depth(q + 1, x, y, z)); check(x.v == v[n - 1 - q] && y.v == v[n - q] && z.v == v[n - q + 1], "peek_depth/3"); } break; }
    case 21: { size_t q = rnd(r, 0, n); log("from_top ", q); if (rnd(r, 0, 1)) { long a_ = acquired; auto i = s.from_top(q); check(acquired > a_, "from_top does not take the lock"); if (q == 0) check(i == s.rend(), "from_top(0)"); else check((*i).v == v[n - q], "from_top designates the wrong element"); }
               else { auto i = cs.from_top(q); if (q == 0) check(i == cs.rend(), "const from_top(0)"); else check((*i).v == v[n - q], "const from_top designates the wrong element"); } break; }
    default: syncops(m, r);
  }
}
static void history(Rng& r, bool sync, bool two) {
  std::vector<M> ms; ms.push_back(fresh(r)); int len = rnd(r, 5, 60);
  for (int i = 0; i < len; ++i) {
    size_t x = rnd(r, 0, ms.size() - 1); M& m = ms[x];
    if (two && rnd(r, 0, 5) == 0) {
      int k = rnd(r, 0, 3);
      if (k == 0 && ms.size() < 3) { log("copy-construct from ", x); M c; c.P = m.P; c.A = m.A; c.v = m.v; c.s.reset(new St(*m.s)); check(!isHeld, "lock held"); size_t d, cb, cd; c.s->getStats(c.blocks, d, cb, cd); ms.push_back(std::move(c)); }
      else if (k == 1) { size_t y = rnd(r, 0, ms.size() - 1); log("stack ", x, " = stack ", y); clearIts(ms[x]); *ms[x].s = *ms[y].s; check(!isHeld, "lock held"); ms[x].v = ms[y].v; ms[x].P = ms[y].P; ms[x].A = ms[y].A; if (x != y) ms[x].addr.clear(); size_t d, cb, cd; ms[x].s->getStats(ms[x].blocks, d, cb, cd); }
      else if (k == 2 && ms.size() > 1) { log("destroy stack ", x); clearIts(ms[x]); ms.erase(ms.begin() + x); }
      else if (ms.size() < 3) { M f = fresh(r); ms.push_back(std::move(f)); }
      for (auto& q : ms) observe(q);
      continue;
    }
    log("[", x, "]"); op(m, r, sync); if (rnd(r, 0, 2) == 0) iters(m, r);
    for (auto& q : ms) observe(q);
  }
  for (auto& m : ms) clearIts(m);
}
// exceptions thrown by element copies: the lock is free afterwards
static void throwing(Rng& r) {
  M m = fresh(r); int n = rnd(r, 1, 9); for (int i = 0; i < n; ++i) m.s->push(Elem(i));
  Elem a(1), b(2), c(3), d(4); throwIn = rnd(r, 1, 6); int o = rnd(r, 0, 9); log("throwing, op ", o, " after ", throwIn, " copies");
  const St& cs = *m.s; std::unique_ptr<St> cp; if (o == 9) cp.reset(new St(2, 2));
  try {
    mustHold = o < 8;
    switch (o) { case 0: m.s->push(a); break; case 1: m.s->push(a, b, c); break; case 2: m.s->push_emplace(5); break; case 3: m.s->pop(a); break;
      case 4: if (n >= 3) m.s->pop(a, b, c); break; case 5: cs.peek(a); break; case 6: if (n >= 2) m.s->pop_reverse(a, b); break;
      case 7: { mustHold = false; auto i = m.s->sync_begin(); mustHold = true; i.get(a); mustHold = false; break; }
      case 8: cp.reset(new St(*m.s)); break; default: *cp = *m.s; }
  } catch (Boom&) {}
  mustHold = false; throwIn = -1;
  check(!isHeld, "lock still held after an exception");
  size_t sz; OP(sz = m.s->size()); (void) sz;
}
// real threads (built with the thread sanitizer): no data race on the content
using TSt = falcon::PagedStack<int, std::allocator, std::mutex>;
static void threads(Rng& r) {
  TSt s(2, 1); for (int i = 0; i < 5; ++i) s.push(i);
  unsigned sd[3] = {unsigned(r()), unsigned(r()), unsigned(r())}; std::vector<std::thread> th;
  for (int t = 0; t < 3; ++t) th.emplace_back([&, t] {
    Rng q(sd[t]); for (int i = 0; i < 60; ++i) { int x, y; size_t a, b, c, d; const TSt& cs = s;
      switch (rnd(q, 0, 14)) { case 0: case 1: case 2: s.push(1, 2); break; case 3: s.push(i); break; case 4: s.size(); break; case 5: s.empty(); break; case 6: s.getStats(a, b, c, d); break; case 7: s.shrink_to_fit(); break;
        case 8: { try { auto it = s.sync_begin(); it.get(x); ++it; it.get(y); } catch (std::runtime_error&) {} break; } case 9: if (s.size() > 20) s.clear(); break; case 10: s.push_emplace(3); break;
        case 11: { TSt k(cs); break; } case 12: { TSt k(1, 1); k = cs; break; } case 13: { auto it = cs.sync_begin(); auto jt = it; (void) jt; break; }
        default: if (t == 0) { s.push(4, 5, 6); } } } });
  for (auto& t : th) t.join();
}
int main(int argc, char** argv) {
  init(argc, argv);
#ifdef WITH_TSAN
  histories(threads, 400); done(); return 0;
#endif
  bool sync = prop == "C06" || prop == "C07", two = prop == "C08" || prop == "C07";
  if (prop == "C07") { histories([&](Rng& r) { throwing(r); history(r, true, true); }); }
  else histories([&](Rng& r) { if ((prop == "C01" || prop == "C05") && r() % 300 == 0) bigpages(r); else history(r, sync, two); });
  done();
}
