// Histories against the real LogSystem, LogStreamListener, Logger and the log statements.
#include "common.h"
#include <atomic>
#include <thread>
#include <iostream>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <regex>
#include <deque>
#include <time.h>
#include <falcon/logsystem.h>
#include <falcon/logstream.h>
#include <falcon/logger.h>
#ifndef WITH_TSAN
static struct tm faketm; static std::atomic<bool> fake{false};
extern "C" struct tm* localtime_r(const time_t* t, struct tm* o) { if (fake) { *o = faketm; return o; } struct tm g; gmtime_r(t, &g); *o = g; return o; }
extern "C" struct tm* localtime(const time_t* t) { static struct tm b; return localtime_r(t, &b); }
#endif
#include FALCON_ENGINE(logsystem.cpp)
#include FALCON_ENGINE(logstream.cpp)
#include FALCON_ENGINE(logger.cpp)
using namespace rp; using namespace falcon; using L = LogSystem; using LV = LogSystem::LEVEL; using Msg = LogSystem::Message; using std::string;
static std::atomic<long> ticket{0};
struct Rec : L::Listener {
  std::mutex m; std::condition_variable c; std::vector<Msg> got; std::vector<long> tick; bool gate = true; int inside = 0; std::thread::id who;
  void onMessage(const Msg& x) override { std::unique_lock<std::mutex> l(m); ++inside; c.notify_all(); c.wait(l, [&] { return gate; }); got.push_back(x); tick.push_back(++ticket); who = std::this_thread::get_id(); --inside; c.notify_all(); }
  void waitInside() { std::unique_lock<std::mutex> l(m); if (!c.wait_for(l, std::chrono::seconds(20), [&] { return inside > 0; })) fail("a message logged while the system runs is never dispatched"); }
  void waitText(const string& t) { std::unique_lock<std::mutex> l(m); if (!c.wait_for(l, std::chrono::seconds(20), [&] { return !got.empty() && got.back().m_message == t; })) fail("a message logged while the system runs is never dispatched (or changed)"); }
  void waitCount(size_t n) { std::unique_lock<std::mutex> l(m); if (!c.wait_for(l, std::chrono::seconds(20), [&] { return got.size() >= n; })) fail("only " + std::to_string(got.size()) + " of " + std::to_string(n) + " messages were dispatched"); }
  size_t count() { std::unique_lock<std::mutex> l(m); return got.size(); }
  void open(bool b) { std::unique_lock<std::mutex> l(m); gate = b; c.notify_all(); }
};
static string word(Rng& r, int mx = 12) { static const char* cs = "ab/.\\:()[] %\n\"Z0"; string s; int n = r() % 7 == 0 ? rnd(r, 20, 200) : rnd(r, 0, mx); for (int i = 0; i < n; ++i) s += cs[r() % 17]; if (r() % 9 == 0) s += '\0'; return s; }
static LV lev(Rng& r) { return LV(rnd(r, 0, 5)); }
static Msg rmsg(Rng& r) { static const string cats[] = {"", "A", "A::B", "B", "AB", "A::", "x", string("A\0B", 3)}; Msg m; m.m_file = r() % 3 ? "dir/sub/" + word(r) : word(r); m.m_line = r() % 4 ? rnd(r, 0, 5000) : int(r()); m.m_level = lev(r); m.m_category = r() % 4 ? cats[r() % 8] : word(r); m.m_message = word(r, 30); return m; }
static bool same(const Msg& a, const Msg& b) { return a.m_file == b.m_file && a.m_line == b.m_line && a.m_level == b.m_level && a.m_category == b.m_category && a.m_message == b.m_message; }
static string show(const Msg& m) { std::ostringstream o; o << m.m_file << ":" << m.m_line << " level " << int(m.m_level) << " (" << m.m_category << ") " << m.m_message; return o.str(); }
static void put(L& s, const Msg& m) { s.log(m.m_file, m.m_line, m.m_level, m.m_category, m.m_message); }
static long fenceNo = 0;
static void fence(L& s, Rec& r) { string t = "fence " + std::to_string(++fenceNo); s.log("f", 1, L::CRITICAL, "", t); r.waitText(t); s.stop(); }   // everything before is dispatched when this returns
static bool isFence(const Msg& m) { return m.m_message.compare(0, 6, "fence ") == 0; }
static std::vector<Msg> nofence(const std::vector<Msg>& v) { std::vector<Msg> o; for (auto& m : v) if (!isFence(m)) o.push_back(m); return o; }
static void sameList(const std::vector<Msg>& got, const std::vector<Msg>& want, const string& what) {
  for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) if (!same(got[i], want[i])) { log("wanted ", show(want[i])); log("got    ", show(got[i])); fail(what + ": message " + std::to_string(i) + " differs"); }
  check(got.size() == want.size(), what + ": " + std::to_string(got.size()) + " messages instead of " + std::to_string(want.size()));
}
// ---------------------------------------------------------------- C20
static void c20(Rng& r) {
  L s(r() % 2); auto rec = std::make_shared<Rec>(); auto second = std::make_shared<Rec>(); s.addListener(rec); s.addListener(second);
  LV sys = lev(r); s.level(sys); check(s.level() == sys, "level()"); std::vector<Msg> want; bool running = false; s.start(); running = true;
  int n = r() % 3 ? rnd(r, 0, 40) : rnd(r, 60, 200);
  if (r() % 3 == 0) rec->open(false);
  for (int i = 0; i < n; ++i) {
    if (r() % 20 == 0) { sys = lev(r); s.level(sys); log("level ", int(sys)); }
    if (r() % 15 == 0 && rec->gate) { log(running ? "stop" : "start"); if (running) s.stop(); else s.start(); running = !running; }
    Msg m = rmsg(r); log("log ", show(m)); if (r() % 5 == 0) s.log(new Msg(m)), want.push_back(m); else { put(s, m); if (m.m_level <= sys) want.push_back(m); }
  }
  rec->open(true); s.start(); s.level(L::TRACE); fence(s, *rec); sameList(nofence(rec->got), want, "dispatched messages"); sameList(nofence(second->got), want, "messages of the second listener");
}
static void c20threads(Rng& r) {
  L s; auto rec = std::make_shared<Rec>(); s.addListener(rec); int T = rnd(r, 2, 4), K = rnd(r, 10, 120); std::vector<std::thread> ts; std::vector<std::vector<Msg>> ms(T);
  for (int t = 0; t < T; ++t) for (int i = 0; i < K; ++i) { Msg m = rmsg(r); m.m_category = "t" + std::to_string(t); ms[t].push_back(m); }
  for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { for (auto& m : ms[t]) put(s, m); });
  for (auto& t : ts) t.join(); fence(s, *rec); auto got = nofence(rec->got);
  for (int t = 0; t < T; ++t) { std::vector<Msg> g; for (auto& m : got) if (m.m_category == "t" + std::to_string(t)) g.push_back(m); sameList(g, ms[t], "messages of thread " + std::to_string(t)); }
  check(got.size() == size_t(T * K), "number of messages");
}
// ---------------------------------------------------------------- C21
static const char* filters[] = {"", "A", "A.*", ".*::B", "B|A", "[AB]+", "x?", ".*"};
struct Setup { bool en; bool det; LV l; string f; };
static bool accepts(const string& filter, const string& cat) { return cat.empty() || filter.empty() || std::regex_match(cat, std::regex(filter)); }
static void c21(Rng& r) {
  L s(false); auto rec = std::make_shared<Rec>(); s.addListener(rec); int n = rnd(r, 0, 6); std::vector<std::shared_ptr<Rec>> ls; std::vector<Setup> st(n); std::vector<size_t> seen(n, 0);
  for (int i = 0; i < n; ++i) { ls.push_back(std::make_shared<Rec>()); s.addListener(ls.back()); st[i] = Setup{true, false, L::TRACE, ""}; check(ls[i]->isEnabled() && !ls[i]->isDetached() && ls[i]->level() == L::TRACE && ls[i]->category() == "", "a new listener accepts everything"); }
  for (int k = 0; k < 12; ++k) {
    for (int i = 0; i < n; ++i) if (r() % 2) {
      if (r() % 2) { st[i].en = r() % 3 != 0; ls[i]->enable(st[i].en); } if (r() % 2) { st[i].l = lev(r); ls[i]->level(st[i].l); }
      if (r() % 2) { st[i].f = filters[r() % 8]; ls[i]->category(st[i].f); } if (r() % 25 == 0) { st[i].det = true; ls[i]->detach(); }
      log("listener ", i, " enabled ", st[i].en, " detached ", st[i].det, " level ", int(st[i].l), " filter ", st[i].f);
      check(ls[i]->isEnabled() == st[i].en && ls[i]->isDetached() == st[i].det && ls[i]->level() == st[i].l && ls[i]->category() == st[i].f, "a listener does not report its settings");
    }
    Msg m = rmsg(r); log("log ", show(m)); put(s, m); for (auto& l : ls) seen[&l - &ls[0]] = l->got.size();
    s.start(); fence(s, *rec); long last = 0;
    for (int i = 0; i < n; ++i) {
      size_t extra = 0; for (size_t j = seen[i]; j < ls[i]->got.size(); ++j) if (!isFence(ls[i]->got[j])) { ++extra; check(same(ls[i]->got[j], m), "content"); check(ls[i]->tick[j] > last, "listeners are called out of order"); last = ls[i]->tick[j]; }
      bool want = st[i].en && !st[i].det && st[i].l >= m.m_level && accepts(st[i].f, m.m_category);
      check(extra == size_t(want), "listener " + std::to_string(i) + " received the message " + std::to_string(extra) + " times instead of " + std::to_string(int(want)));
      check(ls[i]->checkCategory(m.m_category) == accepts(st[i].f, m.m_category), "checkCategory");
    }
  }
}
// ---------------------------------------------------------------- C22
static void c22(Rng& r) {
  L s(false); auto rec = std::make_shared<Rec>(); s.addListener(rec); std::vector<std::shared_ptr<Rec>> act, pend; std::vector<std::weak_ptr<Rec>> gone; int mode = r() % 3;
  for (int k = 0; k < 25; ++k) {
    int op = rnd(r, 0, 3);
    if (op == 0) { int c = rnd(r, 1, 3); log("add ", c); while (c--) { pend.push_back(std::make_shared<Rec>()); s.addListener(pend.back()); } }
    else if (op == 1 && !act.empty()) { int c = mode == 0 ? 1 : rnd(r, 1, int(act.size())); while (c--) { int i = r() % act.size(); log("detach ", i); act[i]->detach(); } }
    else if (op == 2 && !pend.empty() && r() % 3 == 0) { log("detach pending"); pend[r() % pend.size()]->detach(); }
    else {
      string t = "m" + std::to_string(k); log("dispatch"); std::vector<std::shared_ptr<Rec>> all = act; all.insert(all.end(), pend.begin(), pend.end());
      for (auto& l : all) { l->got.clear(); l->tick.clear(); }
      s.log("f", 1, L::INFO, "c", t); s.start(); rec->waitText(t); s.stop(); s.start(); fence(s, *rec); long last = 0;
      std::vector<std::shared_ptr<Rec>> left;
      for (auto& l : all) {
        if (l->isDetached()) { check(l->got.empty(), "a detached listener is called"); gone.push_back(l); continue; }
        check(l->got.size() == 2 && l->got[0].m_message == t, "an added listener does not take part exactly once"); check(l->tick[0] > last, "order of listeners"); last = l->tick[0]; left.push_back(l);
      }
      all.clear(); act = left; left.clear(); pend.clear();
      L::Diags d; s.getDiags(d); check(d.m_activeListeners == act.size() + 1 && d.m_pendingListeners == 0, "number of listeners kept: " + std::to_string(d.m_activeListeners) + " instead of " + std::to_string(act.size() + 1));
      for (auto& w : gone) check(w.expired(), "a detached listener is not dropped");
    }
    L::Diags d; s.getDiags(d); check(d.m_pendingListeners == pend.size() + (k == 0 || act.empty() ? d.m_pendingListeners - pend.size() : 0), "pending listeners");
  }
}
static void c22during(Rng& r) {   // additions while a message is being dispatched
  L s; auto rec = std::make_shared<Rec>(); s.addListener(rec); s.log("f", 1, L::INFO, "", "0"); rec->waitText("0"); std::vector<std::shared_ptr<Rec>> ls; std::vector<int> from;
  for (int k = 1; k < 12; ++k) {
    rec->open(false); s.log("f", 1, L::INFO, "", std::to_string(k)); rec->waitInside(); int c = rnd(r, 0, 2); while (c--) { log("add during ", k); ls.push_back(std::make_shared<Rec>()); from.push_back(k + 1); s.addListener(ls.back()); }
    if (!ls.empty() && r() % 4 == 0) { }
    rec->open(true); rec->waitText(std::to_string(k));
  }
  s.log("f", 1, L::INFO, "", "12"); fence(s, *rec);
  for (size_t i = 0; i < ls.size(); ++i) { auto g = nofence(ls[i]->got); check(int(g.size()) == 13 - from[i], "a listener added during a dispatch takes part from the next one on"); for (size_t j = 0; j < g.size(); ++j) check(g[j].m_message == std::to_string(from[i] + int(j)), "lost message"); }
}
// ---------------------------------------------------------------- C23
static bool settle(L& s, const std::function<bool(const L::Diags&)>& f, L::Diags& d) { for (int i = 0; i < 20000; ++i) { s.getDiags(d); if (f(d)) return true; std::this_thread::sleep_for(std::chrono::microseconds(500)); } return false; }
static void c23(Rng& r) {
  size_t created = 0, destroyed = 0, received = 0, pool = 64, maxq = 0;
  { L s; auto rec = std::make_shared<Rec>(); s.addListener(rec); int rounds = rnd(r, 1, 6); std::vector<std::shared_ptr<Rec>> more;
    for (int k = 0; k < rounds; ++k) {
      int n = r() % 2 ? rnd(r, 1, 10) : rnd(r, 60, 140); log("burst ", n); std::vector<Msg> want; rec->got.clear();
      Msg m = rmsg(r); m.m_level = L::CRITICAL; rec->open(false); put(s, m); want.push_back(m); rec->waitInside(); if (pool) --pool; else ++created; if (maxq < 1) maxq = 1;
      for (int i = 0; i < n; ++i) { Msg m = rmsg(r); if (m.m_level > s.level()) continue; put(s, m); want.push_back(m); if (pool) --pool; else ++created; }
      maxq = std::max(maxq, want.size() - 1); received += 1; L::Diags d; s.getDiags(d);
      check(d.m_poolSize == pool && d.m_msgsCreated == created && d.m_msgsDiscarded == destroyed && d.m_msgReceived == received && d.m_maxMsgQueueSize == maxq, "diagnostics while a burst of " + std::to_string(want.size()) + " is queued: pool " + std::to_string(d.m_poolSize) + "/" + std::to_string(pool) + " created " + std::to_string(d.m_msgsCreated) + "/" + std::to_string(created) + " discarded " + std::to_string(d.m_msgsDiscarded) + "/" + std::to_string(destroyed) + " received " + std::to_string(d.m_msgReceived) + "/" + std::to_string(received) + " longest queue " + std::to_string(d.m_maxMsgQueueSize) + "/" + std::to_string(maxq));
      received += want.size() - 1; pool += want.size(); if (pool > 64) { destroyed += pool - 64; pool = 64; }
      rec->open(true); rec->waitCount(want.size()); sameList(rec->got, want, "messages in reused objects");
      if (!settle(s, [&](const L::Diags& d) { return d.m_poolSize == pool && d.m_msgsCreated == created && d.m_msgsDiscarded == destroyed && d.m_msgReceived == received; }, d)) fail("diagnostics after the burst: pool " + std::to_string(d.m_poolSize) + "/" + std::to_string(pool) + " created " + std::to_string(d.m_msgsCreated) + "/" + std::to_string(created) + " discarded " + std::to_string(d.m_msgsDiscarded) + "/" + std::to_string(destroyed) + " received " + std::to_string(d.m_msgReceived) + "/" + std::to_string(received));
      int c = rnd(r, 0, 3), en = 0; for (int i = 0; i < c; ++i) more.push_back(std::make_shared<Rec>()), s.addListener(more.back());
      s.getDiags(d); check(d.m_pendingListeners == size_t(c), "pending listeners in the diagnostics");
      Msg e = rmsg(r); e.m_level = L::CRITICAL; put(s, e); rec->waitCount(want.size() + 1); ++received;
      for (auto& l : more) { l->enable(r() % 2); en += l->isEnabled(); }
      if (!settle(s, [&](const L::Diags& d) { return d.m_poolSize == pool; }, d)) fail("pool size after one message");
      check(d.m_pendingListeners == 0 && d.m_activeListeners == more.size() + 1 && d.m_enabledListeners == size_t(en + 1), "listeners in the diagnostics");
    }
    if (r() % 2) { rec->open(true); s.stop(); int n = rnd(r, 0, 90); for (int i = 0; i < n; ++i) put(s, rmsg(r)); log("destroyed with ", n, " queued"); }
  }
}
// ---------------------------------------------------------------- C24
static void c24(Rng& r) {
  auto rec = std::make_shared<Rec>(); size_t logged = 0, want = 0;
  { bool running = r() % 2; log(running ? "created running" : "created stopped"); std::unique_ptr<L> s(new L(running)); s->addListener(rec);
    for (int k = 0; k < 14; ++k) switch (rnd(r, 0, 4)) {
      case 0: log("start"); s->start(); running = true; break;
      case 1: { log("stop"); s->stop(); running = false; size_t n = rec->count(); check(n <= logged, "too many"); std::this_thread::sleep_for(std::chrono::microseconds(200)); check(rec->count() == n, "a listener is called after stop()"); check(rec->inside == 0, "stop() returned during a dispatch"); break; }
      case 2: { int n = r() % 6 ? rnd(r, 1, 5) : rnd(r, 60, 120); log("log ", n); size_t before = rec->count(); while (n--) s->log("f", int(logged), L::INFO, "", "t" + std::to_string(logged)), ++logged; if (!running) { check(rec->count() == before, "dispatched while stopped"); } break; }
      case 3: if (running) { log("await"); rec->waitCount(logged); } break;
      case 4: if (running && r() % 3 == 0) { log("stop from two threads"); std::thread a([&] { s->stop(); }), b([&] { s->stop(); }); a.join(); b.join(); running = false; } else if (!running && r() % 2) { log("start from two threads"); std::thread a([&] { s->start(); }), b([&] { s->start(); }); a.join(); b.join(); running = true; } break;
    }
    if (r() % 2) { s->start(); running = true; rec->waitCount(logged); }
    log("destroy, ", running ? "running" : "stopped"); s.reset(); want = rec->count();
  }
  for (size_t i = 0; i < rec->got.size(); ++i) check(rec->got[i].m_message == "t" + std::to_string(i), "messages lost, doubled or out of order across restarts");
  std::this_thread::sleep_for(std::chrono::microseconds(100)); check(rec->count() == want, "a listener is called after the destruction"); check(rec.use_count() == 1, "the listener is still referenced");
}
// ---------------------------------------------------------------- C25
static void c25(Rng& r) {
  L s; auto sl = std::make_shared<LogStreamListener>(); auto rec = std::make_shared<Rec>(); s.addListener(sl); s.addListener(rec); std::atomic<bool> stop{false}; std::vector<std::thread> ts; std::atomic<int> n{0}; int K = rnd(r, 10, 40); unsigned sd = r();
  std::ostringstream o1, o2; auto o3 = std::make_shared<std::ostringstream>();
  auto th = [&](std::function<void(Rng&, int)> f) { ts.emplace_back([&, f] { Rng q(sd + unsigned(++n)); for (int i = 0; i < K; ++i) f(q, i); }); };
  th([&](Rng& q, int) { put(s, rmsg(q)); }); th([&](Rng& q, int) { for (int i = 0; i < 5; ++i) put(s, rmsg(q)); std::this_thread::yield(); });
  th([&](Rng& q, int i) { if (i % 4 == 0) { auto l = std::make_shared<Rec>(); s.addListener(l); if (q() % 2) l->detach(); } sl->enable(q() % 4); rec->level(lev(q)); });
  th([&](Rng& q, int) { try { sl->category(q() % 3 ? filters[q() % 8] : "("); } catch (const L::InvalidCategory&) {} (void) sl->category(); (void) sl->level(); });
  th([&](Rng&, int) { L::Diags d; s.getDiags(d); std::this_thread::yield(); });
  th([&](Rng& q, int) { switch (q() % 4) { case 0: sl->writeOn(&o1); break; case 1: sl->share(o3); break; case 2: { std::unique_ptr<std::ostream> u(new std::ostringstream); sl->own(u); break; } default: sl->writeOn(&o2); } });
  th([&](Rng& q, int i) { if (i % 8 == 7) { s.stop(); s.start(); } s.level(q() % 4 ? L::TRACE : L::INFO); (void) s.level(); });
  for (auto& t : ts) t.join(); s.level(L::TRACE); rec->level(L::TRACE); s.start(); fence(s, *rec); sl->writeOn(&std::cout);
}
// ---------------------------------------------------------------- C26
static void c26(Rng& r) {
  static const char* bad[] = {"(", "[", "a{2,1}", "*", "a)", "[b-a]", "\\", "+x", "(?<a)"}; static const char* good[] = {"", "A", ".*", "A::.*", "(A|B)+", "[a-c]x?", "\\(", "A::B", "a{1,2}"}; static const char* cats[] = {"", "A", "B", "A::B", "AB", "ax", "c", "(", "a", "aa", "Ax"};
  Rec l; string cur;
  for (int k = 0; k < 30; ++k) {
    if (r() % 2) { cur = good[r() % 9]; log("filter ", cur); l.category(cur); }
    else { string b = bad[r() % 9]; bool valid = true; try { std::regex t(b); } catch (const std::regex_error&) { valid = false; } log("filter ", b, valid ? "" : " (invalid)"); bool thrown = false; try { l.category(b); } catch (const L::InvalidCategory&) { thrown = true; } catch (...) { fail("an exception other than InvalidCategory"); } check(thrown == !valid, valid ? "a valid filter is refused" : "an invalid filter is accepted"); if (valid) cur = b; }
    check(l.category() == cur, "the reported category is '" + l.category() + "' instead of '" + cur + "'");
    for (auto* c : cats) check(l.checkCategory(c) == accepts(cur, c), string("category '") + c + "' with filter '" + cur + "'");
  }
}
// ---------------------------------------------------------------- C27
#ifndef WITH_TSAN
struct Buf : std::stringbuf { int syncs = 0; string atSync; int sync() override { ++syncs; atSync = str(); return 0; } };
static string two(int n) { char b[32]; snprintf(b, sizeof b, "%02d", n); return b; }
static void c27(Rng& r) {
  static const char* lv[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC "}; for (int i = 0; i < 6; ++i) check(string(L::levelToString(LV(i))) == lv[i], "levelToString");
  LogStreamListener l; std::vector<std::unique_ptr<Buf>> bufs; std::vector<string> want; std::vector<std::shared_ptr<std::ostream>> keep; int cur = -1; std::vector<std::unique_ptr<std::ostream>> raw;
  for (int k = 0; k < 20; ++k) {
    if (r() % 4 == 0) {
      bufs.emplace_back(new Buf); want.push_back(""); cur = int(bufs.size()) - 1;
      switch (r() % 3) { case 0: { log("own"); std::unique_ptr<std::ostream> u(new std::ostream(bufs[cur].get())); l.own(u); check(!u, "own() must take the stream"); break; } case 1: log("share"); l.share(std::make_shared<std::ostream>(bufs[cur].get())); break; default: log("writeOn"); raw.emplace_back(new std::ostream(bufs[cur].get())); l.writeOn(raw.back().get()); }
      continue;
    }
    Msg m = rmsg(r); if (r() % 6 == 0) m.m_line = r() % 2 ? INT32_MIN : INT32_MAX; memset(&faketm, 0, sizeof faketm); faketm.tm_year = r() % 3 ? rnd(r, 100, 150) : rnd(r, -500, 900); faketm.tm_mon = rnd(r, 0, 11); faketm.tm_mday = rnd(r, 1, 31); faketm.tm_hour = rnd(r, 0, 23); faketm.tm_min = rnd(r, 0, 59); faketm.tm_sec = rnd(r, 0, 60); fake = true;
    log("message ", show(m)); l.onMessage(m); string f = m.m_file; size_t p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1);
    string line = std::to_string(faketm.tm_year + 1900) + "-" + two(faketm.tm_mon + 1) + "-" + two(faketm.tm_mday) + " " + two(faketm.tm_hour) + ":" + two(faketm.tm_min) + ":" + two(faketm.tm_sec) + " [" + lv[m.m_level] + "] " + (m.m_category.empty() ? "" : "(" + m.m_category + ") ") + f + ":" + std::to_string(m.m_line) + " " + m.m_message + "\n";
    if (cur >= 0) { want[cur] += line; check(bufs[cur]->atSync == want[cur], "the line is not flushed, or is not\n" + line + "but the stream has\n" + bufs[cur]->str()); }
    for (size_t i = 0; i < bufs.size(); ++i) check(bufs[i]->str() == want[i], "stream " + std::to_string(i) + " has\n" + bufs[i]->str() + "instead of\n" + want[i]);
  }
  fake = false; std::ostringstream o; l.writeOn(&o); auto now = [] { return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); }; time_t a = now(); Msg m = rmsg(r); l.onMessage(m); time_t b = now(); bool hit = false;
  for (time_t t = a; t <= b && !hit; ++t) { struct tm g; gmtime_r(&t, &g); char s[40]; strftime(s, sizeof s, "%Y-%m-%d %H:%M:%S", &g); hit = o.str().compare(0, 19, s) == 0; }
  check(hit, "the line does not carry the present local time: " + o.str());
}
#endif
// ---------------------------------------------------------------- C28
static long serialised = 0; struct Val { int v; }; static std::ostream& operator<<(std::ostream& o, const Val& v) { ++serialised; return o << "<" << v.v << ">"; }
struct Want { Msg m; };
static void c28(Rng& r, const string& th, std::vector<Msg>& want, string& cat) {   // statements of one thread; the thread's messages in want
  LV sys = LOGGER.level();
  for (int k = 0; k < 25; ++k) {
    int v = int(r()); string t = word(r), c = word(r, 5); LV l = lev(r); bool en = l <= sys; int line = 0; string text, tc = cat; bool commit = en; string tag = "#" + th + "#";
    long ser = 0;
    switch (r() % 12) {
      case 0: line = __LINE__; LOG(l) << tag << v << t << "!"; text = tag + std::to_string(v) + t + "!"; break;
      case 1: line = __LINE__; LOG(l) << LOG_CAT(c) << tag << Val{v}; text = tag + "<" + std::to_string(v) + ">"; if (!c.empty()) tc = c; ser = 1; break;
      case 2: line = __LINE__; LOG(l) << LOG_CAT(c) << tag << t; text = tag + t; if (!c.empty()) tc = c; break;
      case 3: line = __LINE__; LOG_BLOCK(l) { LOGGER << tag; for (int i = 0; i < v % 3; ++i) LOGGER << Val{i} << ";"; } text = tag; for (int i = 0; i < v % 3; ++i) text += "<" + std::to_string(i) + ">;", ++ser; break;
      case 4: LOG_BLOCK(l) { LOGGER << "left" << t; LOGGER.setTempCategory("left"); break; } commit = false; break;
      case 5: { bool thrown = false; try { LOG_BLOCK(l) { LOGGER.setTempCategory(c); LOGGER << "left" << t; throw 1; } } catch (int) { thrown = true; } check(thrown == en, "a block runs exactly if enabled"); commit = false; break; }
      case 6: cat = word(r, 6); LOG_CATEGORY(cat); check(LOGGER.getCategory() == cat, "category of the thread"); commit = false; break;
      case 7: [&] { LOG_BLOCK(l) { LOGGER << "ret"; return; } }(); commit = false; break;
      case 9: { const char* none = nullptr; line = __LINE__; LOG(l) << LOG_CAT("null") << tag << none << t; text = tag; tc = "null"; break; }
      case 10: { LV l2 = lev(r); int il = 0; line = __LINE__; LOG_BLOCK(l) { LOGGER << tag; LOGGER.setTempCategory(c); il = __LINE__; LOG(l2) << LOG_CAT("in") << tag << "inner"; LOGGER << t; } text = tag + t; if (!c.empty()) tc = c; if (en && l2 <= sys) want.push_back(Msg(__FILE__, il, l2, "in", tag + "inner")); break; }
      case 11: { LV l2 = lev(r); int il = 0; auto f = [&] { il = __LINE__; LOG(l2) << tag << "called"; return 3; }; line = __LINE__; LOG(l) << LOG_CAT(c) << tag << f() << t; text = tag + "3" + t; if (!c.empty()) tc = c; if (l2 <= sys) want.push_back(Msg(__FILE__, il, l2, cat, tag + "called")); break; }
      case 8: line = __LINE__; LOG_BLOCK(l) { LOGGER.setTempCategory(c); LOGGER << tag << t; } text = tag + t; if (!c.empty()) tc = c; break;
    }
    log("level ", int(l), " of ", int(sys), " text ", text, " category ", tc);
    if (th == "main") { check(serialised == (en ? ser : 0), "values of a statement are serialised although it is disabled, or not once"); serialised = 0; }
    check(LOGGER.getCategory() == cat, "a statement changes the category of the thread");
    if (commit) want.push_back(Msg(__FILE__, line, l, tc, text));
  }
}
static void c28all(Rng& r) {
  static std::shared_ptr<Rec> rec; LOGGER.stop(); if (!rec) { rec = std::make_shared<Rec>(); LOGGER.addListener(rec); }
  { std::unique_lock<std::mutex> l(rec->m); rec->got.clear(); } LV sys = r() % 2 ? L::TRACE : lev(r); LOGGER.level(sys); std::vector<Msg> w1, w2; static string cat; string cat2; unsigned sd = r(); bool both = r() % 3 == 0;
  if (both) { Rng q(sd); LOGGER.start(); std::thread a([&] { for (int i = 0; i < 20; ++i) LOG_CRIT << "#t#" << i; }); c28(q, "two", w1, cat); a.join(); for (int i = 0; i < 20; ++i) w2.push_back(Msg("", 0, L::CRITICAL, "", "#t#" + std::to_string(i))); serialised = 0; }
  else { Rng q(sd); c28(q, "main", w1, cat); }
  LOGGER.level(L::TRACE); LOGGER.start(); fence(LOGGER, *rec); std::vector<Msg> g1; size_t n2 = 0;
  for (auto& m : nofence(rec->got)) if (m.m_message.compare(0, 3, "#t#") == 0) { check(n2 < w2.size() && m.m_message == w2[n2].m_message && m.m_category == "", "message of the other thread: " + show(m)); ++n2; } else g1.push_back(m);
  check(n2 == w2.size(), "messages of the other thread are lost"); sameList(g1, w1, "committed messages");
}
// ---------------------------------------------------------------- C29
static void c29(Rng& r) {
  Logger g; g.stop(); auto rec = std::make_shared<Rec>(); g.addListener(rec); auto d = g.defaultListener(); std::ostringstream out; d->writeOn(&out); 
  LV B = lev(r), D = lev(r); g.level(B); d->level(D); bool on = false; LV fl = L::TRACE; string ff; LV sys = B, dl = D;
  for (int k = 0; k < 12; ++k) {
    int op = rnd(r, 0, 4);
    if (op == 0) { string f = filters[r() % 8]; LV l = lev(r); log("filter '", f, "' level ", int(l)); g.categoryFilter(f, l); on = true; fl = l; ff = f; sys = std::max(l, B); dl = std::min(D, B); }
    else if (op == 1) { bool t = false; log("invalid filter"); try { g.categoryFilter(r() % 2 ? "(" : "[", lev(r)); } catch (const L::InvalidCategory&) { t = true; } check(t, "an invalid expression is accepted"); }
    else if (op == 2) { log("clear"); g.clearFilter(); on = false; sys = B; dl = D; }
    else if (op == 3 && !on) { B = sys = lev(r); D = dl = lev(r); g.level(B); d->level(D); log("levels ", int(B), " ", int(D)); }
    else {
      Msg m = rmsg(r); for (auto& c : m.m_message) if (c == '\n') c = '_'; for (auto& c : m.m_file) if (c == '\n') c = '_'; for (auto& c : m.m_category) if (c == '\n') c = '_'; log("log ", show(m)); out.str(""); put(g, m); g.start(); fence(g, *rec);
      string o = out.str(); std::istringstream is(o); string ln; int n = 0; while (std::getline(is, ln)) if (ln.find("fence ") == string::npos || ln.find("f:1 fence ") == string::npos) { ++n; string e = ":" + std::to_string(m.m_line) + " " + m.m_message; check(ln.size() >= e.size() && ln.compare(ln.size() - e.size(), e.size(), e) == 0, "line '" + ln + "'"); }
      int want = m.m_level <= sys ? int(m.m_level <= dl) + int(on && m.m_level <= fl && accepts(ff, m.m_category)) : 0;
      check(n == want, "the default listener shows the message " + std::to_string(n) + " times instead of " + std::to_string(want));
    }
    check(g.level() == sys, "system level " + std::to_string(g.level()) + " instead of " + std::to_string(sys)); check(d->level() == dl, "level of the default listener " + std::to_string(d->level()) + " instead of " + std::to_string(dl)); check(g.defaultListener() == d && d->isEnabled() && !d->isDetached() && d->category() == "", "the default listener is changed");
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  histories([](Rng& r) {
    if (prop == "C20") { if (r() % 3) c20(r); else c20threads(r); } else if (prop == "C21") c21(r); else if (prop == "C22") { if (r() % 3) c22(r); else c22during(r); } else if (prop == "C23") c23(r); else if (prop == "C24") c24(r); else if (prop == "C25") c25(r); else if (prop == "C26") c26(r);
#ifndef WITH_TSAN
    else if (prop == "C27") c27(r);
#endif
    else if (prop == "C28") c28all(r); else if (prop == "C29") c29(r);
  });
  done();
}
