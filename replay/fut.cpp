// Unit test framework: seeded runs of the real code against an independent account of what must happen (C40..C46)
#include "common.h"
#include <sys/time.h>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
static int64_t now_ms = 1000; static bool clock_fails = false;
static int vf_tod(struct timeval* tv, void*) { if (clock_fails) return -1; tv->tv_sec = now_ms / 1000; tv->tv_usec = (now_ms % 1000) * 1000 + 999 * (now_ms % 2); return 0; }
#define gettimeofday vf_tod
#include <sys/wait.h>
#include <cassert>
#define main engine_main              // the framework's own main functions; the harness has its own below
#include <falcon/fut/fut.h>
#include FALCON_FUT(testcase.cpp)
#include FALCON_FUT(unittest.cpp)
#undef unix
#include FALCON_FUT(marktime-unix.c++)
#include FALCON_FUT(fut_main.cpp)
namespace a_main { FALCON_TEST_MAIN }
#undef main
class a_fixture: public falcon::testing::TestCase {};
FALCON_TEST(a_component, a_case) {}
FALCON_TEST_F(a_fixture, another_case) {}
using namespace rp; using namespace falcon; using namespace falcon::testing;
enum { A_NONE, A_CHECK, A_FAIL, A_THROW, A_INT, A_ERR, A_OUT, A_BOTH, A_CHECK_THROW, A_ERR_CHECK, NACT };
static const char* an[] = {"nothing", "check fails", "fail()", "std exception", "int thrown", "writes cerr", "writes cout", "writes both", "check fails, then throws", "writes cerr, then check fails"};
struct Ev { const void* t; int what; }; static std::vector<Ev> evs;
struct MyError: std::exception { std::string w; MyError(const std::string& s): w(s) {} const char* what() const noexcept override { return w.c_str(); } };
struct Fx: TestCase {
  int set = A_NONE, body = A_NONE, tear = A_NONE; std::string text, comp, name; int line = 7; int64_t took = 0, t0 = 0, t1 = 0; bool entered = false; std::string wout, werr;
  void act(int a) {
    auto chk = [this] { checkFail("/some/dir/place.cpp", line, text.c_str(), "actual"); };
    if (a == A_CHECK) chk(); else if (a == A_FAIL) fail("plain.cpp", line, text.c_str()); else if (a == A_THROW) throw MyError(text); else if (a == A_INT) throw 5;
    if (a == A_ERR || a == A_BOTH || a == A_ERR_CHECK) { std::cerr << "E" << text; werr += "E" + text; } if (a == A_OUT || a == A_BOTH) { std::cout << "O" << text; wout += "O" + text; }
    if (a == A_ERR_CHECK) chk(); if (a == A_CHECK_THROW) { chk(); throw MyError(text); }
  }
  void SetUp() override { evs.push_back({this, 0}); wout.clear(); werr.clear(); entered = false; now_ms += 7; act(set); now_ms += 4; }
  void test() override { evs.push_back({this, 1}); entered = true; t0 = now_ms; now_ms += took; t1 = now_ms; act(body); }
  void TearDown() override { evs.push_back({this, 2}); now_ms += 3; act(tear); }
  // what the verdict must be
  bool threw(int a) const { return a == A_THROW || a == A_INT || a == A_CHECK_THROW; } bool rec(int a) const { return a == A_CHECK || a == A_FAIL || a == A_CHECK_THROW || a == A_ERR_CHECK; } bool err(int a) const { return a == A_ERR || a == A_BOTH || a == A_ERR_CHECK; }
  bool must_pass(bool cap) const { return !threw(set) && !threw(body) && !threw(tear) && !rec(set) && !rec(body) && !rec(tear) && !(cap && (err(set) || err(body))); }
  bool unclear(bool cap) const { return cap && err(tear); }
};
static std::string text(Rng& r) { static const char* t[] = {"a<b", "x & y", "\"quoted\"", "it's", "]]>", "plain", "tab\there", "line\nbreak", "\x01\x02 control", "caf\xc3\xa9", "&amp;", "<!-- -->", "%s%n", "a == b"}; std::string s; for (int n = rnd(r, 1, 3); n > 0; --n) s += t[r() % 14]; return s; }
static std::stringbuf rout, rerr;
struct World {
  UnitTest* u = new UnitTest; std::vector<Fx*> ts; std::vector<std::string> names;
  ~World() { for (auto t: ts) delete t; delete u; }
  static std::string reserved(Rng& r) { return r() % 4 ? std::string(1, char('a' + r() % 4)) : text(r); }
  void fill(Rng& r, int n, bool odd) {
    std::set<std::string> used;
    for (int i = 0; i < n; ++i) {
      auto t = new Fx; t->comp = odd ? reserved(r) : std::string(1, char('a' + r() % 4)); t->name = (odd && r() % 3 == 0 ? text(r) : "t") + std::to_string(i);
      t->text = odd ? text(r) : "text" + std::to_string(i); t->line = rnd(r, 1, 9999); t->took = rnd(r, 0, 5000); if (r() % 9 == 0) t->took = 0;
      auto a = [&] { return r() % 3 ? int(A_NONE) : int(r() % NACT); };
      t->set = r() % 4 ? int(A_NONE) : a(); t->body = a(); t->tear = r() % 4 ? int(A_NONE) : a();
      log("test ", i, " ", t->comp, "::", t->name, ": set up ", an[t->set], ", body ", an[t->body], ", tear down ", an[t->tear]);
      TestCase* c = u->addTestCase(t->comp.c_str(), t->name.c_str(), t); check(c == t, "addTestCase returns another test"); ts.push_back(t); names.push_back(t->comp + "::" + t->name);
    }
  }
};
struct Streams { std::streambuf *o = std::cout.rdbuf(&rout), *e = std::cerr.rdbuf(&rerr); Streams() { rout.str(""); rerr.str(""); } void ok(const char* w) { check(std::cout.rdbuf() == &rout && std::cerr.rdbuf() == &rerr, std::string("the streams are not restored after ") + w); } ~Streams() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static bool passed(World& w, Fx* t) { return w.u->hasPassed(t); }
static void verdicts(World& w, const std::vector<Fx*>& ran, bool cap, int rc, const char* who) {
  bool any = false;
  for (auto t: ran) {
    bool p = t->status() == TestCase::SUCCESS; check(passed(w, t) == p, std::string(who) + ": a status that is not success passes: " + t->name); any = any || !p;
    if (t->unclear(cap)) continue;
    check(p == t->must_pass(cap), std::string(who) + ": verdict of " + t->name + " is " + t->statusDesc());
  }
  check((rc != 0) == any, std::string(who) + ": result " + std::to_string(rc) + " with" + (any ? "" : "out") + " failed tests");
}
static void order(const std::vector<Fx*>& exp, const char* who) {
  size_t k = 0;
  for (auto t: exp) {
    check(k < evs.size() && evs[k].t == t && evs[k].what == 0, std::string(who) + ": set-up of " + t->name + " is not next"); ++k;
    if (t->threw(t->set)) continue;
    check(k < evs.size() && evs[k].t == t && evs[k].what == 1, std::string(who) + ": body of " + t->name + " is not next"); ++k;
    check(k < evs.size() && evs[k].t == t && evs[k].what == 2, std::string(who) + ": tear-down of " + t->name + " is not next"); ++k;
  }
  check(k == evs.size(), std::string(who) + ": more is run than was selected");
}
static std::vector<Fx*> grouped(std::vector<Fx*> v) { std::stable_sort(v.begin(), v.end(), [](Fx* a, Fx* b) { return a->comp < b->comp; }); return v; }
static void record(Fx* t, bool cap) {
  if (t->status() == TestCase::SUCCESS && !t->rec(t->set) && !t->rec(t->body) && !t->rec(t->tear)) { check(!*t->failDesc() && !*t->failFile(), "a passing run of " + t->name + " has the failure text '" + t->failDesc() + "' at '" + t->failFile() + "'"); return; }
  int a = t->threw(t->set) ? t->set : t->tear != A_NONE && (t->rec(t->tear) || t->threw(t->tear)) ? t->tear : t->threw(t->body) || t->rec(t->body) ? t->body : t->set;
  if (t->threw(t->body) && t->rec(t->tear) && !t->threw(t->tear)) return;
  if (a == A_THROW || a == A_CHECK_THROW) check(t->failDesc() == t->text && t->status() == TestCase::ERROR, "the message of the exception is not the description of " + t->name + ": '" + t->failDesc() + "'");
  else if (a == A_CHECK || a == A_ERR_CHECK) check(t->failDesc() == t->text + " (Actually \"actual\")" && t->failFile() == std::string("place.cpp") && t->failLine() == t->line && t->status() == TestCase::FAIL, "the failed check of " + t->name + " is recorded as '" + t->failDesc() + "' at " + t->failFile() + ":" + std::to_string(t->failLine()));
  else if (a == A_FAIL) check(t->failDesc() == t->text && t->failFile() == std::string("plain.cpp") && t->failLine() == t->line && t->status() == TestCase::FAIL, "fail() of " + t->name + " is recorded as '" + t->failDesc() + "'");
  else if (a == A_INT) check(t->status() == TestCase::ERROR, "exception of " + t->name);
}
static void timing(Fx* t) { if (t->entered) { int64_t d = t->t1 - t->t0, e = d < 0 ? d + 86400000 : d; check(t->elapsedTime() == e, "elapsed time of " + t->name + " is " + std::to_string(t->elapsedTime()) + " instead of " + std::to_string(e)); } }
static void captured(Fx* t, bool cap) {
  check(t->capturedOut() == (cap ? t->wout : ""), "captured output of " + t->name + ": '" + t->capturedOut() + "' instead of '" + t->wout + "'"); check(t->capturedErr() == (cap ? t->werr : ""), "captured error output of " + t->name + ": '" + t->capturedErr() + "' instead of '" + t->werr + "'");
}
static void counts(World& w, const std::vector<Fx*>& ran) {
  std::map<std::string, int> f; int all = 0; for (auto t: ran) { f[t->comp] += 0; if (!passed(w, t)) { f[t->comp]++; ++all; } }
  std::set<Fx*> uniq(ran.begin(), ran.end()); if (uniq.size() != ran.size()) return;      // a test selected twice: the verdict of its first run is gone
  auto& c = w.u->p->componentToPerform; check(c.size() == f.size(), "there are " + std::to_string(c.size()) + " components instead of " + std::to_string(f.size()));
  for (auto& k: c) { check(f.count(k.first) && k.second.name == k.first, "component " + k.first); check(k.second.failures == f[k.first], "component " + k.first + " reports " + std::to_string(k.second.failures) + " failures instead of " + std::to_string(f[k.first])); }
  check(w.u->p->failedCount == all, "the run counts " + std::to_string(w.u->p->failedCount) + " failures instead of " + std::to_string(all));
}
// ---- a strict reader of the report
struct Node { std::string tag, txt; std::map<std::string, std::string> at; std::vector<Node> kids; };
struct Xml {
  const std::string& s; size_t i = 0; Xml(const std::string& t): s(t) {}
  void bad(const std::string& w) { fail("the report is not well formed: " + w + " at " + std::to_string(i) + " '" + s.substr(i > 20 ? i - 20 : 0, 60) + "'"); }
  bool is(const char* t) { return s.compare(i, strlen(t), t) == 0; } void eat(const char* t) { if (!is(t)) bad(std::string("expected ") + t); i += strlen(t); }
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) ++i; }
  std::string name() { size_t b = i; while (i < s.size() && (isalnum((unsigned char) s[i]) || strchr("-_.:", s[i]))) ++i; if (b == i || !isalpha((unsigned char) s[b])) bad("name"); return s.substr(b, i - b); }
  void chr(std::string& o, char stop) {
    unsigned char c = s[i];
    if (c == '<') bad("<"); if (c == stop) bad("stop"); if (c < 0x20 && c != 9 && c != 10 && c != 13) bad("control character"); if (s.compare(i, 3, "]]>") == 0 && stop == '<') bad("]]>");
    if (c != '&') { o += char(c); ++i; return; }
    for (auto& e: {std::make_pair("&amp;", '&'), {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}}) if (is(e.first)) { o += e.second; i += strlen(e.first); return; }
    bad("entity");
  }
  Node el() {
    Node n; eat("<"); n.tag = name();
    for (;;) { size_t b = i; ws(); if (is("/>")) { i += 2; return n; } if (is(">")) { ++i; break; } if (b == i) bad("space"); std::string a = name(); ws(); eat("="); ws(); if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) bad("quote"); char q = s[i++]; std::string v; while (i < s.size() && s[i] != q) chr(v, q); eat(q == '"' ? "\"" : "'"); if (n.at.count(a)) bad("attribute twice"); n.at[a] = v; }
    for (;;) { if (i >= s.size()) bad("end"); if (is("</")) { i += 2; if (name() != n.tag) bad("end tag"); ws(); eat(">"); return n; } if (is("<")) n.kids.push_back(el()); else chr(n.txt, '<'); }
  }
  Node doc() { if (is("<?xml")) { i = s.find("?>"); if (i == std::string::npos) { i = 0; bad("declaration"); } i += 2; } ws(); Node n = el(); ws(); if (i != s.size()) bad("text after the document"); return n; }
};
static std::string shown(const std::string& t) { std::string o; for (unsigned char c: t) o += c < 0x20 && c != 9 && c != 10 && c != 13 ? '?' : char(c); return o; }
static void report_xml(World& w, const std::vector<Fx*>& ran, const std::string& path, const std::string& id, const std::string& name) {
  std::ifstream f(path); check(bool(f), "no report was written"); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(); Xml x(s); Node d = x.doc();
  auto num = [&](Node& n, const char* a) { check(n.at.count(a), std::string("attribute ") + a + " is missing"); return atoi(n.at[a].c_str()); };
  int fails = 0; for (auto t: ran) fails += !passed(w, t);
  check(d.tag == "testsuites" && d.at["id"] == shown(id) && d.at["name"] == shown(name), "id or name of the report"); check(num(d, "tests") == int(ran.size()) && num(d, "failures") == fails, "the report counts " + d.at["tests"] + " tests and " + d.at["failures"] + " failures instead of " + std::to_string(ran.size()) + " and " + std::to_string(fails));
  size_t k = 0; std::set<std::string> comps; for (auto t: ran) comps.insert(t->comp); check(d.kids.size() == comps.size(), "number of suites");
  for (auto& su: d.kids) {
    check(su.tag == "testsuite", "suite"); int sf = 0, n = 0; std::string comp = k < ran.size() ? ran[k]->comp : ""; check(su.at["name"] == shown(comp) && su.at["id"] == shown(id + "." + comp), "name or id of a suite: " + su.at["id"]);
    for (auto& c: su.kids) {
      check(k < ran.size() && ran[k]->comp == comp, "a case in the wrong suite"); Fx* t = ran[k++]; ++n; bool p = passed(w, t); sf += !p;
      check(c.tag == "testcase" && c.at["name"] == shown(t->name) && c.at["id"] == shown(id + "." + comp + "." + t->name), "name or id of a case: " + c.at["id"]);
      check(c.kids.size() == size_t(!p), "case " + t->name + (p ? " passed and has a failure element" : " did not pass and has no failure element"));
      if (!p) { auto& fe = c.kids[0]; check(fe.tag == "failure" && fe.at["message"] == shown(t->failDesc()) && fe.at["type"] == t->statusDesc(), "description or kind of a failure: " + fe.at["message"]); std::string e = shown(t->failDesc()); check(fe.txt.find(e) != std::string::npos && fe.txt.find("File: " + shown(t->failFile()) + "\n") != std::string::npos && fe.txt.find("Line: " + std::to_string(t->failLine()) + "\n") != std::string::npos, "text of a failure: " + fe.txt); }
    }
    check(num(su, "tests") == n && num(su, "failures") == sf, "suite " + comp + " counts " + su.at["tests"] + " tests and " + su.at["failures"] + " failures instead of " + std::to_string(n) + " and " + std::to_string(sf));
  }
  check(k == ran.size(), "number of cases");
}
static void run_once(World& w, Rng& r) {
  Streams st; auto* p = w.u->p; bool cap = r() % 4 != 0; p->m_capture = cap; p->opt_erroutIsFail = r() % 2; w.u->setVerbosity(UnitTest::t_verbosity(r() % 6)); p->testsToPerofm.clear(); std::vector<Fx*> sel; p->xmlReport.clear();
  std::string path; if (prop == "C44") { p->xmlReport = path = "/tmp/vf_fut_" + std::to_string(getpid()) + ".xml"; p->unitTestId = text(r); p->unitTestName = text(r); }
  if (!w.ts.empty() && r() % 2) { for (int n = rnd(r, 1, 5); n > 0; --n) { auto t = w.ts[r() % w.ts.size()]; if ((prop == "C44" || prop == "C40") && std::find(sel.begin(), sel.end(), t) != sel.end()) continue; sel.push_back(t); p->testsToPerofm.push_back(t); } }
  std::string ns; for (auto t: sel) ns += " " + t->name; log("performUnitTests, capture ", cap, ", verbosity ", int(p->verbosity), ", selected:", ns.empty() ? " all" : ns);
  evs.clear(); int rc = w.u->performUnitTests(); st.ok("performUnitTests"); auto exp = grouped(sel.empty() ? w.ts : sel);
  if (prop == "C40" || prop == "C41") order(exp, "performUnitTests"); if (prop == "C40") { bool dup = std::set<Fx*>(exp.begin(), exp.end()).size() != exp.size(); if (!dup) verdicts(w, exp, cap, rc, "performUnitTests"); }
  if (prop == "C41") { counts(w, exp); if (p->verbosity > 0) { std::string o = rout.str(), b; size_t i = o.find("Failed cases: "); std::string got; for (auto t: sel.empty() ? w.ts : sel) if (!passed(w, t)) b += (b.empty() ? "" : ", ") + w.names[std::find(w.ts.begin(), w.ts.end(), t) - w.ts.begin()]; if (i != std::string::npos) { i += 14; got = o.substr(i, o.find('\n', i) - i); } bool nl = b.find('\n') != std::string::npos; if (p->m_capture && !nl) check(got == b, "the report names '" + got + "' instead of '" + b + "'"); } }
  for (auto t: exp) { if (prop == "C45") record(t, cap); if (prop == "C46") timing(t); if (prop == "C42") captured(t, cap); }
  if (prop == "C42") { std::string o = rout.str(), e = rerr.str(); if (cap && p->verbosity == 0) check(o.empty() && e.empty(), "what a test wrote reached the real streams: '" + o + e + "'"); if (!cap) for (auto t: exp) check(o.find(t->wout) != std::string::npos && e.find(t->werr) != std::string::npos, "without capturing the streams miss what a test wrote"); }
  if (prop == "C44") { report_xml(w, exp, path, p->unitTestId, p->unitTestName); unlink(path.c_str()); }
}
static void runs_of(Rng& r) { World w; w.fill(r, rnd(r, 0, 7), prop == "C44" || r() % 3 == 0); for (int n = rnd(r, 1, 3); n > 0; --n) run_once(w, r);
  for (int n = r() % 3; n > 0 && !w.ts.empty(); --n) {
    Streams st; auto t = w.ts[r() % w.ts.size()]; bool cap = w.u->p->m_capture = r() % 2; evs.clear(); log("performTest ", t->name, " capture ", cap); w.u->p->testsToPerofm.clear(); int rc = w.u->performTest((t->comp + "::" + t->name).c_str()); st.ok("performTest");
    // two tests may have the same full name: the first registered one is meant
    for (auto q: w.ts) if (q->comp + "::" + q->name == t->comp + "::" + t->name) { t = q; break; }
    if (prop == "C40" || prop == "C41") order({t}, "performTest"); if (prop == "C40") verdicts(w, {t}, cap, rc, "performTest"); if (prop == "C45") record(t, cap); if (prop == "C46") timing(t); if (prop == "C42") captured(t, cap);
  }
  if (r() % 4 == 0) { Streams st; evs.clear(); bool threw = false; try { w.u->performTest("there is no such test"); } catch (std::runtime_error&) { threw = true; } check(threw && evs.empty(), "an unknown test name"); st.ok("performTest of an unknown test"); }
}
// ---- main: the exit code, the options
static void cmdline(Rng& r) {
  auto* w = new World; w->fill(r, rnd(r, 1, 5), false); Streams st; std::vector<std::string> a; std::string dir = r() % 2 ? "/some/dir.d/" : r() % 2 ? "./" : "", base = r() % 2 ? "prog" : "my_prog-2", ext = r() % 2 ? "" : r() % 2 ? ".exe" : ".a.b"; a.push_back(dir + base + ext);
  int verb = UnitTest::REPORT_STATUS; bool cap = true, erf = false, bad = false; std::string xml, name = base, id = base; std::vector<Fx*> sel; auto* p = w->u->p; int n = rnd(r, 0, 5);
  for (int i = 0; i < n && !bad; ++i) switch (r() % 12) {
    case 0: a.push_back("-q"); verb = 0; break; case 1: a.push_back("-c"); cap = false; break; case 2: a.push_back("-e"); erf = true; break;
    case 3: case 4: { int l = rnd(r, -2, 7); a.push_back("-v"); a.push_back(std::to_string(l)); if (l < 0 || l > 5) bad = true; else verb = l; } break;
    case 5: case 6: case 7: { a.push_back("-t"); auto t = w->ts[r() % w->ts.size()]; a.push_back(t->comp + "::" + t->name); sel.push_back(t); } break;
    case 8: a.push_back("-n"); name = text(r); a.push_back(name); break; case 9: a.push_back("-i"); id = r() % 2 ? "-q" : text(r); a.push_back(id); break;
    case 10: a.push_back("-x"); xml = "/tmp/vf_fut_" + std::to_string(getpid()) + ".xml"; a.push_back(xml); break;
    default: { static const char* b[] = {"-h", "-z", "x", "", "--", "-vv", "-q1"}; int k = r() % 10; bad = true; if (k < 7) a.push_back(b[k]); else if (k == 7) { a.push_back("-t"); a.push_back("a::nothing"); } else if (k == 8) { a.push_back("-v"); a.push_back("loud"); } else { static const char* m[] = {"-v", "-t", "-x", "-n", "-i"}; a.push_back(m[r() % 5]); i = n; } }
  }
  std::vector<char*> v; std::string line; for (auto& s: a) { v.push_back(&s[0]); line += " '" + s + "'"; } v.push_back(nullptr); log("main", line); evs.clear();
  std::vector<Fx*> ts = w->ts; auto exp = grouped(sel.empty() ? ts : sel);
  if (prop == "C43" && r() % 2) { w->u->detectTestName(v[0]); int rc = w->u->parseParams(int(a.size()) - 1, v.data() + 1); check((rc != 0) == bad, "parseParams gives " + std::to_string(rc)); check(evs.empty(), "a test was run");
    if (!bad) { check(p->verbosity == verb, "verbosity " + std::to_string(p->verbosity)); check(p->m_capture == cap && p->opt_erroutIsFail == erf, "-c or -e"); check(p->xmlReport == xml, "report file"); check(p->unitTestName == name && p->unitTestId == id, "name '" + p->unitTestName + "' or id '" + p->unitTestId + "'"); check(std::vector<TestCase*>(sel.begin(), sel.end()) == p->testsToPerofm, "selection"); }
    delete w; return; }
  int rc = w->u->engine_main(int(a.size()), v.data()); st.ok("main"); if (!xml.empty()) unlink(xml.c_str());
  if (bad) { check(rc != 0 && evs.empty(), "refused options: result " + std::to_string(rc) + ", " + std::to_string(evs.size()) + " test steps run"); }
  else { order(exp, "main"); bool dup = std::set<Fx*>(exp.begin(), exp.end()).size() != exp.size(), any = false, unclear = false; for (auto t: exp) { any = any || t->status() != TestCase::SUCCESS; unclear = unclear || t->unclear(cap); } if (!dup) check((rc != 0) == any, "main returns " + std::to_string(rc)); if (prop == "C43" && verb == 0) check(rout.str().empty() || !cap, "-q is not silent"); }
  w->u = new UnitTest; delete w;
}
// ---- the check macros
struct P: TestCase {
  void test() override {} int after = 0; int thrown = 0;
  void thr() { if (thrown == 1) throw MyError("msg"); if (thrown == 2) throw 3; }
#line 901 "/x y/z.d/macros.cpp"
  void eq(int64 a, int64 b) { EXPECT_EQ(a, b) after++; }
  void ne(int64 a, int64 b) { EXPECT_NE(a, b) after++; }
  void gt(int64 a, int64 b) { EXPECT_GT(a, b) after++; }
  void ge(int64 a, int64 b) { EXPECT_GE(a, b) after++; }
  void lt(int64 a, int64 b) { EXPECT_LT(a, b) after++; }
  void le(int64 a, int64 b) { EXPECT_LE(a, b) after++; }
  void tr(bool a) { EXPECT_TRUE(a) after++; }
  void fa(bool a) { EXPECT_FALSE(a) after++; }
  void seq(const char* a, const char* b) { EXPECT_STREQ(a, b) after++; }
  void sne(const char* a, const char* b) { EXPECT_STRNE(a, b) after++; }
  void th() { EXPECT_THROW(thr(), MyError) }
  void an() { EXPECT_ANY_THROW(thr()) }
  void no() { EXPECT_NO_THROW(thr()) }
  void deq(double a, double b) { EXPECT_EQ(a, b) after++; }
  void feq(double a, double b) { EXPECT_FLOAT_EQ(a, b) after++; }
  void fne(double a, double b) { EXPECT_FLOAT_NE(a, b) after++; }
  void fsum(double a, double b) { EXPECT_FLOAT_EQ(a+b, b-a) after++; }
  void fdif(double a, double b) { EXPECT_FLOAT_NE(a-b, b+a) after++; }
  void bits(int64 a, int64 b) { EXPECT_EQ(a&3, b) after++; }
  void either(bool a, bool b) { EXPECT_FALSE(a||b) after++; }
  void both(bool a, bool b) { EXPECT_TRUE(a&&b) after++; }
  void two(int64 a, int64 b) { EXPECT_EQ(a, b) EXPECT_LT(a, 2) after++; }
};
#line 200 "fut.cpp"
static void macros(Rng& r) {
  P t; int64 a = rnd(r, -3, 3), b = rnd(r, -3, 3); if (r() % 4 == 0) a = int64(r()) << 31; static const char* tx[] = {"", "x", "hello world", "a<b"}; std::string s = tx[r() % 4], q = tx[r() % 4]; int k = r() % 22; bool holds = true; std::string cond, act = std::to_string(b); int line = 901 + k; t.thrown = r() % 3;
  bool esc = false, threw = false;
  try { switch (k) {
    case 0: holds = a == b; cond = "a == b"; t.eq(a, b); break; case 1: holds = a != b; cond = "a != b"; t.ne(a, b); break; case 2: holds = a > b; cond = "a > b"; t.gt(a, b); break; case 3: holds = a >= b; cond = "a >= b"; t.ge(a, b); break; case 4: holds = a < b; cond = "a < b"; t.lt(a, b); break; case 5: holds = a <= b; cond = "a <= b"; t.le(a, b); break;
    case 6: holds = a > 0; cond = "a should be true"; act = a > 0 ? "1" : "0"; t.tr(a > 0); break; case 7: holds = !(a > 0); cond = "a should be false"; act = a > 0 ? "1" : "0"; t.fa(a > 0); break;
    case 8: holds = s == q; cond = "std::string(a) == std::string(b)"; act = q; t.seq(s.c_str(), q.c_str()); break; case 9: holds = s != q; cond = "std::string(a) != std::string(b)"; act = q; t.sne(s.c_str(), q.c_str()); break;
    case 10: holds = t.thrown != 0; esc = t.thrown == 2; cond = "Expected exception of type MyError wasn't thrown"; act = ""; t.th(); break; case 11: holds = t.thrown != 0; cond = "No throw when any throw was expected"; act = ""; t.an(); break;
    case 12: holds = t.thrown == 0; cond = t.thrown == 1 ? "Exception thrown: \" msg\"" : "Unknown exception thrown"; act = ""; t.no(); break;
    case 14: case 15: case 16: case 17: { double x = a / 4.0 + (r() % 2) / 1e5, y = b / 4.0 + (r() % 2) / 1e5; if (a > 100 || a < -100) x = 2.5; double u = k == 16 ? x + y : k == 17 ? x - y : x, v = k == 16 ? y - x : k == 17 ? y + x : y; bool e = int64(u * 10000.0) == int64(v * 10000.0); holds = (k % 2 == 0) == e; cond = ""; if (k == 14) t.feq(x, y); if (k == 15) t.fne(x, y); if (k == 16) t.fsum(x, y); if (k == 17) t.fdif(x, y); break; }
    case 18: holds = (a & 3) == b; cond = "a&3 == b"; t.bits(a, b); break; case 19: holds = !(a > 0 || b > 0); cond = "a||b should be false"; act = "1"; t.either(a > 0, b > 0); break; case 20: holds = a > 0 && b > 0; cond = "a&&b should be true"; act = "0"; t.both(a > 0, b > 0); break;
    case 21: holds = a == b && a < 2; cond = a == b ? "a < 2" : "a == b"; if (a == b) act = "2"; t.two(a, b); break;
    default: { double x = a / 4.0, y = b / 4.0; std::ostringstream o; o << y; act = o.str(); holds = x == y; cond = "a == b"; t.deq(x, y); } } } catch (int) { threw = true; }
  log("macro ", k, " a=", a, " b=", b); check(threw == esc, "exceptions leaving a check");
  if (holds) check(t.status() == TestCase::NONE && !*t.failDesc() && !*t.failFile() && t.failLine() == 0, "a check that holds records '" + std::string(t.failDesc()) + "'");
  else { check(t.status() == TestCase::FAIL && (cond.empty() || t.failDesc() == (act.empty() ? cond : cond + " (Actually \"" + act + "\")")), "recorded: '" + std::string(t.failDesc()) + "'"); check(t.failFile() == std::string("macros.cpp") && t.failLine() == line, "place " + std::string(t.failFile()) + ":" + std::to_string(t.failLine())); if (k < 10 || k >= 13) check(t.after == 0, "the test goes on after a failed check"); }
  if (holds && (k < 10 || k >= 13)) check(t.after == 1, "the test stops at a check that holds");
  static const char* dirs[] = {"f.cpp", "/a/b/f.cpp", "./f.cpp", "/f.cpp", "x.d/f", "/tail/"}; std::string d = dirs[r() % 6], e = text(r), ac = r() % 2 ? "" : text(r); t.checkFail(d.c_str(), 12, e.c_str(), ac.c_str()); size_t c = d.rfind('/'); check(t.failFile() == (c == std::string::npos ? d : d.substr(c + 1)) && t.failLine() == 12 && t.failDesc() == (ac.empty() ? e : e + " (Actually \"" + ac + "\")"), "checkFail records '" + std::string(t.failDesc()) + "' at " + t.failFile());
}
static void clocks(Rng& r) {
  TimeLapse l; int64_t b = int64_t(r()) * 1000 + r() % 1000, e = r() % 2 ? b + r() % 100000 : b - int64_t(r() % 86400000); falcon::int64 m; now_ms = b; check(l.markBegin() == b && l.begin() == b, "markBegin"); now_ms = e; check(l.markEnd() == e && l.end() == e && l.begin() == b, "markEnd"); int64_t x = e < b ? e - b + 86400000 : e - b; log("begin ", b, " end ", e); check(l.elapsed() == x, "elapsed " + std::to_string(l.elapsed())); check(l.elapsedNow() == x, "elapsedNow " + std::to_string(l.elapsedNow()));
  markTime(m); check(m == e, "markTime " + std::to_string(m)); clock_fails = true; bool t = false; try { markTime(m); } catch (std::runtime_error&) { t = true; } clock_fails = false; check(t, "a clock failure is passed over");
  now_ms = 1000000000;
}
// ---- the program: declared tests, the engine they register with, the exit code
static void declared() {
  log("tests declared by TEST and TEST_F"); auto u = UnitTest::singleton(); check(u && u == UnitTest::singleton(), "another engine is given by a later call"); auto& v = u->p->tests; check(v.size() == 2, std::to_string(v.size()) + " declared tests are registered instead of 2");
  static const char* n[][2] = {{"a_component", "a_case"}, {"a_fixture", "another_case"}};
  for (int i = 0; i < 2; ++i) { check(v[i]->componentName() == std::string(n[i][0]) && v[i]->caseName() == std::string(n[i][1]), std::string("a test is registered as ") + v[i]->componentName() + ", " + v[i]->caseName()); auto f = u->p->testsByName.find(std::string(n[i][0]) + "::" + n[i][1]); check(f != u->p->testsByName.end() && f->second == v[i], "a declared test is not found by its name"); }
}
static void program(Rng& r) {
  bool macro = r() % 2; int act = rnd(r, 0, 4); static const int acts[] = {A_NONE, A_CHECK, A_FAIL, A_THROW, A_ERR}; log(macro ? "FALCON_TEST_MAIN" : "main of fut_main.cpp", ", a test that: ", an[acts[act]]); fflush(stdout);
  pid_t c = fork(); if (c < 0) return;
  if (c == 0) { Streams st; static Fx t; t.comp = "c"; t.name = "t"; t.text = "x"; t.body = acts[act]; UnitTest::singleton()->addTestCase("c", "t", &t); char p[] = "prog", q[] = "-q"; char* v[] = {p, q, nullptr}; int rc = macro ? a_main::engine_main(2, v) : engine_main(2, v); _exit(t.entered ? rc : 77); }
  int s = 0; while (waitpid(c, &s, 0) < 0) {} check(WIFEXITED(s), "the program is ended by a signal"); int rc = WEXITSTATUS(s); check(rc != 77, "the program runs no test"); check((rc != 0) == (act != 0), "the exit code of the program is " + std::to_string(rc));
}
int main(int argc, char** argv) {
  init(argc, argv); if (prop == "C41") declared();
  histories([](Rng& r) { if (prop == "C40" && r() % 50 == 0) { program(r); return; } if (prop == "C43") { cmdline(r); return; } if (prop == "C45" && r() % 2) { macros(r); return; } if (prop == "C46" && r() % 2) { clocks(r); return; } if ((prop == "C40" || prop == "C41") && r() % 3 == 0) { cmdline(r); return; } runs_of(r); });
  done();
}
