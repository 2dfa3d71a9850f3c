// Items, handlers, code objects, distribute: seeded histories against the real code (C30..C33)
#include "common.h"
#include <falcon/engine/item.h>
#include <stdexcept>
#include <falcon/engine/code.h>
#include <falcon/engine/distribute.h>
#include FALCON_ENGINE(handlerfactory.cpp)
#include FALCON_ENGINE(code.cpp)
#include <list>
#include <iterator>
#include <cmath>
#include <limits>
#include <memory>
using namespace rp; using namespace falcon;
struct Val { int k = 0; bool b = false; int64 i = 0; uint64 u = 0; double d = 0; std::string s; BigNum n; };      // 0 nil 1 bool 2 char 3 byte 4 int32 5 uint32 6 int64 7 uint64 8 double 9 cstring 10 string 11 bignum
static std::string text(Rng& r) { static const char* t[] = {"", "0", "12", "-7abc", "  42", "abc", "9223372036854775808", "-99999999999999999999", "3.9", "+5", "hello world, a text longer than sixteen characters"}; std::string s = t[r() % 11]; if (r() % 5 == 0) s += std::string("\0z", 2); if (r() % 6 == 0) s = std::string(r() % 5000, char('a' + r() % 26)); if (r() % 9 == 0) s = std::string("\0", 1) + s; return s; }
static int64 num(Rng& r) { static const int64 t[] = {0, 1, -1, 127, 128, -128, 255, 256, 32768, 65536, 2147483647ll, 2147483648ll, -2147483648ll, 4294967295ll, 4294967296ll, 9223372036854775807ll, -9223372036854775807ll - 1}; return r() % 2 ? t[r() % 17] : int64(uint64(r()) << 32 | r()) >> (r() % 60); }
static double flt(Rng& r) { static const double t[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.9999, -1.9999, 1e-300, 5e-324, 1e300, 1e6, 123456789.0, 9223372036854774784.0, -9223372036854775808.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; return r() % 2 ? t[r() % 17] : std::ldexp(double(num(r)), int(r() % 80) - 60); }
static Val rv(Rng& r) {
  Val v; v.k = r() % 12; int64 x = num(r); v.s = text(r); v.d = flt(r); v.b = r() % 2; 
  switch (v.k) { case 2: v.i = char(x); break; case 3: v.i = byte(x); break; case 4: v.i = int32(x); break; case 5: v.i = uint32(x); break; case 6: v.i = x; break; case 7: v.u = uint64(x); v.i = int64(v.u); break; case 9: v.s = v.s.c_str(); break;
    case 11: { switch (r() % 4) { case 0: v.n = BigNum(x); break; case 1: v.n = 0; break; case 2: v.n = BigNum("1.25"); break; default: v.n = BigNum(x) / 7; } } break; }
  if (v.k != 7) v.u = uint64(v.i);
  return v;
}
static Item make(const Val& v) {
  switch (v.k) { case 0: return Item(); case 1: return Item(v.b); case 2: return Item(char(v.i)); case 3: return Item(byte(v.i)); case 4: return Item(int32(v.i)); case 5: return Item(uint32(v.i)); case 6: return Item(int64(v.i)); case 7: return Item(uint64(v.u)); case 8: return Item(numeric(v.d)); case 9: return Item(ccstring(v.s.c_str())); case 10: return Item(std::string(v.s)); }
  return Item(v.n);
}
static const char* kn[] = {"nil", "bool", "char", "byte", "int32", "uint32", "int64", "uint64", "double", "c string", "string", "big number"};
static std::string show(const Val& v) { std::ostringstream o; o << kn[v.k] << ' '; if (v.k == 1) o << v.b; else if (v.k == 7) o << v.u; else if (v.k >= 2 && v.k <= 6) o << v.i; else if (v.k == 8) o << v.d; else if (v.k == 9 || v.k == 10) o << '\'' << v.s.substr(0, 40) << "' (" << v.s.size() << ")"; else if (v.k == 11) o << v.n; return o.str(); }
static void look(const Item& i, const Val& v, const char* who) {
  std::string w = std::string(who) + " (" + show(v) + "): "; std::string tn, ts; bool tb, flat = true; bool num = v.k >= 2 && v.k <= 7, sgn = v.k != 7 || v.u < (1ull << 63);
  switch (v.k) {
    case 0: tn = "Nil"; ts = "nil"; tb = false; check(i.toInt() == 0, w + "toInt"); break;
    case 1: tn = "Bool"; ts = v.b ? "true" : "false"; tb = v.b; check(i.toInt() == int64(v.b), w + "toInt"); check(i.get<bool>() == v.b, w + "get<bool>"); break;
    case 8: { tn = "Float"; std::ostringstream o; o << v.d; ts = o.str(); tb = !(v.d == 0.0); double g = i.get<numeric>(); check(memcmp(&g, &v.d, sizeof g) == 0 || (std::isnan(g) && std::isnan(v.d)), w + "get<numeric>"); if (std::isfinite(v.d) && v.d >= -9223372036854775808.0 && v.d < 9223372036854775808.0) check(i.toInt() == int64(v.d), w + "toInt"); } break;
    case 9: case 10: tn = "String"; ts = v.s; tb = !v.s.empty(); flat = false; check(i.toInt() == strtoll(v.s.c_str(), nullptr, 10), w + "toInt"); check(i.get<String>() == v.s, w + "get<String>"); break;
    case 11: { tn = "BigNum"; std::ostringstream o; o << v.n; ts = o.str(); tb = v.n != 0; flat = false; check(i.get<BigNum>() == v.n, w + "get<BigNum>"); check(i.toInt() == v.n.convert_to<int64>(), w + "toInt"); } break;
    default: tn = "Int"; tb = v.u != 0; if (sgn) { ts = std::to_string(v.i); check(i.toInt() == v.i, w + "toInt"); check(i.get<int64>() == v.i, w + "get<int64>"); } if (v.k == 7 || v.i >= 0) check(i.get<uint64>() == v.u, w + "get<uint64>");
  }
  check(i.handler->typeName() == tn, w + "type name " + i.handler->typeName()); check(i.handler->isFlat() == flat, w + "isFlat"); check(i.handler->isCopyFlat(), w + "isCopyFlat");
  if (!num || sgn) check(i.toString() == ts, w + "toString gives '" + i.toString().substr(0, 60) + "' instead of '" + ts.substr(0, 60) + "'");
  check(i.toBool() == tb, w + "toBool");
}
static void c30(Rng& r) { Val v = rv(r); log("item of ", show(v)); Item i(make(v)); look(i, v, "item"); }
static void c31(Rng& r) {
  struct S { std::unique_ptr<Item> i; Val v; }; std::vector<S> p;
  for (int n = rnd(r, 1, 30); n > 0; --n) {
    int op = p.empty() ? 0 : r() % 6, a = p.empty() ? 0 : r() % p.size(), b = p.empty() ? 0 : r() % p.size();
    if (op == 0) { Val v = rv(r); log("item ", p.size(), " from ", show(v)); p.push_back({std::make_unique<Item>(make(v)), v}); }
    else if (op == 1) { log("item ", p.size(), " copy of ", a); std::unique_ptr<Item> c(new Item(*p[a].i)); Val v = p[a].v; p.push_back({std::move(c), v}); }
    else if (op == 2 || op == 3) { log("item ", a, " = item ", b); *p[a].i = *p[b].i; p[a].v = p[b].v; }
    else if (op == 4) { log("item ", a, " destroyed"); p[a] = std::move(p.back()); p.pop_back(); }
    else { const Handler* hs[] = {&HandlerFactory::nilHandler, &HandlerFactory::boolHandler, &HandlerFactory::intHandler, &HandlerFactory::floatHandler, &HandlerFactory::stringHandler, &HandlerFactory::bigNumHandler}; const Handler* h = hs[r() % 6]; log("allocate, copy, destroy of ", h->typeName()); ItemData d = h->allocate(), c = h->copy(d), e = h->copy(c); h->destroy(c); (void) h->toString(e); h->destroy(d); h->destroy(e); }
    for (size_t k = 0; k < p.size(); ++k) look(*p[k].i, p[k].v, ("item " + std::to_string(k)).c_str());
  }
}
static void c32(Rng& r) {
  struct S { std::unique_ptr<Code> c; std::string t; bool known; }; std::vector<S> p;
  for (int n = rnd(r, 1, 30); n > 0; --n) {
    int op = p.empty() ? 0 : r() % 7, a = p.empty() ? 0 : r() % p.size(), b = p.empty() ? 0 : r() % p.size();
    if (op == 0) { std::string t = text(r); int l = num(r); log("code ", p.size(), " from ", t.size(), " characters"); p.push_back({std::make_unique<Code>(t, l), t, true}); }
    else if (op == 6) { log("code ", p.size(), " empty"); p.push_back({std::make_unique<Code>(), "", true}); }
    else if (op == 1) { log("code ", p.size(), " copy of ", a); auto c = std::make_unique<Code>(*p[a].c); S s{std::move(c), p[a].t, p[a].known}; p.push_back(std::move(s)); }
    else if (op == 2) { log("code ", p.size(), " moved from ", a); auto c = std::make_unique<Code>(std::move(*p[a].c)); S s{std::move(c), p[a].t, p[a].known}; p[a].known = false; p.push_back(std::move(s)); }
    else if (op == 3 || op == 4) { log("code ", a, " = code ", b); *p[a].c = *p[b].c; if (a != b) { p[a].t = p[b].t; p[a].known = p[b].known; } }
    else { log("code ", a, " destroyed"); p[a] = std::move(p.back()); p.pop_back(); }
    for (size_t k = 0; k < p.size(); ++k) { std::string t = p[k].c->toString(); if (p[k].known) check(t == p[k].t, "code " + std::to_string(k) + " renders " + std::to_string(t.size()) + " characters '" + t.substr(0, 40) + "' instead of " + std::to_string(p[k].t.size()) + " '" + p[k].t.substr(0, 40) + "'"); }
  }
}
static void c33(Rng& r) {
  std::vector<int> v; int n = rnd(r, 1, 6); for (int i = 0; i < n; ++i) v.push_back(r() % 1000); v.shrink_to_fit(); std::list<std::string> l; for (int i : v) l.push_back("s" + std::to_string(i)); int t[6] = {-1, -1, -1, -1, -1, -1}; std::string s[6]; log(n, " targets");
  switch (n) { case 1: distribute(v.begin(), t[0]); distribute(l.begin(), s[0]); break; case 2: distribute(v.begin(), t[0], t[1]); distribute(l.begin(), s[0], s[1]); break; case 3: distribute(v.begin(), t[0], t[1], t[2]); distribute(l.begin(), s[0], s[1], s[2]); break;
    case 4: distribute(v.begin(), t[0], t[1], t[2], t[3]); distribute(l.begin(), s[0], s[1], s[2], s[3]); break; case 5: distribute(v.begin(), t[0], t[1], t[2], t[3], t[4]); distribute(l.begin(), s[0], s[1], s[2], s[3], s[4]); break; default: distribute(v.begin(), t[0], t[1], t[2], t[3], t[4], t[5]); distribute(l.begin(), s[0], s[1], s[2], s[3], s[4], s[5]); }
  for (int i = 0; i < n; ++i) { check(t[i] == v[i], "target " + std::to_string(i)); check(s[i] == "s" + std::to_string(v[i]), "text target " + std::to_string(i)); }
  { std::vector<int> w; for (int i = 0; i < 16; ++i) w.push_back(r() % 1000); int u[16]; distribute(w.begin(), u[0], u[1], u[2], u[3], u[4], u[5], u[6], u[7], u[8], u[9], u[10], u[11], u[12], u[13], u[14], u[15]); for (int i = 0; i < 16; ++i) check(u[i] == w[i], "target " + std::to_string(i) + " of 16"); }
  // a single pass source is read once per target
  std::istringstream in("1 2 3 4"); std::istream_iterator<int> it(in); distribute(it, t[0], t[1], t[2]); check(t[0] == 1 && t[1] == 2 && t[2] == 3, "single pass source");
}
int main(int argc, char** argv) {
  init(argc, argv);
  histories([](Rng& r) { if (prop == "C30") c30(r); else if (prop == "C31") c31(r); else if (prop == "C32") c32(r); else if (prop == "C33") c33(r); });
  done();
}
