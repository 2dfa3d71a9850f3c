// translation unit of the items, their handlers and the code object: every kind of value a user can hold
#include <falcon/engine/item.h>
#include <stdexcept>
#include <vector>
#include <string>
#include <falcon/engine/code.h>
#include <falcon/engine/distribute.h>
#include FALCON_ENGINE(handlerfactory.cpp)
#include FALCON_ENGINE(code.cpp)
namespace falcon {
template Item::Item(bool); template Item::Item(char); template Item::Item(byte); template Item::Item(int32); template Item::Item(uint32); template Item::Item(int64); template Item::Item(uint64);
template Item::Item(numeric); template Item::Item(ccstring); template Item::Item(std::string); template Item::Item(BigNum);
template bool Item::get<bool>() const; template int64 Item::get<int64>() const; template uint64 Item::get<uint64>() const; template numeric Item::get<numeric>() const; template String Item::get<String>() const; template BigNum Item::get<BigNum>() const;
template struct DeepHandler<String>; template struct DeepHandler<BigNum>;
}
namespace vf {
using namespace falcon;
// observations; the specification records their arguments
void o_bool(int tag, bool v); void o_int(int tag, int64 v); void o_uint(int tag, uint64 v); void o_flt(int tag, numeric v); void o_str(int tag, const String& s); void o_big(int tag, const BigNum& b);
struct Nil {};
#define VIEW0(i) o_bool(2, i.toBool()); o_str(3, i.toString()); o_str(4, i.handler->typeName()); o_bool(5, i.handler->isFlat()); o_bool(6, i.handler->isCopyFlat());
#define VIEW(i) o_int(1, i.toInt()); VIEW0(i)
template<class T> void look(const Item& i) {
	VIEW0(i)
	if constexpr (!std::is_same_v<T, numeric>) { o_int(1, i.toInt()); }
	if constexpr (std::is_same_v<T, bool>) { o_bool(7, i.get<bool>()); }
	else if constexpr (std::is_integral_v<T>) { o_int(8, i.get<int64>()); o_uint(9, i.get<uint64>()); }
	else if constexpr (std::is_same_v<T, numeric>) { o_flt(10, i.get<numeric>()); }
	else if constexpr (std::is_same_v<T, String> || std::is_same_v<T, ccstring>) { o_str(11, i.get<String>()); }
	else if constexpr (std::is_same_v<T, BigNum>) { o_big(12, i.get<BigNum>()); }
}
template<class T> struct Mk { static void view(T v) { Item i(v); look<T>(i); } };
template<> struct Mk<Nil> { static void view(Nil) { Item i; look<Nil>(i); } };
void float_int(numeric v) { Item i(v); o_int(1, i.toInt()); }
// histories of two items: a copy outlives the original, assignment in both directions, to itself, and over another kind
template<class T> struct With { static Item make(T v) { return Item(v); } };
template<> struct With<Nil> { static Item make(Nil) { return Item(); } };
template<class T> void h_copy(T v) { Item a(With<T>::make(v)); Item b(a); a = Item(); look<T>(b); }
template<class T> void h_inner(T v) { Item a(With<T>::make(v)); { Item b(a); look<T>(b); } look<T>(a); }
template<class T> void h_self(T v) { Item a(With<T>::make(v)); Item& r = a; a = r; look<T>(a); }
template<class T, class U> void h_over(T v, U w) { Item a(With<T>::make(v)); Item b(With<U>::make(w)); b = a; a = Item(); look<T>(b); }
template<class T, class U> void h_stay(T v, U w) { Item a(With<T>::make(v)); { Item b(With<U>::make(w)); b = a; b = b; } look<T>(a); }
#define ALL(X) X(Nil) X(bool) X(char) X(byte) X(int32) X(uint32) X(int64) X(uint64) X(numeric) X(ccstring) X(String) X(BigNum)
#define ONE(T) template struct Mk<T>; template void h_copy<T>(T); template void h_inner<T>(T); template void h_self<T>(T); PAIR(T, Nil) PAIR(T, bool) PAIR(T, int64) PAIR(T, numeric) PAIR(T, String) PAIR(T, BigNum)
#define PAIR(T, U) template void h_over<T, U>(T, U); template void h_stay<T, U>(T, U);
ALL(ONE)
// handlers
void h_alloc(const Handler& h) { ItemData d = h.allocate(); h.destroy(d); }
void h_copyd(const Handler& h, ItemData d) { ItemData c = h.copy(d); h.destroy(c); }
// code objects
std::string code_make(const std::string& s, int line) { Code a(s, line); return a.toString(); }
std::string code_dflt() { Code a; return a.toString(); }
std::string code_copy(const std::string& s, int line) { Code a(s, line); { Code b(a); Code c(b); a = Code("x"); return c.toString(); } }
std::string code_src(const std::string& s, int line) { Code a(s, line); { Code b(a); } return a.toString(); }
std::string code_move(const std::string& s, int line) { Code a(s, line); Code b(std::move(a)); return b.toString(); }
std::string code_moved(const std::string& s, int line) { Code a("y"); Code b(std::move(a)); Code c(s, line); a = c; b = a; return b.toString(); }
std::string code_assign(const std::string& s, int line, const std::string& t) { Code a(t, 7); { Code b(s, line); a = b; } return a.toString(); }
std::string code_self(const std::string& s, int line) { Code a(s, line); Code& r = a; a = r; return a.toString(); }
std::string code_stay(const std::string& s, const std::string& t) { Code a(s); { Code b(t); b = a; Code c(t); b = c; } return a.toString(); }
}
namespace vf {
void dist1(std::vector<int>& v, int& a) { distribute(v.begin(), a); }
void dist2(std::vector<int>& v, int& a, int& b) { distribute(v.begin(), a, b); }
void dist3(std::vector<int>& v, int& a, int& b, int& c) { distribute(v.begin(), a, b, c); }
void dist4(std::vector<int>& v, int& a, int& b, int& c, int& d) { auto i = v.begin(); distribute(i, a, b, c, d); }
void dist16(std::vector<int>& v, int& t0, int& t1, int& t2, int& t3, int& t4, int& t5, int& t6, int& t7, int& t8, int& t9, int& t10, int& t11, int& t12, int& t13, int& t14, int& t15) { distribute(v.begin(), t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15); }
void dist12(std::vector<int>& v, int& t0, int& t1, int& t2, int& t3, int& t4, int& t5, int& t6, int& t7, int& t8, int& t9, int& t10, int& t11) { distribute(v.begin(), t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11); }
void dist8(std::vector<int>& v, int& t0, int& t1, int& t2, int& t3, int& t4, int& t5, int& t6, int& t7) { distribute(v.begin(), t0, t1, t2, t3, t4, t5, t6, t7); }
void dist5(std::vector<std::string>& v, std::string& a, std::string& b, std::string& c, std::string& d, std::string& e) { distribute(v.begin(), a, b, c, d, e); }
}
