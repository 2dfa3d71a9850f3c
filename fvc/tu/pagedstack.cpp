// Instantiates the real PagedStack for an opaque element type and a real mutex; nothing else.
#include <falcon/engine/pagedstack.h>
namespace vf {
struct Elem { Elem(); Elem(int); Elem(const Elem&); Elem& operator=(const Elem&); ~Elem(); };
using Stack = falcon::PagedStack<Elem, std::allocator, std::mutex>;
}
template class falcon::PagedStack<vf::Elem, std::allocator, std::mutex>;
namespace vf {
void use(Stack& s, const Stack& cs, Elem& a, Elem& b, Elem& c, Elem& d, const Elem& k) {
  s.push(k, k); s.push(k, k, k); s.push(k, k, k, k);
  s.push_emplace(1); s.push_emplace(k);
  s.pop(a); s.pop(a,b); s.pop(a,b,c); s.pop(a,b,c,d);
  cs.peek(a); cs.peek(a,b); cs.peek(a,b,c);
  cs.peek_depth(1,a); cs.peek_depth(2,a,b); cs.peek_depth(3,a,b,c);
  cs.peek_reverse(a); cs.peek_reverse(a,b); cs.peek_reverse(a,b,c);
  s.pop_reverse(a); s.pop_reverse(a,b); s.pop_reverse(a,b,c);
  { auto i = s.begin(); ++i; --i; i++; i--; i += 3; i -= 2; s.discard(i); (void)(i==i); (void)(i!=i); (void)*i; (void)i.operator->(); }
  { auto i = cs.begin(); ++i; --i; i++; i--; i += 3; i -= 2; s.discard(i); (void)(i==i); (void)(i!=i); (void)*i; (void)i.operator->(); }
  { auto i = s.rbegin(); ++i; --i; i++; i--; i += 3; i -= 2; s.discard(i); (void)(i==i); (void)(i!=i); (void)*i; (void)i.operator->(); }
  { auto i = cs.rbegin(); ++i; --i; i++; i--; i += 3; i -= 2; s.discard(i); (void)(i==i); (void)(i!=i); (void)*i; (void)i.operator->(); }
  { const auto i = s.begin(); (void)*i; } { const auto i = cs.begin(); (void)*i; }
  { const auto i = s.rbegin(); (void)*i; } { const auto i = cs.rbegin(); (void)*i; }
  { auto i = s.sync_begin(); ++i; --i; i.get(a); (void)(i==i); (void)(i!=i); auto j(i); j = i; }
  { auto i = cs.sync_begin(); ++i; --i; i.get(a); (void)(i==i); (void)(i!=i); auto j(i); j = i; }
  { Stack t(cs); t = cs; }
}
}
