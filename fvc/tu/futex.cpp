// Instantiates the real Futex, RFutex, atomic helpers and Singleton; nothing else.
#include <falcon/futex.h>
#include <falcon/atomic.h>
#include <falcon/singleton.h>
#include FALCON_ENGINE(futex.cpp)
template class falcon::Futex<0>;
template class falcon::Futex<1>;
template class falcon::Futex<2>;
template class falcon::Futex<3>;
template class falcon::Futex<77>;
template class falcon::Futex<1000>;
template class falcon::Futex<100000>;
template class falcon::Futex<4294967295u>;
namespace vf { struct Obj { Obj(); ~Obj(); int x; }; }
template class falcon::Singleton<vf::Obj>;
namespace vf {
int use_single(falcon::Singleton<Obj>& s, const falcon::Singleton<Obj>& c) {
  return s.get()->x + s->x + (*s).x + c->x + (*c).x + s.mtbl->x + (*s.mtbl).x;
}
int use_atomic(falcon::atomic_int& a, falcon::atomic_int b) {
  using namespace falcon;
  atomicSet(a, b); return atomicInc(a) + atomicDec(a) + atomicAdd(a, b) + atomicFetch(a) + atomicExchange(a, b) + atomicCAS(a, b, b) + atomicXor(a, b) + atomicAnd(a, b) + atomicOr(a, b);
}
void use_r(falcon::RFutex& f) { f.lock(); f.unlock(); f.isLocked(); f.isOwner(); }
}
