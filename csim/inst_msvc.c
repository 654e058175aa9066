// The implementation of the atomic operations for Microsoft's compiler; the compiler's intrinsics come from wsim/include/windows.h.
#undef __clang__
#undef __GNUC__
#define _MSC_VER 1938
#define _WIN64 1
#include <Zycore/Atomic.h>
#ifndef ZYAN_MSVC
#error "another compiler was detected"
#endif
ZyanU32 mt_inc32(ZyanAtomic32* p) { return ZyanAtomicIncrement32(p); }
ZyanU32 mt_dec32(ZyanAtomic32* p) { return ZyanAtomicDecrement32(p); }
ZyanU32 mt_cas32(ZyanAtomic32* p, ZyanU32 c, ZyanU32 v) { return ZyanAtomicCompareExchange32(p, c, v); }
ZyanU64 mt_inc64(ZyanAtomic64* p) { return ZyanAtomicIncrement64(p); }
ZyanU64 mt_dec64(ZyanAtomic64* p) { return ZyanAtomicDecrement64(p); }
ZyanU64 mt_cas64(ZyanAtomic64* p, ZyanU64 c, ZyanU64 v) { return ZyanAtomicCompareExchange64(p, c, v); }
ZyanUPointer mt_incp(ZyanAtomicPointer* p) { return ZyanAtomicIncrement(p); }
ZyanUPointer mt_decp(ZyanAtomicPointer* p) { return ZyanAtomicDecrement(p); }
ZyanUPointer mt_casp(ZyanAtomicPointer* p, ZyanUPointer c, ZyanUPointer v) { return ZyanAtomicCompareExchange(p, c, v); }
