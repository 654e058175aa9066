// The library's inline atomic operations, compiled with the library's flags.
#include <Zycore/Atomic.h>
ZyanU32 at_inc32(ZyanAtomic32* p) { return ZyanAtomicIncrement32(p); }
ZyanU32 at_dec32(ZyanAtomic32* p) { return ZyanAtomicDecrement32(p); }
ZyanU32 at_cas32(ZyanAtomic32* p, ZyanU32 c, ZyanU32 v) { return ZyanAtomicCompareExchange32(p, c, v); }
ZyanU64 at_inc64(ZyanAtomic64* p) { return ZyanAtomicIncrement64(p); }
ZyanU64 at_dec64(ZyanAtomic64* p) { return ZyanAtomicDecrement64(p); }
ZyanU64 at_cas64(ZyanAtomic64* p, ZyanU64 c, ZyanU64 v) { return ZyanAtomicCompareExchange64(p, c, v); }
ZyanUPointer at_incp(ZyanAtomicPointer* p) { return ZyanAtomicIncrement(p); }
ZyanUPointer at_decp(ZyanAtomicPointer* p) { return ZyanAtomicDecrement(p); }
ZyanUPointer at_casp(ZyanAtomicPointer* p, ZyanUPointer c, ZyanUPointer v) { return ZyanAtomicCompareExchange(p, c, v); }
// the macros on plain variables
ZyanU32 am_inc32(ZyanU32* p) { ZyanU32 r; r = ZYAN_ATOMIC_INCREMENT32(*p); return r; }
ZyanU32 am_dec32(ZyanU32* p) { ZyanU32 r; r = ZYAN_ATOMIC_DECREMENT32(*p); return r; }
ZyanU32 am_cas32(ZyanU32* p, ZyanU32 c, ZyanU32 v) { ZyanU32 r; r = ZYAN_ATOMIC_COMPARE_EXCHANGE32(*p, c, v); return r; }
ZyanU64 am_inc64(ZyanU64* p) { ZyanU64 r; r = ZYAN_ATOMIC_INCREMENT64(*p); return r; }
ZyanU64 am_dec64(ZyanU64* p) { ZyanU64 r; r = ZYAN_ATOMIC_DECREMENT64(*p); return r; }
ZyanU64 am_cas64(ZyanU64* p, ZyanU64 c, ZyanU64 v) { ZyanU64 r; r = ZYAN_ATOMIC_COMPARE_EXCHANGE64(*p, c, v); return r; }
ZyanUPointer am_incp(ZyanUPointer* p) { ZyanUPointer r; r = ZYAN_ATOMIC_INCREMENT(*p); return r; }
ZyanUPointer am_decp(ZyanUPointer* p) { ZyanUPointer r; r = ZYAN_ATOMIC_DECREMENT(*p); return r; }
ZyanUPointer am_casp(ZyanUPointer* p, ZyanUPointer c, ZyanUPointer v) { ZyanUPointer r; r = ZYAN_ATOMIC_COMPARE_EXCHANGE(*p, c, v); return r; }
