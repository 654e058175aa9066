/* The header's macros that are C only. */
#include <Zycore/String.h>
#include <Zycore/Vector.h>

const ZyanStringView zsim_views[4] =
{
    ZYAN_DEFINE_STRING_VIEW(""), ZYAN_DEFINE_STRING_VIEW("a"), ZYAN_DEFINE_STRING_VIEW("bA"), ZYAN_DEFINE_STRING_VIEW("aAb@a[")
};

/* Calls f(element, index, arg) for every element. */
void zsim_walk_mutable(ZyanVector* v, void (*f)(void*, ZyanUSize, void*), void* arg)
{
    ZyanUSize i = 0;
    ZYAN_VECTOR_FOREACH_MUTABLE(ZyanU64, v, item, { f(item, i, arg); ++i; })
}
