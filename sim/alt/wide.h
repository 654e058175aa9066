/* selects the code for 32-bit processors (number formatting) in a 64-bit build */
#include <Zycore/Defines.h>
#undef ZYAN_X64
#define ZYAN_X86
