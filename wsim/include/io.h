/* see windows.h */
#pragma once
#include <stdio.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int _fileno(FILE*); intptr_t _get_osfhandle(int); int _isatty(int);
#ifdef __cplusplus
}
#endif
