#pragma once
#include <stddef.h>
int abs(int);
long labs(long);
_Noreturn void abort(void);
