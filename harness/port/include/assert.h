#undef assert
void abort(void);
#define assert(c) ((c) ? (void)0 : abort())
#ifndef static_assert
#define static_assert _Static_assert
#endif
