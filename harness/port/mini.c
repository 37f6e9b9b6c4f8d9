/* The C library functions the project may use, for targets that have no C library here. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
int errno;
void* memcpy(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; while (n--) { *a++ = *b++; } return d; }
void* memmove(void* d, const void* s, size_t n) {
    unsigned char* a = d;
    const unsigned char* b = s;
    if ((uintptr_t)a < (uintptr_t)b) { while (n--) { *a++ = *b++; } } else { while (n--) { a[n] = b[n]; } }
    return d;
}
void* memset(void* d, int v, size_t n) { unsigned char* a = d; while (n--) { *a++ = (unsigned char)v; } return d; }
int memcmp(const void* x, const void* y, size_t n) {
    const unsigned char *a = x, *b = y;
    for (; n; --n, ++a, ++b) { if (*a != *b) { return *a < *b ? -1 : 1; } }
    return 0;
}
void* memchr(const void* x, int v, size_t n) {
    const unsigned char* a = x;
    for (; n; --n, ++a) { if (*a == (unsigned char)v) { return (void*)a; } }
    return 0;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) { ++n; } return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) { ++n; } return n; }
int strncmp(const char* a, const char* b, size_t n) {
    for (; n; --n, ++a, ++b) { if (*a != *b) { return (unsigned char)*a < (unsigned char)*b ? -1 : 1; } if (!*a) { return 0; } }
    return 0;
}
int strcmp(const char* a, const char* b) { return strncmp(a, b, (size_t)-1); }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t k = strnlen(s, n); memset(d, 0, n); memcpy(d, s, k); return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t k = strnlen(s, n); char* e = d + strlen(d); memcpy(e, s, k); e[k] = 0; return d; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) { return (char*)s; } if (!*s) { return 0; } } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; ++s) { if (*s == (char)c) { r = (char*)s; } if (!*s) { return r; } } }
char* strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; ++s) { if (!strncmp(s, t, n)) { return (char*)s; } if (!*s) { return 0; } } }
size_t strspn(const char* s, const char* t) { size_t n = 0; while (s[n] && strchr(t, s[n])) { ++n; } return n; }
size_t strcspn(const char* s, const char* t) { size_t n = 0; while (s[n] && !strchr(t, s[n])) { ++n; } return n; }
char* strpbrk(const char* s, const char* t) { s += strcspn(s, t); return *s ? (char*)s : 0; }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
void abort(void) { __builtin_trap(); for (;;) {} }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
/* 64-bit division for 32-bit targets */
uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t* r) {
    uint64_t q = 0, m = 0;
    for (int i = 63; i >= 0; --i) {
        m = m << 1 | (a >> i & 1);
        if (m >= b) { m -= b; q |= (uint64_t)1 << i; }
    }
    if (r) { *r = m; }
    return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t q = __udivdi3(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b); return (int64_t)((a < 0) != (b < 0) ? -q : q); }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t r = __umoddi3(a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b); return (int64_t)(a < 0 ? -r : r); }
