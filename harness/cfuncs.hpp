// The C library's memory and string functions as the library sees them (renamed by check.py): IM_READ and IM_WRITE
// say what they touch.
#pragma once
#include <ctype.h>
#ifndef IM_COPY
#define IM_COPY(d, s, n) do { IM_READ(s, n); IM_WRITE(d, n); } while (0)
#endif
extern "C" {
static size_t im_len(const char* s) { return strlen(s); }
static size_t im_nlen(const char* s, size_t n) { return strnlen(s, n); }
static size_t im_diff(const unsigned char* a, const unsigned char* b, size_t n, bool text) {  // bytes a comparison looks at
    size_t i = 0;
    while (i < n && a[i] == b[i] && !(text && !a[i])) { ++i; }
    return i < n ? i + 1 : n;
}
void* im_memcpy(void* d, const void* s, size_t n) { IM_COPY(d, s, n); return memmove(d, s, n); }
void* im_memmove(void* d, const void* s, size_t n) { IM_COPY(d, s, n); return memmove(d, s, n); }
void* im_memset(void* d, int v, size_t n) { IM_WRITE(d, n); return memset(d, v, n); }
int im_memcmp(const void* a, const void* b, size_t n) {
    size_t k = im_diff((const unsigned char*)a, (const unsigned char*)b, n, false);  // looks no further than it has to
    IM_READ(a, k);
    IM_READ(b, k);
    return memcmp(a, b, n);
}
void* im_memchr(const void* s, int v, size_t n) {
    const void* p = memchr(s, v, n);
    IM_READ(s, p ? (size_t)((const char*)p - (const char*)s) + 1 : n);
    return const_cast<void*>(p);
}
size_t im_strlen(const char* s) { IM_READ(s, im_len(s) + 1); return strlen(s); }
size_t im_strnlen(const char* s, size_t n) { size_t k = im_nlen(s, n); IM_READ(s, k < n ? k + 1 : n); return k; }
int im_strcmp(const char* a, const char* b) {
    size_t k = im_diff((const unsigned char*)a, (const unsigned char*)b, (size_t)-1, true);
    IM_READ(a, k);
    IM_READ(b, k);
    return strcmp(a, b);
}
int im_strncmp(const char* a, const char* b, size_t n) {
    size_t k = im_diff((const unsigned char*)a, (const unsigned char*)b, n, true);
    IM_READ(a, k);
    IM_READ(b, k);
    return strncmp(a, b, n);
}
char* im_strcpy(char* d, const char* s) { size_t n = im_len(s) + 1; IM_READ(s, n); IM_WRITE(d, n); memmove(d, s, n); return d; }
char* im_strncpy(char* d, const char* s, size_t n) { size_t k = im_nlen(s, n); IM_READ(s, k < n ? k + 1 : n); IM_WRITE(d, n); return strncpy(d, s, n); }
char* im_strcat(char* d, const char* s) { size_t k = im_len(d), n = im_len(s) + 1; IM_READ(d, k + 1); IM_READ(s, n); IM_WRITE(d + k, n); memmove(d + k, s, n); return d; }
char* im_strncat(char* d, const char* s, size_t n) {
    size_t k = im_len(d), m = im_nlen(s, n);
    IM_READ(d, k + 1);
    IM_READ(s, m < n ? m + 1 : n);
    IM_WRITE(d + k, m + 1);
    return strncat(d, s, n);
}
char* im_strchr(const char* s, int v) { const char* p = strchr(s, v); IM_READ(s, p ? (size_t)(p - s) + 1 : im_len(s) + 1); return const_cast<char*>(p); }
char* im_strrchr(const char* s, int v) { IM_READ(s, im_len(s) + 1); return const_cast<char*>(strrchr(s, v)); }
char* im_strstr(const char* s, const char* t) {
    const char* p = strstr(s, t);
    IM_READ(t, im_len(t) + 1);
    IM_READ(s, p ? (size_t)(p - s) + im_len(t) : im_len(s) + 1);
    return const_cast<char*>(p);
}
size_t im_strspn(const char* s, const char* t) { size_t k = strspn(s, t); IM_READ(s, k + 1); IM_READ(t, im_len(t) + 1); return k; }
size_t im_strcspn(const char* s, const char* t) { size_t k = strcspn(s, t); IM_READ(s, k + 1); IM_READ(t, im_len(t) + 1); return k; }
char* im_strpbrk(const char* s, const char* t) { const char* p = strpbrk(s, t); IM_READ(t, im_len(t) + 1); IM_READ(s, p ? (size_t)(p - s) + 1 : im_len(s) + 1); return const_cast<char*>(p); }
}
