/* Answers requests on other machines: wasm32 (called by server.js), i386, and big-endian ones (swap.py). */
#include "include_lib.h"
#include "port.h"
static uint8_t inbuf[PORT_MAX], outbuf[PORT_MAX];
#if defined(__wasm__)
__attribute__((export_name("inbuf"))) uint8_t* get_in(void) { return inbuf; }
__attribute__((export_name("outbuf"))) uint8_t* get_out(void) { return outbuf; }
__attribute__((export_name("port"))) uint32_t do_port(uint32_t n) { return port(inbuf, n, outbuf); }
#else
long read(int f, void* p, unsigned long n); /* sys.c */
long write(int f, const void* p, unsigned long n);
static bool get(uint8_t* p, uint32_t n) {
    while (n > 0) {
        long k = read(0, p, n);
        if (k <= 0) { return false; }
        p += k;
        n -= (uint32_t)k;
    }
    return true;
}
static bool put(const uint8_t* p, uint32_t n) {
    while (n > 0) {
        long k = write(1, p, n);
        if (k <= 0) { return false; }
        p += k;
        n -= (uint32_t)k;
    }
    return true;
}
int main(void) {
    static uint8_t head[4];
    while (get(head, 4)) {
        uint32_t n = head[0] | (uint32_t)head[1] << 8 | (uint32_t)head[2] << 16, m;
        if (n > PORT_MAX || !get(inbuf, n)) { return 1; }
        m = port(inbuf, n, outbuf);
        head[0] = (uint8_t)m;
        head[1] = (uint8_t)(m >> 8);
        head[2] = (uint8_t)(m >> 16);
        head[3] = 0;
        if (!put(head, 4) || !put(outbuf, m)) { return 1; }
    }
    return 0;
}
#endif
