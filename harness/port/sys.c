/* Start and system calls of the servers, compiled for the machine that runs them (x86-64 or i386). */
int main(void);
#if defined(__i386__)
static long call3(long nr, long a, long b, long c) {
    long r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(nr), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}
enum { READ = 3, WRITE = 4, EXIT = 1 };
__asm__(".globl _start\n_start: andl $-16, %esp\n call run\n hlt\n");
#else
static long call3(long nr, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
enum { READ = 0, WRITE = 1, EXIT = 60 };
__asm__(".globl _start\n_start: andq $-16, %rsp\n call run\n hlt\n");
#endif
long read(int f, void* p, unsigned long n) { return call3(READ, f, (long)p, (long)n); }
long write(int f, const void* p, unsigned long n) { return call3(WRITE, f, (long)p, (long)n); }
__attribute__((used)) static void run(void) { call3(EXIT, main(), 0, 0); }
