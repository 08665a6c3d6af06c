/* Test driver: runs case functions c0_main .. c255_main, each in its own contained child process.
 * The same driver is linked with the umlcc-compiled cases and with the gcc-compiled ones.
 * It checks the calling convention from outside: callee-saved registers and the stack pointer after each case,
 * stack alignment at each call into it; and it scribbles over everything a callee may scribble over. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <linux/seccomp.h>

#define NOINL __attribute__((noinline))
static int lines;
static void die(int code) { syscall(SYS_exit, code); for (;;) ; }
static void out(const char* s, int n) {
    while (n > 0) { long k = syscall(SYS_write, 1, s, n); if (k <= 0) die(96); s += k; n -= (int)k; }
    if (++lines > 20000) die(97);
}
static void fmt(char tag, unsigned long long v, int neg) {
    char b[40]; int i = 39; b[i] = '\n';
    do { b[--i] = (char)('0' + v % 10); v /= 10; } while (v);
    if (neg) b[--i] = '-';
    b[--i] = ' '; b[--i] = tag;
    out(b + i, 40 - i);
}
static void sfmt(char tag, long long v) { fmt(tag, v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0); }
#define ALIGNED() do { if ((uintptr_t)__builtin_frame_address(0) & 15) out("MISALIGNED STACK\n", 17); } while (0)
#define SCRIBBLE() __asm__ volatile("mov $0x5ca1ab1e0ddba11f, %%rcx\n mov %%rcx, %%rdx\n not %%rdx\n mov %%rcx, %%rsi\n" \
    "neg %%rsi\n mov %%rcx, %%rdi\n mov %%rdx, %%r8\n mov %%rsi, %%r9\n mov %%rcx, %%r10\n mov %%rdx, %%r11\n" \
    "pxor %%xmm0, %%xmm0\n" ::: "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "cc")
#define PUT(name, T, conv, tag) NOINL void name(T x) { ALIGNED(); conv(tag, x); SCRIBBLE(); }
#define ufmt(tag, x) fmt(tag, x, 0)
PUT(put_c, char, sfmt, 'c')
PUT(put_i, int, sfmt, 'i')
PUT(put_u, unsigned, ufmt, 'u')
PUT(put_l, long, sfmt, 'l')
PUT(put_ul, unsigned long, ufmt, 'L')
PUT(put_ll, long long, sfmt, 'q')
PUT(put_ull, unsigned long long, ufmt, 'Q')
NOINL void put_s(char* s) {
    ALIGNED();
    static char b[16400]; int n = 0;
    b[n++] = 's'; b[n++] = ' ';
    for (int i = 0; i < 4000 && s[i]; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c >= 32 && c < 127 && c != '\\') b[n++] = (char)c;
        else { b[n++] = '\\'; b[n++] = "0123456789abcdef"[c >> 4]; b[n++] = "0123456789abcdef"[c & 15]; }
    }
    b[n++] = '\n'; out(b, n);
    SCRIBBLE();
}
/* 12 GB of zeros, none of them backed by memory until it is written */
static char* big;
NOINL char* big_area(void) { ALIGNED(); SCRIBBLE(); return big; }
/* n raw bytes of an object */
NOINL void put_fill(char* p, int n, int k) {
    ALIGNED();
    for (int i = 0; i < n; i++) p[i] = (char)(k ? k + i * 7 : 0);
}
NOINL void put_mem(char* s, int n) {
    ALIGNED();
    static char b[16400]; int k = 0;
    b[k++] = 'm'; b[k++] = ' ';
    for (int i = 0; i < n && i < 8000; i++) { unsigned char c = (unsigned char)s[i]; b[k++] = "0123456789abcdef"[c >> 4]; b[k++] = "0123456789abcdef"[c & 15]; }
    b[k++] = '\n'; out(b, k);
    SCRIBBLE();
}
/* trace point: prints the tag, returns the value, with garbage in every register bit the ABI leaves open */
NOINL int tr(int k, int v) { ALIGNED(); sfmt('t', k); SCRIBBLE(); return v; }
NOINL long trl(int k, long v) { ALIGNED(); sfmt('t', k); SCRIBBLE(); return v; }
NOINL char trc(int k, char v) { ALIGNED(); sfmt('t', k); SCRIBBLE(); return v; }
/* identities returning narrow values with dirty upper bits */
#define ASMID(name, body) __asm__(".text\n.globl " #name "\n" #name ":\n" body "\n ret\n")
#define DIRTY "mov $0x5ca1ab1e0ddba11f, %rcx\n mov %rcx, %rdx\n mov %rcx, %rsi\n mov %rcx, %r8\n mov %rcx, %r9\n mov %rcx, %r10\n mov %rcx, %r11\n"
ASMID(id_c, "mov %dil, %cl\n mov $0x1122334455667788, %rax\n mov %cl, %al\n mov $0x123456789abcdef, %rdi\n" "mov %rdi,%rcx\n mov %rdi,%rdx\n mov %rdi,%rsi\n mov %rdi,%r8\n mov %rdi,%r9\n mov %rdi,%r10\n mov %rdi,%r11\n");
ASMID(id_i, "mov $0x1122334400000000, %rax\n mov %edi, %edi\n or %rdi, %rax\n mov $0x123456789abcdef, %rdi\n" DIRTY);
ASMID(id_u, "mov $0x1122334400000000, %rax\n mov %edi, %edi\n or %rdi, %rax\n mov $0x123456789abcdef, %rdi\n" DIRTY);
ASMID(id_l, "mov %rdi, %rax\n mov $0x123456789abcdef, %rdi\n" DIRTY);
ASMID(id_ul, "mov %rdi, %rax\n mov $0x123456789abcdef, %rdi\n" DIRTY);
ASMID(id_ll, "mov %rdi, %rax\n mov $0x123456789abcdef, %rdi\n" DIRTY);
ASMID(id_ull, "mov %rdi, %rax\n mov $0x123456789abcdef, %rdi\n" DIRTY);

/* run_case(fn): fills the stack below with a pattern, sets callee-saved registers, calls, verifies; 0 = fine */
__asm__(".text\nrun_case:\n"
        "push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8, %rsp\n"
        "mov %rdi, %rax\n"
        "mov $0xa5a5a5a5a5a5a5a5, %rdx\n"
        "mov $8192, %rcx\n mov %rsp, %rsi\n"
        "1: sub $8, %rsi\n mov %rdx, (%rsi)\n dec %rcx\n jnz 1b\n"
        "mov %rsp, saved_sp(%rip)\n"
        "mov $0x1111111111111101, %rbx\n mov $0x2222222222222202, %rbp\n mov $0x3333333333333303, %r12\n"
        "mov $0x4444444444444404, %r13\n mov $0x5555555555555505, %r14\n mov $0x6666666666666606, %r15\n"
        "mov %rdx, %rcx\n mov %rdx, %rsi\n mov %rdx, %rdi\n mov %rdx, %r8\n mov %rdx, %r9\n mov %rdx, %r10\n mov %rdx, %r11\n"
        "call *%rax\n"
        "xor %eax, %eax\n"
        "cmp saved_sp(%rip), %rsp\n jne 3f\n"
        "mov $0x1111111111111101, %rdx\n cmp %rdx, %rbx\n jne 2f\n"
        "mov $0x2222222222222202, %rdx\n cmp %rdx, %rbp\n jne 2f\n"
        "mov $0x3333333333333303, %rdx\n cmp %rdx, %r12\n jne 2f\n"
        "mov $0x4444444444444404, %rdx\n cmp %rdx, %r13\n jne 2f\n"
        "mov $0x5555555555555505, %rdx\n cmp %rdx, %r14\n jne 2f\n"
        "mov $0x6666666666666606, %rdx\n cmp %rdx, %r15\n jne 2f\n"
        "jmp 4f\n2: mov $1, %eax\n jmp 4f\n3: mov $2, %eax\n mov saved_sp(%rip), %rsp\n"
        "4: add $8, %rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static uint64_t saved_sp __attribute__((used));
int run_case(void (*)(void));
/* call_int(f, a): calls back through a function pointer from C code */
NOINL int call_i(int (*f)(int), int a) { ALIGNED(); int r = f(a); SCRIBBLE(); return r; }
NOINL long call_l(long (*f)(long), long a) { ALIGNED(); long r = f(a); SCRIBBLE(); return r; }

#define W(n) extern void c##n##_main(void) __attribute__((weak));
#define R(n) c##n##_main,
#define D8(X, n) X(n##0) X(n##1) X(n##2) X(n##3) X(n##4) X(n##5) X(n##6) X(n##7) X(n##8) X(n##9)
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) D8(X, 1) D8(X, 2) D8(X, 3) D8(X, 4) D8(X, 5) D8(X, 6) D8(X, 7) \
    D8(X, 8) D8(X, 9) D8(X, 10) D8(X, 11) D8(X, 12) D8(X, 13) D8(X, 14) D8(X, 15)
ALL(W)
static void (*cases[])(void) = {ALL(R)};

int main(int argc, char** argv) {
    int limit_ms = argc > 1 ? atoi(argv[1]) : 1500;
    struct rlimit z = {0, 0};
    setrlimit(RLIMIT_CORE, &z);
    big = mmap(NULL, 12UL << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (unsigned i = 0; i < sizeof cases / sizeof *cases; i++) {
        if (!cases[i]) continue;
        char b[64];
        out(b, snprintf(b, sizeof b, "@@%u\n", i));
        lines = 0;
        pid_t p = fork();
        if (p == 0) {
            struct itimerval it = {{0, 0}, {limit_ms / 1000, limit_ms % 1000 * 1000}};
            setitimer(ITIMER_VIRTUAL, &it, 0);
            if (getuid() == 0) { if (setgid(65534) || setuid(65534)) {} }
            prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
            prctl(PR_SET_SECCOMP, SECCOMP_MODE_STRICT);
            lines = 0;
            int r = run_case(cases[i]);
            if (r == 1) out("CALLEE-SAVED REGISTER CHANGED\n", 30);
            if (r == 2) out("STACK POINTER CHANGED\n", 22);
            die(0);
        }
        int st = 0;
        if (p < 0 || waitpid(p, &st, 0) < 0) { out("@!internal\n", 11); return 3; }
        lines = 0;
        if (WIFEXITED(st)) out(b, snprintf(b, sizeof b, "@=exit %d\n", WEXITSTATUS(st)));
        else out(b, snprintf(b, sizeof b, "@=signal %d\n", WTERMSIG(st)));
    }
    return 0;
}
