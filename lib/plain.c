/* Plain driver for one case, built with a sanitizer together with the case: used to decide whether a generated
 * program is defined at all before a difference is reported. */
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
static int lines;
static void line(void) { putchar('\n'); if (++lines > 20000) { fflush(stdout); _exit(97); } }
static void s(char t, long long v) { printf("%c %lld", t, v); line(); }
static void u(char t, unsigned long long v) { printf("%c %llu", t, v); line(); }
void put_c(char x) { s('c', x); }
void put_i(int x) { s('i', x); }
void put_u(unsigned x) { u('u', x); }
void put_l(long x) { s('l', x); }
void put_ul(unsigned long x) { u('L', x); }
void put_ll(long long x) { s('q', x); }
void put_ull(unsigned long long x) { u('Q', x); }
void put_s(char* p) {
    printf("s ");
    for (int i = 0; i < 4000 && p[i]; i++) {
        unsigned char c = (unsigned char)p[i];
        if (c >= 32 && c < 127 && c != '\\') putchar(c);
        else printf("\\%02x", c);
    }
    line();
}
void put_fill(char* p, int n, int k) { for (int i = 0; i < n; i++) p[i] = (char)(k ? k + i * 7 : 0); }
char* big_area(void) { return mmap(NULL, 12UL << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
void put_mem(char* p, int n) { printf("m "); for (int i = 0; i < n && i < 8000; i++) printf("%02x", (unsigned char)p[i]); line(); }
int tr(int k, int v) { s('t', k); return v; }
long trl(int k, long v) { s('t', k); return v; }
char trc(int k, char v) { s('t', k); return v; }
char id_c(char x) { return x; }
int id_i(int x) { return x; }
unsigned id_u(unsigned x) { return x; }
long id_l(long x) { return x; }
unsigned long id_ul(unsigned long x) { return x; }
long long id_ll(long long x) { return x; }
unsigned long long id_ull(unsigned long long x) { return x; }
int call_i(int (*f)(int), int a) { return f(a); }
long call_l(long (*f)(long), long a) { return f(a); }
void c0_main(void);
int main(void) { alarm(10); c0_main(); fflush(stdout); return 0; }
