"""C99 beyond (and at the border of) the supported subset: umlcc may refuse such a program, but must not miscompile it."""
import re

from core import *
from batch import Case
import fam_prog

# N: a small number, K: a larger one, C: a letter, O/Q: operators; one shape per line; lines starting with @ are file-scope
SHAPES = r'''
float f; f = N.5; put_i(f * N);
double d; d = K; put_i(d / 2 * 4);
double d = N; put_i(d O 1);
long double d = N; put_i(d);
short s; s = K; put_i(s);
unsigned short s; s = 65000 + N; put_i(s);
unsigned char c; c = 200 + N; put_i(c);
signed char c; c = 200 + N; put_i(c);
const int x = N; put_i(x);
int const x = N; put_i(x);
static int x; x += N; put_i(x);
static int x = N; put_i(x);
static char a[4] = "ab"; put_s(a);
extern int x; put_i(N);
register int x = N; put_i(x);
auto int x = N; put_i(x);
volatile int x; x = N; put_i(x);
signed x; x = -N; put_i(x);
signed int x; x = -N; put_i(x);
signed long x = -N; put_l(x);
inline int x; put_i(N);
_Bool b; b = N; put_i(b);
int x = (N, K); put_i(x);
int x; x = N, put_i(x); put_i(x);
int x; x = (put_i(N), K); put_i(x);
int x = N; put_i((x = K, x + N));
for (int i = 0, j = N; i < j; i++, j--) put_i(i);
for (int i = 0, j = N; i < j; i++) put_i(i);
int i; int j; for (i = 0, j = N; i < j; i++) put_i(i);
int i = 0; do { i++; } while (i < N); put_i(i);
int i = N; do i--; while (i > 0); put_i(i);
goto end; put_i(N); end: put_i(K);
int i = 0; again: i++; if (i < N) goto again; put_i(i);
lab: put_i(N);
int a[] = {N, K, N}; put_i(sizeof(a));
char s[] = "abC"; put_i(sizeof(s));
char s[4] = {"abC"}; put_s(s);
int a[3] = {[1] = N}; put_i(a[1]); put_i(a[0]);
int a[4] = {[2] = N, K}; put_i(a[3]);
struct S { int x; int y; }; struct S s = {.y = N}; put_i(s.y); put_i(s.x);
int* p; p = 0; put_i(p == 0);
int x; int* p = &x; put_i(p == 0); put_i(p != 0);
int x; int* p; p = &x; if (p) put_i(N); put_i(!p);
int x = N; int* p; p = &x; put_i(p && 1); put_i(p || 0); put_i(p ? 1 : 2);
int x = K; /* C */ put_i(x);
int x = N; // C
int x = N; /* ; x = K; */ put_i(x);
int x = N /* C */ + K; put_i(x);
int x = N; x = x /*"*/ + 1; put_i(x);
put_s("a" "C");
put_s("a\x1" "b");
put_s(L"abc" ? "x" : "y");
put_i(L'C');
put_i(u8"x"[0]);
int x = N; switch (x) { case N + 0: put_i(1); break; default: put_i(2); }
int x = N; switch (x) { case (N): put_i(1); break; default: put_i(2); }
int x = -N; switch (x) { case -N: put_i(1); break; default: put_i(2); }
int x = N; switch (x) { case Nu: put_i(1); break; default: put_i(2); }
int x = N; switch (x) { case 0 ... 20: put_i(1); break; default: put_i(2); }
int x = 97; switch (x) { case 'a': put_i(1); break; default: put_i(2); }
int a[N * 3]; put_i(sizeof(a));
int a[N + 1]; put_i(sizeof(a));
int a[Nu]; put_i(sizeof(a));
int a[(N)]; put_i(sizeof(a));
int a[sizeof(int)]; put_i(sizeof a);
int a[sizeof(int) * 2]; put_i(sizeof a);
int n = N; int a[n]; put_i(sizeof(a));
int a[N ? 2 : 3]; put_i(sizeof(a));
put_i(N.5 > 1);
put_i(1e3);
put_i(1e3f);
put_i(.5 + .5);
put_i(N.);
put_i(0x1p3);
put_i(0b101);
put_i(0NN);
put_i(1'000);
int x = {N}; put_i(x);
int x = {N,}; put_i(x);
int a[2][2] = {N,2,3,K}; put_i(a[1][0]); put_i(a[1][1]);
int a[2][2] = {{N},{K}}; put_i(a[1][0]); put_i(a[0][1]);
int a[2] = {N,K,}; put_i(a[1]);
struct { int a; } s; s.a = N; put_i(s.a);
struct { int a; int b; } s = {N, K}; put_i(s.b);
struct S { int x; struct { int y; } t; } s; s.t.y = N; put_i(s.t.y);
struct S { int x; struct { int y; }; } s; s.y = N; put_i(s.y);
union { int a; char c; } u; u.a = 65; put_i(u.c);
union U { int a; char c; }; union U u; u.a = K; put_i(u.a);
int (*f)(int); f = &id_i; put_i((*f)(N)); put_i((**f)(K)); put_i(f(N));
put_i((&id_i)(N));
put_i((*id_i)(N)); put_i((***id_i)(K));
put_i(sizeof("abC"));
put_i("abC"[1]); put_i(1["abC"]);
put_i(*"C"); put_i(*("abC" + 1));
put_s("abC" + 1); put_s(&"abC"[1]); put_s(1 + "abC");
char* p = "abC"; put_s(p); put_i(*++p); put_i(*p++);
int x; x = N; put_i((x)++ + 1); put_i(++(x));
int x; (x) = N; put_i(x); (x) += K; put_i((x));
int a[2]; (a)[1] = N; put_i((a)[1]); put_i(*(a + 1));
int x = N; int* const p = &x; put_i(*p);
const char* p = "C"; put_s(p);
char const* p = "C"; put_s(p);
long int unsigned x; x = N; put_ul(x);
int long x; x = N; put_l(x);
int unsigned x; x = K; put_u(x);
long unsigned x = K; put_ul(x);
long long unsigned int x = K; put_ull(x);
unsigned long int long x; x = N; put_ull(x);
long int long x = N; put_ll(x);
int x, y = N, *p = &y; x = *p; put_i(x);
int *p, x = N; p = &x; put_i(*p);
int x = N, a[2] = {1, K}; put_i(x + a[1]);
int i; for (i = 0; ; ) { if (i > N) break; i++; } put_i(i);
int i = 0; for (;;) { if (++i > N) break; } put_i(i);
enum E { A, B } e = B; put_i(e);
enum E { A, B }; enum E e; e = B; put_i(e); put_i(sizeof(e));
enum { A = -N, B }; put_i(B);
enum { A = 1 << 3, B }; put_i(B);
enum { A = N, B = A, D }; put_i(B); put_i(D);
enum { A = 'a', B }; put_i(B);
enum { A, B, }; put_i(B);
enum E; put_i(N);
typedef int T; { int T = N; put_i(T); }
typedef int T; T x = N; { T y = x; put_i(y); }
typedef int T, *P; T x = N; P p = &x; put_i(*p);
int typedef T; T x = N; put_i(x);
typedef int A[3]; A a; a[2] = N; put_i(a[2]); put_i(sizeof(A));
typedef int (*F)(int); F f; f = id_i; put_i(f(N));
typedef struct { int x; } T; T t; t.x = N; put_i(t.x);
typedef struct S T; struct S { int x; }; T t; t.x = N; put_i(t.x);
typedef enum { X, Y } T; T t; t = Y; put_i(t);
int x = N; put_i(-x--); put_i(x);
int x = N; put_i(- -x); put_i(+x); put_i(!!x); put_i(~~x); put_i(-~x); put_i(~-x); put_i(- + x);
int x = N; int y = 2; int z = x+++y; put_i(x); put_i(z);
int x = N; int y = 2; int z = x---y; put_i(x); put_i(z);
int x = N; int y = 2; put_i(x-- - --y); put_i(x - -y); put_i(x&~y);
put_i(sizeof(char[3])); put_i(sizeof(int[2][3])); put_i(sizeof(int(*)[3])); put_i(sizeof(int*[3]));
put_i(sizeof(int (*)(int))); put_i(sizeof(char*)); put_i(sizeof(unsigned));
int x; put_i(sizeof x); put_i(sizeof(x) + 1); put_i(sizeof x + 1); put_i(sizeof(int) + 1);
char c = 1; put_i(sizeof(c + c)); put_i(sizeof(+c)); put_i(sizeof(c)); put_i(sizeof 'a'); put_i(sizeof(c++)); put_i(c);
int a[3]; put_i(sizeof a / sizeof a[0]); put_i(sizeof(a) / sizeof(*a));
int x = N; if (x) ; else put_i(1); put_i(2);
int x = N; { } ; ; put_i(x); { ; } { { } }
int x = N; x; x + 1; (void)x; put_i(x);
put_i('\x41'); put_i('\101'); put_i('\0'); put_i('\7'); put_i('\377'); put_i('\xff');
put_i('\e');
put_s("\e");
put_s("\u0041");
put_i('\400');
put_i(__LINE__);
put_s(__func__);
put_i(sizeof(void));
put_i(sizeof(id_i));
void* p; int x; x = N; p = &x; int* q; q = p; put_i(*q);
int x = N; void* p = &x; put_i(*(int*)p);
char* p; int x; x = K; p = (char*)&x; put_i(*p);
int x = N; long a = (long)&x; int* p = (int*)a; put_i(*p);
int x = N; put_i(x == N == 1); put_i(1 < 2 < 3); put_i(3 > 2 > 1); put_i(x != 2 == 0);
int i = N; while (i --> 0) put_i(i);
int a[3] = {0}; int* p = a; *p++ = N; *p++ = K; put_i(a[1]); put_i(*--p);
put_i((int)4294967297); put_i(2147483648 > 0); put_i(-2147483648 < 0); put_i(~0u > 0); put_i(-1 < 0u);
struct S { int x; } s, *p; p = &s; p->x = N; put_i((*p).x); put_i((&s)->x);
struct S { int x : 3; } s; s.x = 2; put_i(s.x);
struct S { int a[2]; } s; s.a[1] = N; put_i(s.a[1]); put_i(*(s.a + 1)); put_i(1[s.a]);
struct S { int x; } a[2]; a[1].x = N; put_i(a[1].x); put_i((a + 1)->x); put_i((*(a + 1)).x);
struct S { int x; int y; }; struct S s = {N, K}; struct S t = s; put_i(t.y);
struct S { int x; int y; }; struct S s = {N, K}; struct S t; t = s; put_i(t.y);
struct S { struct S* n; int v; }; struct S a; struct S b; a.n = &b; b.v = N; b.n = &a; put_i(a.n->v); put_i(a.n->n->n->v);
struct S { int x; } s; s.x = N; int* p; p = &s.x; put_i(*p);
struct S { int a[3]; } s; int* p; p = &s.a[1]; *p = N; put_i(s.a[1]);
struct T { int x; }; { struct T { char c; }; put_i(sizeof(struct T)); } put_i(sizeof(struct T));
struct T; put_i(N);
switch (N) { int x; case N: x = K; put_i(x); }
switch (N) put_i(1); put_i(2);
switch (N) case N: put_i(1); put_i(2);
switch (N) default: put_i(1);
switch (N) { case 1: case 2: case 3: put_i(1); default: ; } put_i(K);
switch (N) { default: put_i(0); case 3: put_i(3); break; case 4: put_i(4); }
switch (N) { case 1: { case 2: put_i(2); } case 3: put_i(3); }
switch (N) { case 1: if (0) { case 3: put_i(3); } else put_i(4); case 5: put_i(5); }
int i = 0; switch (N & 1) { case 0: while (i < 3) { case 1: i++; put_i(i); } }
switch ((char)(N + 256)) { case N: put_i(1); break; default: put_i(2); }
switch ((long)N) { case N: put_i(1); break; default: put_i(2); }
if (1) if (0) put_i(1); else put_i(2);
if (N) { } else if (K) put_i(1); else { } put_i(3);
int x = N; int y = x ? x > 2 ? 1 : 2 : 3; put_i(y);
int x = N; x = x ? x : K; put_i(x ?: 3);
int x = ({ N; }); put_i(x);
put_i(N ? 1 : "a" ? 2 : 3);
int x = 1; int y = 2; int* p = N ? &x : &y; put_i(*p);
int x = N; (x ? put_i(1) : put_i(2));
int x = N; typeof(x) y = K; put_i(y);
int x; int y; x = y = N; put_i(x + y); x = (y = K) + 1; put_i(x); x += y -= 3; put_i(x);
unsigned u = 0; u--; put_u(u); put_i(u > 5); put_u(u >> 28); put_i((int)u >> 28);
char c = 100; c += 100; put_i(c); c = c * 2; put_i(c); put_i((char)300); put_c(c++);
long l = K; put_i(l); int i = l * 3; put_i(i); put_l((int)(l << 33 >> 3));
int a[2]; int* p = a; int* q = &a[1]; put_i(q - p); put_i(q > p); put_i(&a[1] == a + 1); put_i((char*)q - (char*)p);
int a[2][3]; int (*p)[3] = a; p[1][2] = N; put_i(a[1][2]); put_i(sizeof(*p)); put_i(sizeof(a[0])); put_i(**a == a[0][0]);
int a[2]; int (*p)[2] = &a; (*p)[1] = N; put_i(a[1]); put_i((*p)[1]); put_i(sizeof(*p)); put_i(*(*p + 1));
int *a[2]; int x = N; a[1] = &x; put_i(*a[1]); put_i(**(a + 1)); put_i(sizeof(a));
char a[2][4] = {"ab", "C"}; put_s(a[0]); put_s(a[1]); put_i(a[1][0]);
char* a[2] = {"ab", "C"}; put_s(a[0]); put_s(a[1]);
int f(int); put_i(N);
int f(int x) { return x; } put_i(f(N));
return;
{ return; } put_i(N);
while (0) put_i(1); put_i(N);
while (1) { if (N) break; else continue; } put_i(N);
for (int i = N; i; i--) { if (i == 2) continue; put_i(i); }
for (int i = 0; i < 2; i++) for (int i = 0; i < 2; i++) put_i(i);
for (int i = 0; i < 2; i++) { int i = N; put_i(i); }
asm("nop"); put_i(N);
__attribute__((unused)) int x = N; put_i(x);
_Static_assert(1, "x"); put_i(N);
int x = N; put_i(_Alignof(int)); put_i(x);
_Alignas(16) int x = N; put_i(x);
int x = _Generic(N, int: 1, default: 2); put_i(x);
int x <: 2 :> = <% N, K %>; put_i(x<:1:>);
put_i(??-N);
int _ = N; put_i(_); int $x = K; put_i($x);
int é = N; put_i(é);
int x = N; x =- 1; put_i(x); x =+ 2; put_i(x); x =* &x; put_i(x);
int x = 12; x /= N; put_i(x); x %= 5; put_i(x); x <<= N; put_i(x); x >>= 1; put_i(x); x &= 6; x |= K; x ^= N; put_i(x);
put_i(x_undeclared_fn(N));
@#define X N|put_i(X);
@#include <stdio.h>|put_i(N);
@#pragma once|put_i(N);
@# 1 "x.c"|put_i(N);
@int @f();|put_i(N);
@int @f(int a, int b);|put_i(N);
@int @f(int, char*);|put_i(N);
@int @f(int a); int @f(int a) { return a + N; }|put_i(@f(K));
@static int @f(int a) { return a + N; }|put_i(@f(K));
@int @f(int a) { return a + N; }|put_i(@f(K));
@int @f(a) int a; { return a + N; }|put_i(@f(K));
@int @f(void) { return N; }|put_i(@f()); put_i(@f() + @f());
@int @f() { return N; }|put_i(@f());
@@f(int a) { return a; }|put_i(N);
@void @f(int n, ...) { put_i(n); }|@f(N, K, 3);
@int @f(int a[3]) { return a[1]; }|int a[3] = {1, N, K}; put_i(@f(a));
@int @f(int a[]) { return a[1]; }|int a[3] = {1, N, K}; put_i(@f(a));
@int @f(int a[2][2]) { return a[1][1]; }|int a[2][2] = {{1, N}, {2, K}}; put_i(@f(a));
@int @f(int g(int)) { return g(N); }|put_i(@f(id_i));
@int @f(int (*g)(int)) { return g(N); }|put_i(@f(id_i)); put_i(@f(&id_i));
@int (*@f(void))(int) { return id_i; }|put_i(@f()(N));
@int (*@f)(int);|@f = id_i; put_i(@f(N)); put_i((*@f)(N));
@int (*@t[2])(int);|@t[1] = id_i; put_i(@t[1](N)); put_i((*@t[1])(K));
@struct @S { int x; long y; }; struct @S @f(int a) { struct @S s; s.x = a; s.y = 1; return s; }|put_i(@f(N).x);
@struct @S { int x; int y; }; int @f(struct @S s) { return s.y; }|struct @S s = {N, K}; put_i(@f(s));
@struct @S { int x; int y; }; int @f(struct @S* s) { return s->y; }|struct @S s = {N, K}; put_i(@f(&s));
@int @g = N;|put_i(@g);
@int @g = -N;|put_i(@g);
@int @g = N + K;|put_i(@g);
@int @g = 'C';|put_i(@g);
@long @g = NLL;|put_l(@g);
@int @x; int* @g = &@x;|*@g = N; put_i(@x);
@int @a[2]; int* @g = @a;|*@g = N; put_i(@a[0]);
@char* @g = "abC";|put_s(@g);
@char @g[4] = "abC"; char @h[3] = "abC"; char @k[8] = "abC";|put_s(@g); put_i(@h[2]); put_i(@k[7]); put_s(@k);
@char @g[] = "abC";|put_s(@g);
@int @g[] = {N, K};|put_i(@g[1]);
@int @g[3] = {N, K};|put_i(@g[1]); put_i(@g[2]);
@int @g[2][2] = {{N}, {1, K}};|put_i(@g[1][1]); put_i(@g[0][1]);
@int @g[2][2] = {N, 1, K};|put_i(@g[1][0]); put_i(@g[1][1]);
@int @g; int @g;|put_i(@g);
@int @g; int @g = N;|put_i(@g);
@extern int @g; int @g = N;|put_i(@g);
@static int @g = N;|put_i(@g);
@const int @g = N;|put_i(@g);
@int @g, @h = N, *@p;|@p = &@h; put_i(@g + *@p);
@int @g = sizeof(int);|put_i(@g);
@int @g = (int)N;|put_i(@g);
@int @g = {N};|put_i(@g);
@enum { @A = N }; int @g = @A; int @a[@A];|put_i(@g); put_i(sizeof(@a));
@struct @S { int x; int y[2]; }; struct @S @g = {N, {1, K}};|put_i(@g.x); put_i(@g.y[1]);
@struct @S { int x; int y[2]; }; struct @S @g = {N, 1, K};|put_i(@g.x); put_i(@g.y[1]);
@struct @S { int x; int y; }; struct @S @g[2] = {{N, K}, {1}};|put_i(@g[0].y); put_i(@g[1].y);
@struct @S { int x; int y; }; struct @S @g[2] = {N, K, 1};|put_i(@g[0].y); put_i(@g[1].x);
@struct @S { char c; int x; }; struct @S @g = {.x = N};|put_i(@g.x);
@typedef int @T; @T @g = N; @T @f(@T a) { @T b = a; return b + @g; }|put_i(@f(K));
@typedef int @F(int); @F @f; int @f(int a) { return a; }|put_i(@f(N));
@typedef int @F(int);|@F* f = id_i; put_i(f(N));
@struct @S { int x; } @s;|@s.x = N; put_i(@s.x);
@struct @S { int x; } @s = {N}, *@p;|@p = &@s; put_i(@p->x);
@struct { int x; } @s;|@s.x = N; put_i(@s.x);
@enum @E { @A, @B } @e;|@e = @B; put_i(@e);
@struct @S; struct @S { int x; }; struct @S @s;|@s.x = N; put_i(@s.x);
@struct @A; struct @B { struct @A* a; }; struct @A { int v; };|struct @A a; struct @B b; b.a = &a; a.v = N; put_i(b.a->v);
@;|put_i(N);
@int @f(int a) { if (a > 2) return 1; }|@f(1); put_i(@f(N + 3));
@int @f(int a) { return a; };|put_i(@f(N));
@int @f(int const a) { return a; }|put_i(@f(N));
@int @f(register int a) { return a; }|put_i(@f(N));
@unsigned @f(unsigned a) { return a; } long @g(long unsigned a) { return a; }|put_u(@f(N)); put_l(@g(K));
@char @f(int a) { return a; }|put_i(@f(300 + N)); put_c(@f(K));
@int @f(char a) { return a; }|put_i(@f(300 + N)); put_i(@f(K));
@long @f(int a) { return a; }|put_l(@f(-N)); put_l(@f(4294967296 + N));
@int @f(long a) { return a; }|put_i(@f(4294967296 + N)); put_i(@f(-1));
@int main(int argc, char** argv);|put_i(N);
'''
SH = [l for l in SHAPES.split('\n') if l.strip()]


def instantiate(src, shape):
    n, k = src.int(1, 9), src.int(10, 99999)

    def sub(m):
        w = m.group(0)
        return {'N': str(n), 'K': str(k), 'C': src.choice('CXz7'), 'O': src.choice(['+', '-', '*', '<', '>', '=='])}[w]
    # placeholders are single capitals that stand alone or touch digits and suffix letters
    return re.sub(r"(?<![A-Za-z_@0-9'\"\\])N(?=[0-9ulLU.]|\b)|(?<![A-Za-z_@'\"\\])\bK\b|(?<=b)C(?=['\"])|(?<= )C(?= )|(?<=')C(?=')|(?<=\")C(?=\")|(?<=a)C(?=')|(?<= )O(?= )|(?<=0)N|(?<=N)N", sub, shape)


def beyond(src):
    s = instantiate(src, SH[src.draw(len(SH))])
    head = ''
    if s.startswith('@'):
        head, s = s[1:].split('|', 1)
    body = s
    k = src.draw(6)
    v = src.draw(100)
    if k == 1:
        body = 'put_i(%d); %s\nput_i(%d);' % (v, s, v + 1)
    elif k == 2:
        body = 'int q = %d; { %s\n} put_i(q);' % (v, s)
    elif k == 3:
        body = 'for (int q = 0; q < 2; q++) { %s\nput_i(q); }' % s
    elif k == 4:
        body = 'if (tr(%d, 1)) { %s\n} else put_i(0);' % (v, s)
    t = '%s\nvoid @main(void) { %s\n}\n' % (head, body)
    return t, s if not head else head


TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|@?[A-Za-z_]\w*|\d\w*|\s+|[^\w\s]', re.S)
QUALS = ['const', 'volatile', 'static', 'register', 'auto', 'inline', 'extern', 'signed', 'short', '__extension__', 'restrict', '_Noreturn', '_Thread_local', '__attribute__((unused))', '__attribute__((aligned(32)))',
         '_Alignas(16)', '__inline', '__volatile__', '__const']
DIGRAPH = {'[': '<:', ']': ':>', '{': '<%', '}': '%>'}
TRIGRAPH = {'[': '??(', ']': '??)', '{': '??<', '}': '??>', '|': '??!', '~': '??-', '^': "??'"}


def decorate(src):
    """a valid random program with one thing in it that C gives a meaning and umlcc does not implement"""
    import fam_fuzz
    k = src.draw(len(fam_fuzz.ALL) + 4)
    c = fam_fuzz.ALL[k][1](src) if k < len(fam_fuzz.ALL) else Case(fam_prog.Prog(src).build())
    if c.extra is not None or c.um2 is not None or '@{' in c.text:
        c = Case(fam_prog.Prog(src).build())
    text = c.text
    toks = TOK.findall(text)
    words = [i for i, t in enumerate(toks) if re.match(r'[A-Za-z_]', t)]
    nums = [i for i, t in enumerate(toks) if t[0].isdigit()]
    k = src.draw(12)
    if k < 3:                                   # a directive that changes what follows
        lines = text.split('\n')
        at = src.draw(len(lines))
        rest = TOK.findall('\n'.join(lines[at:]))
        ids = [t for t in rest if re.match(r'@?[A-Za-z_]', t)] or ['put_i']
        num = [t for t in rest if t[0].isdigit()] or ['1']
        a = src.choice(ids)
        hash_ = src.choice(['#', '#', '#', ' #', '\t#', '# ', '%:', '??=', '/**/#'])
        d = src.choice(['define %s %s' % (a, src.choice(ids + num)), 'define %s' % a, 'define %s(x) x' % a, 'define put_i put_l', 'define int long', 'define if while', 'if 0', 'ifdef __GNUC__', 'ifndef __GNUC__', 'include "x"',
                        'error stop', 'line 5', 'pragma pack(1)', 'undef X', '', '7', 'define return put_i(3); return', 'define id_i(x) (x + 1)', 'define ; ;', 'assert x', 'warning x'])
        lines.insert(at, hash_ + d)
        if d.startswith('if'):
            lines.insert(at + 1 + src.draw(len(lines) - at), '#endif')
            if src.bool(1, 3):
                lines.insert(at + 1 + src.draw(max(1, len(lines) - at - 2)), '#else')
        return Case('\n'.join(lines)), 'directive'
    if k == 3:                                  # a comment that hides a part of the program
        i = src.draw(len(toks))
        if src.bool():
            j = i + src.draw(min(12, len(toks) - i))
            toks.insert(j, src.choice(['*/', ' **/', '*/ ']))
            toks.insert(i, src.choice(['/*', ' /* ', '/**', '/*/', '/* "', "/* '"]))
        else:
            toks.insert(i, src.choice(['//', '// ', ' //"', '///', '//*']))
        return Case(''.join(toks)), 'comment'
    if k == 4:                                  # a spliced line
        i = src.draw(len(text))
        return Case(text[:i] + src.choice(['\\\n', '??/\n', '\\\r\n']) + text[i:]), 'splice'
    if k == 5 and words:                        # a qualifier, storage class or attribute in front of a word or behind it
        i = src.choice(words)
        q = src.choice(QUALS)
        toks[i] = q + ' ' + toks[i] if src.bool(2, 3) else toks[i] + ' ' + q
        return Case(''.join(toks)), 'specifier'
    if k == 6:
        m = src.choice([DIGRAPH, TRIGRAPH])
        js = [i for i, t in enumerate(toks) if t in m]
        if js:
            i = src.choice(js)
            toks[i] = m[toks[i]]
        return Case(''.join(toks)), 'digraph'
    if k == 7:
        js = [i for i, t in enumerate(toks) if t[0] == '"']
        if js:
            i = src.choice(js)
            t = toks[i]
            toks[i] = src.choice([t + ' "x"', '"" ' + t, t + t, 'L' + t, 'u8' + t, t + '"\\0y"', '"a"\n' + t, '(' + t + ')', t + '[0]', '&' + t + '[0]'])
        return Case(''.join(toks)), 'string'
    if k == 8 and nums:
        i = src.choice(nums)
        t = toks[i]
        forms = [t + '.0', t + 'e0', t + '.', '.' + t, '0' + t, '0x' + t[:6], '0b' + t, t + 'u', t + 'LL', t + 'uLl', t + 'f', "1'" + t, t + 'll', t + 'ULL', t + '.5f', "L'a'", "'\\0'", t + 'i', '0' + t + 'u', '0X' + t[:6] + 'l', '0' + t + 'l', '(' + t + ')', '((' + t + '))', t + 'lu']
        lo = max([j for j in range(i) if toks[j] in ';{}'] + [0])
        hi = min([j for j in range(i, len(toks)) if toks[j] in ';{}'] + [len(toks)])
        if '[' in toks[lo:hi] or '*' in toks[lo:hi] or '&' in toks[lo:hi]:
            # an unsigned number may turn an offset of -1 into one of 2^32 - 1, outside of the object: undefined
            forms = [f for f in forms if 'u' not in f.lower()]
        toks[i] = src.choice(forms)
        return Case(''.join(toks)), 'number'
    if k == 9:                                  # another operator, separator or form of statement
        i = src.draw(len(toks))
        a, b = src.choice([(';', ','), (',', ';'), ('+', ','), ('?', '?:'), ('while', 'do'), ('for', 'while'), ('=', '=='), ('.', '->'), ('int', 'float'), ('int', 'double'), ('int', '_Bool'), ('char', 'unsigned char'),
                           ('char', 'signed char'), ('long', 'short'), ('int', 'short int'), ('struct', 'union'), ('int', 'signed'), ('char', 'short'), ('long', 'double'), ('long', 'long double'), ('break', 'continue'),
                           ('int', 'const int'), ('int', 'static int'), ('&', '&&'), ('|', '||'), ('<', '<='), ('+', '- -'), (')', ',)'), (']', ']]'), ('struct', 'struct __attribute__((packed))'), ('sizeof', '_Alignof'), ('(void)', '()'), ('0', 'NULL')])
        js = [i for i, t in enumerate(toks) if t == a]
        if js:
            toks[src.choice(js)] = b
        return Case(''.join(toks)), 'replace'
    if k == 10:                                 # labels, jumps, declarations and empty things at odd places
        js = [i for i, t in enumerate(toks) if t in (';', '{', '}')]
        if js:
            i = src.choice(js)
            toks[i] += src.choice([' lab: ', ' goto lab; lab: ; ', ' ; ', ' {} ', ' int; ', ' struct Zz; ', ' extern int zz; ', ' typedef int Zz; ', ' static int zz; zz++; put_i(zz); ', ' do put_i(8); while (0); ', ' asm("nop"); ', ' case 3: ', ' default: ',
                                   ' break; ', ' continue; ', ' return; ', ' _Static_assert(1, ""); ', ' int zz(void); ', ' enum { ZzA = 5 }; ', ' float zf = 2.5; put_i(zf * 2); ', ' __asm__(""); ', ' void zz(void) { } ', ' put_i(1), put_i(2); ',
                                   ' int zz[] = {1, 2}; ', ' for (;;) break; ', ' switch (1) ; ', ' if (0) ; ', ' while (0) ; ', ' register int zr; ', ' "x"; ', ' 1; ', ' char zs[] = "abc"; put_i(sizeof(zs)); ', ' int zv = 3, zw = zv; put_i(zw); ',
                                   ' struct { int a; } zu; zu.a = 3; put_i(zu.a); ', ' union { int a; char b; } zu; zu.a = 65; put_i(zu.b); ', ' int zn = 2; int za[zn]; za[1] = 3; put_i(za[1]); '])
        return Case(''.join(toks)), 'statement'
    i = src.draw(len(toks) + 1)
    toks.insert(i, src.choice(['\f', '\v', '\r', '\0', '\x1a', '\xa0', '`', '$', '@', '\\', '#', '##', '...', '\x7f', ';;', '()', '?', ':', '::', '->', '=>', '<>']))
    return Case(''.join(toks)), 'insert'


HN = [1, 2, 3, 4, 7, 8, 255, 256, 4096, 46340, 46341, 65535, 65536, 65537, 1 << 20, 1 << 28, (1 << 28) + 1, 1 << 29, (1 << 29) + 1, 1 << 30, (1 << 31) - 1, (1 << 31) - 2, (1 << 31) - 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4]
HT = [('char', 1), ('int', 4), ('long', 8), ('unsigned int', 4), ('char*', 8)]


def huge_types(src):
    """types whose sizes reach, pass or wrap around 2^31 and 2^32: to be refused, or laid out and addressed as C says"""
    pre, obs, n = [], [], [0]

    def name():
        n[0] += 1
        return '@H%d' % n[0]

    def factor(limit, aim):
        fit = [h for h in HN if h <= limit] or [1]
        if aim and src.bool(2, 3):
            # a size at the limits of 31 or 32 bits, given what is below
            a = src.choice([(1 << 31) - 1, 1 << 31, 1 << 32, (1 << 31) - 64, (1 << 32) + 8, 1 << 30]) // aim + src.int(-1, 1)
            if 1 <= a <= limit:
                return a
        return src.choice(fit)

    CAP = src.choice([5 << 30, (1 << 31) - 80, (1 << 31) - 300, 1 << 31])
    types = []                                    # (declarator prefix, declarator suffix, size, alignment, path of a scalar: list of (kind, ...))
    for _ in range(src.int(1, 3)):
        k = src.draw(4)
        base, sz = src.choice(HT)
        if types and src.bool(1, 2):
            bt = src.choice(types)
        else:
            bt = (base, '', sz, min(sz, 8), '')
        if k < 2:                                 # an array type by typedef
            dims = [factor(CAP // bt[2], bt[2])]
            if src.bool(1, 3) and dims[0] * bt[2] < CAP // 2:
                dims.insert(0, factor(CAP // bt[2] // dims[0], bt[2] * dims[0]))
            t = name()
            size = bt[2]
            for d in dims:
                size *= d
            pre.append('typedef %s %s%s%s;' % (bt[0], t, ''.join('[%d]' % d for d in dims), ''))
            path = ''.join('[%dL]' % src.choice([0, d - 1, d // 2, src.draw(d)]) for d in dims) + bt[4]
            types.append((t, '', size, bt[3], path))
        else:                                     # a structure with arrays between smaller members
            t = name()
            left, mem, off, al, pick = CAP, [], 0, 1, None
            for i in range(src.int(1, 4)):
                mb = src.choice(types) if types and src.bool(1, 2) else bt if src.bool(1, 3) else (lambda b: (b[0], '', b[1], b[1], ''))(src.choice(HT))
                if mb[2] > left:
                    continue
                d = factor(max(1, left // mb[2]), mb[2]) if src.bool(1, 2) else 0
                sz = mb[2] * (d or 1)
                left -= sz + 16
                mem.append('%s m%d%s;' % (mb[0], i, '[%d]' % d if d else ''))
                off = -(-off // mb[3]) * mb[3] + sz
                al = max(al, mb[3])
                if pick is None or src.bool():
                    pick = '.m%d%s%s' % (i, '[%dL]' % src.choice([0, d - 1, src.draw(d)]) if d else '', mb[4])
                if left <= 0:
                    break
            if not mem:
                mem, off, pick = ['int m0;'], 4, '.m0'
                al = 4
            pre.append('struct %s { %s };' % (t, ' '.join(mem)))
            types.append(('struct ' + t, '', -(-off // al) * al, al, pick))
    body = []
    for i, (t, _, size, al, path) in enumerate(types):
        if i and src.bool(1, 3):
            continue
        # the object and the one behind it stay within the area
        p = 'p%d' % i
        body.append('%s* %s; %s = (%s*)big_area();' % (t, p, p, t))
        e = '(*%s)%s' % (p, path)
        # the type of the scalar at the end of the path is not tracked: addresses are observed, and characters through them
        obs.append('put_l((char*)&%s - (char*)%s);' % (e, p))
        obs.append('put_l((char*)(%s + 1L) - (char*)%s); put_i(*((char*)&%s) = %d);' % (p, p, e, src.int(1, 100)))
        obs.append('put_i(*((char*)%s + ((char*)&%s - (char*)%s)));' % (p, e, p))
        if src.bool(1, 2):
            obs.append('put_l(sizeof(%s));' % src.choice([t, '*' + p, e, t + '*']))
        if size < (1 << 31) + 64 and src.bool(1, 2):
            # as a local variable of a function that does not run
            pre.append('int @big%d(int a) { %s%s v; int w; w = a; return w + %d; }' % (i, src.choice(['', 'int k; k = a; ', 'char c[3]; c[0] = 1; ', '%s u; ' % src.choice(types)[0]]), t, i))
            if src.bool(1, 2):
                body.append('if (tr(9, 0)) put_i(@big%d(1));' % i)
    if src.bool(1, 4):
        d = src.choice(HN)
        pre.append('extern_probe'.replace('extern_probe', 'int @probe(int (*a)[%d]) { return (*a)[0]; }' % d))
        body.append('{ int (*a)[%d]; a = (int (*)[%d])big_area(); (*a)[0] = 7; put_i(@probe(a)); }' % (d, d) if d < 1 << 31 else 'put_i(1);')
    return Case('%s\nvoid @main(void) {\n%s\n%s\n}\n' % ('\n'.join(pre), '\n'.join(body), '\n'.join(obs)))


def case(src):
    k = src.draw(10)
    if k == 9:
        c = huge_types(src)
        c.feats = ['huge types']
        return c
    if k < 4:
        c, what = decorate(src)
        c.feats = ['decorated:' + what]
        return c
    t, s = beyond(src)
    if src.bool(1, 4):
        p = fam_prog.Prog(src).build().replace('@main', '@inner')
        t = p + t.replace('void @main(void) {', 'void @main(void) { @inner();', 1)
    return Case(t)
