"""Generator of deeply nested programs: a repeated nest of expressions, statements, declarators, initialisers, structures or
parameters, closed properly, left open, or broken somewhere inside."""

# (opening, closing) around an expression; the names are declared by HEAD
EXPR = [('(', ')'), ('-', ''), ('- ', ''), ('+ ', ''), ('~', ''), ('!', ''), ('(int)', ''), ('(char)(', ')'), ('f(', ')'), ('f(1 + ', ')'), ('g(1, ', ', 2)'), ('a[', ']'),
        ('1 + ', ''), ('', ' + 1'), ('', ' - 2'), ('', ' * 3'), ('', ' & 7'), ('', ' | x'), ('x ^ (', ')'), ('', ' << 1'), ('1 ? 1 : ', ''), ('x ? ', ' : 1'), ('', ' ? 2 : 3'),
        ('x = ', ''), ('x += ', ''), ('a[x = ', ']'), ('1 && ', ''), ('', ' && 1'), ('', ' || x'), ('*&x + ', ''), ('', ' == 1'), ('', ' < x'), ('', ' % 5'),
        ('sizeof ', ''), ('sizeof(', ')'), ('*(p + ', ')'), ('*(', ' + p)'), ('++', ''), ('--*&', ''), ('*&', ''), ('(*h)(', ')')]
CORE = ['1', 'x', '0', 'x', 's.n', 'a[1]', "'c'", 'f(2)']
POST = [('.n', ''), ('->n', ''), ('[0]', ''), ('(1)', ''), ('++', ''), ('--', '')]
STMT = [('{', '}'), ('{ int y; y = 1; ', '}'), ('if (x) ', ''), ('if (x) ; else ', ''), ('if (x) { ', '} else x = 2;'), ('while (x) ', ''), ('while (x--) { ', '}'), ('for (;;) ', ''),
        ('for (int i = 0; i < 2; i++) ', ''), ('for (;;) { ', 'break; }'), ('switch (x) ', ''), ('switch (x) { case 1: ', ' }'), ('default: ', ''), ('switch (x) { default: ', ' break; case 2: ; }')]
SCORE = ['x = 1;', ';', 'break;', 'return 1;', '{}', 'f(x);', 'x', '', 'case 3: ;', 'continue;']
DECL = [('(', ')'), ('*', ''), ('', '[1]'), ('(*', ')'), ('(*', ')[1]'), ('(*', ')(int)'), ('(*', ')(void)'), ('', '[sizeof(int)]'), ('*(', ')')]
PARAM = [('int (', ')'), ('int (*)(', ')'), ('int n(', ')'), ('int (*n)(', ')'), ('int, char (', ')'), ('int *(', ', int)'), ('char (*)[1], int (', ')')]
TYPE = [('(int (*)(', '))0'), ('sizeof(int (*)[', '])'), ('(int (*)[', '])p'), ('sizeof(struct { int m[', ']; })')]
INIT = [('{', '}'), ('{', ', 1}'), ('{1, ', '}'), ('{', ',}')]
STRUCT = [('struct { int m; ', '} k; '), ('struct { char m[3]; ', '} k; '), ('struct { ', '} *k; '), ('struct { ', '} *k, *l; '), ('struct { ', '} k[1]; '), ('struct { ', '} (*k)(void); int l; ')]
HEAD = 'struct S { struct S* n; int v; }; int a[3]; int* p; int (*h)(int); int f(int v) { return v; } int g(int u, int v, int w) { return u; }\n'


def body(text):
    return HEAD + 'int main(void) { int x; struct S s; x = 1; %s return x; }\n' % text


def nest(src, opts, core, n):
    """n levels of a repeated pattern of one to three of the opts"""
    pat = [src.choice(opts) for _ in range(src.int(1, 3) if src.bool(2, 3) else 1)]
    lo = ''.join(o for o, _ in pat)
    hi = ''.join(c for _, c in reversed(pat))
    n = max(1, n // len(pat))
    lo, hi = lo * n, hi * n
    k = src.draw(8)
    if k == 0:
        hi = ''                                 # never closed
    elif k == 1:
        hi = hi[:len(hi) // 2]
    elif k == 2:
        lo = lo[len(lo) // 2:]                  # closed too often
    elif k == 3:
        core = src.choice(['', ')', ']', '}', ';', 'int', '$', '"', 'zz', '1 1', '(', '{', ','])
    elif k == 4:
        i = len(lo) * src.int(1, 7) // 8
        lo = lo[:i] + src.choice([' @ ', ') ', '} ', '; ', 'int ', '1 ', 'zz ', '{ ']) + lo[i:]
    return lo, core, hi


def depth(src):
    return src.choice([20, 60, 200, 600, 1500, 2500, 5000, 9000, 10000, 11000, 20000, 60000, 150000, 400000]) * src.int(6, 14) // 10


def deep(src):
    n = depth(src)
    k = src.draw(11)
    if k < 3:
        t = ''.join(nest(src, EXPR, src.choice(CORE), n))
        t = src.choice(['x = %s;', 'return %s;', '%s;', 'if (%s) x = 2;', 'while (%s) break;', 'int y = %s;', 'switch (1) { case %s: ; }', 'f(%s);', 'int y[%s];', 'for (%s; 0; ) ;']) % t
        return body(t)
    if k == 3:
        lo, c, hi = nest(src, POST, '', min(n, 1200) if src.bool(3, 4) else n + 20000)
        return body('x = %s%s%s%s;' % (src.choice(['s', 'p', 'f', 'a', 'x', '(&s)']), lo, c, hi))
    if k < 6:
        # long chains of statements take quadratic time below the limit
        return body(''.join(nest(src, STMT, src.choice(SCORE), n)))
    if k == 6:
        lo, c, hi = nest(src, DECL, src.choice(['d', 'd', '']), n)
        t = src.choice(['int ', 'char ', 'struct S ', 'typedef int ']) + lo + c + hi
        return HEAD + t + src.choice([';', ' = 0;', ' {}', '(void);']) + '\nint main(void) { return 0; }\n' if src.bool() else body(t + ';')
    if k == 7:
        return HEAD + 'int d(' + ''.join(nest(src, PARAM, src.choice(['int', 'void', 'int q', '']), n)) + src.choice([');', ') { return 0; }', ') = 1;']) + '\nint main(void) { return 0; }\n'
    if k == 8:
        t = ''.join(nest(src, INIT, src.choice(['1', 'x', '"ab"', '']), n))
        lim = min(n, 400000)
        dims = '[1]' * (lim if src.bool(1, 4) else 1)
        return (body('int d%s = %s;' % (dims, t)) if src.bool() else HEAD + 'int d%s = %s;\nint main(void) { return 0; }\n' % (dims, t))
    if k == 9:
        t = ''.join(nest(src, STRUCT, src.choice(['int e;', '', 'int']), n))
        return body(t) if src.bool() else HEAD + t + '\nint main(void) { return 0; }\n'
    return body('x = %s;' % ''.join(nest(src, TYPE, src.choice(['1', 'int', '']), n)))


def typechain(src):
    """types built from earlier types, each named several times by the next"""
    n = src.choice([3, 6, 10, 16, 24, 40])
    out = ['typedef struct { int a; char b; } T0;', 'typedef int (*F0)(int);']
    size = [8]
    for i in range(1, n):
        ms = []
        sz = 0
        for j in range(src.int(1, 6)):
            k = max(0, i - src.choice([1, 1, 1, 2, 3, i]))
            f = src.draw(4)
            if f == 3 and sz + size[k] > 100000:
                f = 0
            if f < 2:
                ms.append('T%d* m%d;' % (k, j))
                sz += 8
            elif f == 2:
                ms.append('%s m%d[%d];' % ('T%d*' % k, j, src.int(1, 3)))
                sz += 24
            else:
                ms.append('T%d m%d;' % (k, j))
                sz += size[k] + 8
        size.append(sz)
        tag = ' ' if src.bool(3, 4) else ' S%d ' % i
        out.append('typedef struct%s{ %s } T%d;' % (tag, ' '.join(ms), i))
        if src.bool(1, 8):
            out.append('T%d g%d;' % (src.draw(i + 1), i))
        if src.bool(1, 8):
            out.append('int f%d(T%d* p, T%d* q) { return p == q; }' % (i, i, i))
    k = n - 1
    out.append('int main(void) { T%d x; T%d* p; T%d* q; p = &x; q = p; %s return sizeof(x) == 0; }' % (
        k, k, k, src.choice(['', 'if (p == q) q = &x;', 'p = p + 1; if (p - q) q = p;', 'if (sizeof(*p) == sizeof(x)) p = &x;', 'T%d* r[2]; r[0] = p; r[1] = r[0];' % k])))
    return '\n'.join(out) + '\n'


DEEP = [('deep', deep), ('deep', deep), ('deep', deep), ('typechain', typechain)]
