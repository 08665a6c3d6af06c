"""Ill-formed programs: exactly one violated rule of the C grammar or constraint, placed in a random valid context.
Each generator returns Fault(category, bad program, good program): the good one is the same program without the fault."""
import re

import fam_fuzz
import fam_init
import harness
from core import *
from fam_ctrl import Ctrl
from fam_fuzz import KEYWORDS, tokens


class Fault:
    def __init__(self, cat, bad, good):
        self.cat, self.bad, self.good = cat, bad, good


# ------------------------------------------------------------------ environment of typed names
# types: ('i', key) integer; ('p', T); ('s', tag); ('a', n, T); ('f', ret, [params]); ('v',)
HEAD = """struct @S { int m; char n[3]; struct @S* q; long w[2]; };
struct @R { long z; char m2; int* ip; };
struct @Inc;
enum @E { @EA, @EB = 7, @EC };
typedef int @TI;
typedef struct @S @TS;
int @fn2(int a, char* b) { return a; }
int @fn0(void) { return 1; }
void @vf(int a) { ; }
long @fn8(int a, long b, char c, int* d, unsigned int e, struct @S* f, char* g, int h) { return b; }
struct @S* @fs(void);
int* @fip(int a);
char* @fcp(void);
"""


def tname(T, inner=''):
    k = T[0]
    if k == 'i':
        return NAME[T[1]] + (' ' + inner if inner else '')
    if k == 's':
        return 'struct @' + T[1] + (' ' + inner if inner else '')
    if k == 'v':
        return 'void' + (' ' + inner if inner else '')
    if k == 'p':
        n = '*' + inner
        if T[1][0] in 'af':
            n = '(' + n + ')'
        return tname(T[1], n)
    if k == 'a':
        return tname(T[2], '%s[%d]' % (inner, T[1]))
    if k == 'f':
        return tname(T[1], '%s(%s)' % (inner, ', '.join(tname(p) for p in T[2]) or 'void'))
    raise ValueError(T)


def rand_ptr(src, d=2):
    k = src.draw(10 if d > 0 else 7)
    if k < 5:
        return ('p', ('i', src.choice(ITYPES)))
    if k < 7:
        return ('p', ('s', src.choice('SR')))
    if k < 8:
        return ('p', rand_ptr(src, d - 1))
    if k < 9:
        return ('p', ('a', src.int(1, 4), ('i', src.choice(ITYPES))))
    return ('p', ('f', ('i', src.choice(ITYPES)), [('i', src.choice(ITYPES)) for _ in range(src.draw(3))]))


def rand_scalar(src):
    return ('i', src.choice(ITYPES)) if src.bool() else rand_ptr(src)


def rand_any(src):
    k = src.draw(8)
    if k == 0:
        return ('s', src.choice('SR'))
    return rand_scalar(src)


def assignable(dst, srcT):
    """C's constraint for simple assignment (no null constants, no void pointers are generated)"""
    if dst[0] == 'i' and srcT[0] == 'i':
        return True
    return dst == srcT


class Names:
    """declares variables on demand, in random storage"""

    def __init__(self, src):
        self.src = src
        self.glob, self.params, self.loc = [], [], []
        self.k = 0

    def fresh(self):
        self.k += 1
        return 'n%d' % self.k

    def var(self, T):
        v = self.fresh()
        where = self.src.draw(3)
        if T[0] == 'a' or where == 0:
            self.loc.append(tname(T, v) + ';')
        elif where == 1:
            v = '@' + v
            self.glob.append(tname(T, v) + ';')
        else:
            self.params.append(tname(T, v)) if T[0] not in 'sa' else self.loc.append(tname(T, v) + ';')
        return v

    def expr(self, T, lval=False):
        """an expression of type T"""
        src = self.src
        k = src.draw(8)
        if k < 3:
            return self.var(T)
        if k == 3:
            return '*' + self.var(('p', T))
        if k == 4:
            return '%s[%s]' % (self.var(('p', T)), src.choice(['0', '1', self.var(('i', 'i'))]))
        if k == 5:
            v = self.fresh()
            self.glob.append('struct @H%s { char pad; %s; };' % (v, tname(T, 'mem')))
            if src.bool():
                self.loc.append('struct @H%s %s;' % (v, v))
                return v + '.mem'
            self.loc.append('struct @H%s* %s;' % (v, v))
            return v + '->mem'
        if k == 6:
            return '(%s)' % self.expr(T, lval)
        if lval or T[0] == 's':
            return self.var(T)
        if T[0] == 'i':
            return src.choice(['%s + 0', '-%s', '~%s']) % self.var(T) if promote(T[1]) == T[1] else self.var(T)
        f = self.fresh()
        self.glob.append(tname(('f', T, []), '@' + f) + ';')
        return '@%s()' % f


BENIGN = ['put_i(1);', ';', '{ }', 'put_i(2 + 3);', '{ ; }', 'if (1) put_i(4);']


def context(src, names, bad, good, loops=True, switches=True, ret='void', wrap_stmt=True):
    """bad/good: statements; -> (bad program, good program)"""
    pre, post = [], []
    depth = src.draw(4) if wrap_stmt else 0
    l = names.var(('i', 'i'))
    openers = [('{ ', ' }'), ('if (%s) { ' % l, ' }'), ('if (%s) ; else { ' % l, ' }'), ('if (%s) { ' % l, ' } else { put_i(9); }')]
    if loops:
        openers += [('while (%s) { ' % l, ' }'), ('for (; %s; ) { ' % l, ' }'), ('for (int k = 0; k < 3; k++) { ', ' }')]
    if switches:
        openers += [('switch (%s) { case 1: put_i(1); default: { ' % l, ' } }'), ('switch (%s) { case 3: { ' % l, ' } break; case 4: ; }')]
    for _ in range(depth):
        a, b = src.choice(openers)
        filler = src.choice(BENIGN) + ' ' if src.bool(1, 3) else ''
        pre.append(a + filler)
        post.insert(0, (' ' + src.choice(BENIGN) if src.bool(1, 3) else '') + b)
    b1 = ' '.join(src.choice(BENIGN) for _ in range(src.draw(3)))
    b2 = ' '.join(src.choice(BENIGN) for _ in range(src.draw(3)))
    rets = {'void': '', 'int': ' return 0;'}[ret]
    others0 = [fam_fuzz.ALL[src.draw(len(fam_fuzz.ALL))][1](src).at(50 + i) for i in range(src.weighted([(3, 0), (2, 1), (1, 2)]))]
    others1 = [fam_fuzz.ALL[src.draw(len(fam_fuzz.ALL))][1](src).at(60 + i) for i in range(src.weighted([(4, 0), (1, 1)]))]

    def build(st):
        return (harness.PRELUDE + '\n'.join(others0) + '\n' + (HEAD + '\n'.join(names.glob) + '\n%s @ctx(%s) {\n%s\n%s\n%s%s%s\n%s\n%s\n}\n' % (
            ret, ', '.join(names.params[:]) or 'void', '\n'.join(names.loc), b1, ''.join(pre), st, ''.join(post), b2, rets)).replace('@', 'c0_') +
            '\n'.join(others1) + '\n')
    return build(bad), build(good)


def in_file(src, bad, good):
    """bad/good: file-scope text"""
    others0 = [fam_fuzz.ALL[src.draw(len(fam_fuzz.ALL))][1](src).at(50 + i) for i in range(src.weighted([(3, 0), (2, 1)]))]
    others1 = [fam_fuzz.ALL[src.draw(len(fam_fuzz.ALL))][1](src).at(60 + i) for i in range(src.weighted([(3, 0), (1, 1)]))]

    def build(x):
        return harness.PRELUDE + '\n'.join(others0) + '\n' + HEAD.replace('@', 'c0_') + x.replace('@', 'c0_') + '\n' + '\n'.join(others1) + '\n'
    return build(bad), build(good)


# ------------------------------------------------------------------ categories

def incompatible(src):
    while True:
        a, b = rand_any(src), rand_any(src)
        if not assignable(a, b):
            return a, b
        if src.replay is not None and len(src.log) > 3000:
            return ('p', ('i', 'i')), ('p', ('i', 'c'))


def f_convert(src):
    """assignment, initialisation, argument, return of an incompatible type"""
    n = Names(src)
    a, b = incompatible(src)
    good_e = n.expr(a) if a[0] != 's' else None
    bad_e = n.expr(b)
    k = src.draw(5)
    if a[0] == 's' and k in (1, 3, 4):
        k = 0
    if k == 0:
        l = n.expr(a, True)
        return Fault('convert:assign', *context(src, n, '%s = %s;' % (l, bad_e), '%s = %s;' % (l, good_e) if good_e else ';'))
    if k == 1:
        v = n.fresh()
        d = tname(a, v)
        return Fault('convert:init', *context(src, n, '%s = %s;' % (d, bad_e), '%s = %s;' % (d, good_e)))
    if k == 2:
        # an incompatible argument at a random position
        np = src.int(1, 9)
        pos = src.draw(np)
        ps = [rand_scalar(src) for _ in range(np)]
        if a[0] != 's':
            ps[pos] = a
        else:
            while assignable(ps[pos], b):
                ps[pos] = rand_scalar(src)
                if src.replay is not None and len(src.log) > 3000:
                    ps[pos] = ('p', ('p', ('p', ('i', 'c'))))
            a = ps[pos]
        f = n.fresh()
        fT = ('f', src.choice([('v',), ('i', 'i'), ('p', ('i', 'c'))]), ps)
        n.glob.append(tname(fT, '@' + f) + ';')
        args = [n.expr(p) for p in ps]
        bad = list(args)
        bad[pos] = bad_e
        callee = '@' + f
        if src.bool(1, 4):
            fp = n.fresh()
            n.loc.append(tname(('p', fT), fp) + ';')
            callee = src.choice([fp, '(*%s)' % fp])
        st = '%s(%s);'
        return Fault('convert:arg', *context(src, n, st % (callee, ', '.join(bad)), st % (callee, ', '.join(args))))
    if k == 3:
        g = tname(('f', a, []), '@rf') + ' { %s return %s; }'
        loc = ' '.join(n.loc + ['%s;' % p for p in n.params])
        pre = '\n'.join(n.glob) + '\n'
        return Fault('convert:return', *in_file(src, pre + g % (loc, bad_e), pre + g % (loc, good_e)))
    # member or element initialiser
    v = n.fresh()
    if src.bool():
        n.glob.append('struct @G%s { char x; %s; };' % (v, tname(a, 'y')))
        d = 'struct @G%s %s = {1, %%s};' % (v, v)
    else:
        m = src.int(1, 4)
        d = tname(('a', m, a), v) + ' = {' + ''.join('%s, ' % n.expr(a) for _ in range(src.draw(m))) + '%s};'
    return Fault('convert:element', *context(src, n, d % bad_e, d % good_e))


def f_identity(src):
    """two structures with the same members are two types"""
    n = Names(src)
    mem = ' '.join('%s;' % tname(rand_scalar(src) if src.bool() else ('a', src.int(1, 3), ('i', src.choice(ITYPES))), 'm%d' % i) for i in range(src.int(1, 3)))
    dec = src.choice(['*%s', '*%s', '*%s', '**%s', '(*%s)[3]', '*(*%s)(int)', '*(*%s)(void)', '*(*%s)[2]'])
    obj = '(int' not in dec and '(void' not in dec
    uses = ['q1 = q2;', 'q2 = q1;', 'put_i(q1 == q2);', 'put_i(q2 != q1);', 'if (q1 == q2) ;', 'q1 = 1 ? q1 : q2;', '*&q1 = q2;']
    if obj:
        uses += ['put_i(q1 < q2);', 'put_i(q1 >= q2);', 'put_l(q1 - q2);', 'q1 = &*q2;', 'q1 = q2 + 1;', 'q2 = &q1[1];']
    use = src.choice(uses)
    k = src.draw(6)
    pre = ''
    if k == 0:
        t1, t2 = 'struct { %s }' % mem, 'struct { %s }' % mem
    elif k == 1:
        t1, t2 = 'struct { %s }' % mem, 'struct @A1 { %s }' % mem
    elif k == 2:
        t1, t2 = 'struct @A1 { %s }' % mem, 'struct @A2 { %s }' % mem
    elif k == 3:
        pre = 'typedef struct { %s } @T1; typedef struct { %s } @T2; ' % (mem, mem)
        t1, t2 = '@T1', '@T2'
    elif k == 4:
        pre = 'struct @A1 { %s }; ' % mem
        t1, t2 = 'struct @A1', 'struct @A1 { %s }' % mem
    else:
        pre = 'typedef struct { %s } @T1; ' % mem
        t1, t2 = '@T1', 'struct { %s }' % mem
    if src.bool():
        t1, t2 = (t1, t2) if k == 4 else (t2, t1)
    d1, d2 = dec % 'q1', dec % 'q2'
    bad = '{ %s%s %s; { %s %s; %s } }' % (pre, t1, d1, t2, d2, use)
    good = '{ %s%s %s, %s; { %s } }' % (pre, t1, d1, d2, use)
    return Fault('convert:identity', *context(src, n, bad, good))


def rand_deep(src, d):
    """any object or function type that a pointer can point to"""
    k = src.draw(9 if d > 0 else 4)
    if k < 3:
        return ('i', src.choice(ITYPES))
    if k == 3:
        return ('s', src.choice('SR'))
    if k < 6:
        return ('p', rand_deep(src, d - 1))
    if k < 8:
        T = rand_deep(src, d - 1)
        return ('a', src.int(1, 4), ('p', T) if T[0] == 'f' else T)
    T = rand_deep(src, d - 1)
    ps = []
    for _ in range(src.choice([0, 1, 2, 3, 3, 5, 7, 9, 14])):
        P = rand_deep(src, d - 1)
        ps.append(P if P[0] in 'ip' else ('p', P))
    return ('f', T if T[0] in 'ip' else ('v',), ps)


def near(src, T):
    """a type that differs from T in one place"""
    k = T[0]
    if k == 'i':
        return src.choice([('i', x) for x in ITYPES if x != T[1]] + [('s', 'S'), ('p', T)])
    if k == 's':
        return src.choice([('s', 'R' if T[1] == 'S' else 'S'), ('i', 'i'), ('p', T)])
    if k == 'v':
        return ('i', 'i')
    if k == 'p':
        return ('p', near(src, T[1])) if src.bool(3, 4) or T[1][0] == 'f' else T[1]
    if k == 'a':
        if src.bool():
            return ('a', T[1] + src.choice([1, 2, 5]), T[2])
        E = near(src, T[2])
        return ('a', T[1], E if E[0] != 'f' else ('p', ('p', E)))
    m = src.draw(4)
    ps = list(T[2])
    if m == 0:
        R = near(src, T[1])
        return ('f', R if R[0] in 'ip' else ('i', 'i') if T[1] != ('i', 'i') else ('i', 'c'), ps)
    if m == 1 or not ps:
        ps.insert(src.draw(len(ps) + 1), src.choice(ps + [('i', 'i')]))
    elif m == 2:
        del ps[src.draw(len(ps))]
    else:
        i = src.draw(len(ps))
        P = near(src, ps[i])
        ps[i] = P if P[0] in 'ip' and P != ps[i] else ('p', ps[i])
    return ('f', T[1], ps)


def f_near(src):
    """pointers to two types that differ in one place, however deep"""
    n = Names(src)
    T = rand_deep(src, src.int(1, 3))
    A, B = ('p', T), ('p', near(src, T))
    fn = 'f' in (T[0], B[1][0])
    x, y, z = n.var(A), n.var(B), n.var(A)
    uses = ['%s = %s;', 'put_i(%s == %s);', 'put_i(%s != %s);', 'if (%s == %s) ;', '%s = 1 ? %s : @z;', '*&%s = %s;', '{ @d = %s; }', '@fa(%s, %s);', 'put_i(@fr() == %s);']
    if not fn:
        uses += ['put_i(%s < %s);', 'put_i(%s >= %s);', 'put_l(%s - %s);', '%s = %s + 1;', '%s = &%s[1];']
    u = src.choice(uses)
    if u[0] == '{':
        f = lambda v: '{ %s = %s; }' % (tname(A, 'w9'), v)
    elif u[0] == '@':
        n.glob.append('void @fa9(%s, %s);' % (tname(A), tname(A)))
        f = lambda v: '@fa9(%s, %s);' % (x, v)
    elif '@fr' in u:
        n.glob.append(tname(('f', A, []), '@fr9') + ';')
        f = lambda v: 'put_i(@fr9() == %s);' % v
    else:
        f = lambda v: u.replace('@z', z) % (x, v)
    return Fault('convert:near ' + T[0], *context(src, n, f(y), f(z)))


def f_excess(src):
    """one value too many in some list of an initialiser"""
    n = Names(src)
    a = fam_init.Agg(src)
    i = fam_init.Init(src, a.top, lambda t: str(src.draw(100)))
    if not i.full:
        i = fam_init.Init(Src_full(src), a.top, lambda t: str(src.draw(100)))
    at = src.choice(i.full)
    bad = ''.join(i.out[:at] + [', %s' % src.choice(['1', '0', '7', "'a'"])] + i.out[at:])
    d = fam_init.decl(a.top, '%s')
    if src.bool(1, 3):
        pre = ''.join(a.defs)
        d = d % '@o9'
        return Fault('excess:file', *in_file(src, '%s%s = %s;\n' % (pre, d, bad), '%s%s = %s;\n' % (pre, d, i.text())))
    d = d % 'o9'
    n.glob += a.defs
    return Fault('excess:block', *context(src, n, '{ %s = %s; }' % (d, bad), '{ %s = %s; }' % (d, i.text())))


class Src_full:
    """choices that make every list complete and braced"""

    def __init__(self, src):
        self.src = src

    def bool(self, *a):
        return a != (1, 8) and a != (1, 3)

    def __getattr__(self, k):
        return getattr(self.src, k)


def f_name(src):
    """use of a name that is not in scope"""
    n = Names(src)
    k = src.draw(9)
    u = src.choice(['undeclared', 'put_', 'put_ii', 'c0_fn', 'c0_fn22', 'N1', 'n', 'main', 'c0_S', 'm', 'Put_i', 'k9'])
    if k == 0:
        e = n.expr(('i', 'i'))
        forms = ['put_i(%s);', '%s = 3;', 'put_i(1 + %s * 2);', 'if (%s) ;', 'while (%s) ;', 'for (; %s; ) ;', '%s++;', 'put_i(1 ? 2 : %s);', 'put_i(0 && %s);', 'put_l(sizeof(%s));', 'put_i(-%s);',
                 'switch (%s) { case 1: ; }', 'int z9 = %s;', 'int z9[2] = {1, %s};', 'put_i((char)%s);', '{ { put_i(%s); } }', 'put_i(%s == 1);', 'put_i(@fn2(%s, @fcp()));', 'for (; ; %s) break;']
        f = src.choice(forms)
        g = e if f not in ('%s = 3;', '%s++;') else n.var(('i', 'i'))
        return Fault('name:undeclared', *context(src, n, f.replace('%s', u), f.replace('%s', g)))
    if k == 1:
        return Fault('name:function', *context(src, n, u + '(1);', 'put_i(1);'))
    v = 'q9'
    T = rand_scalar(src)
    d = tname(T, v)
    use = src.choice(['&%s;', '%s;', 'put_i(sizeof(%s));', 'put_l(1 + sizeof(%s));']) % v
    if k == 2:
        return Fault('name:block-ended', *context(src, n, '{ %s; } %s' % (d, use), '{ %s; %s }' % (d, use)))
    if k == 3:
        return Fault('name:for-ended', *context(src, n, 'for (int q9 = 0; q9 < 1; q9++) { ; } put_i(q9);', 'for (int q9 = 0; q9 < 1; q9++) { put_i(q9); }'))
    if k == 4:
        # (umlcc's blocks allow declarations and statements to mix)
        return Fault('name:before', *context(src, n, '{ %s %s; }' % (use, d), '{ %s; %s }' % (d, use)))
    if k == 5:
        w = src.choice(['{ %s; }', 'if (1) { %s; }', 'while (0) { %s; }', 'for (; 0; ) { %s; }', 'switch (1) { case 1: { %s; } }', '{ { { %s; } } }', 'if (0) ; else { %s; }']) % d
        return Fault('name:body-ended', *context(src, n, w + ' ' + use, w))
    if k == 6:
        b = 'int @g1(int q9) { return q9; }\nint @g2(int q8) { return %s; }'
        return Fault('name:other-param', *in_file(src, b % 'q9', b % 'q8'))
    if k == 7:
        b = 'int @g1(void) { int q9; q9 = 1; return q9; }\nint @g2(void) { int q8; q8 = 2; return %s; }'
        return Fault('name:other-local', *in_file(src, b % 'q9', b % 'q8'))
    kind = src.draw(4)
    if kind == 0:
        return Fault('name:enum-ended', *context(src, n, '{ enum { Q9A, Q9B }; put_i(Q9B); } put_i(Q9B);', '{ enum { Q9A, Q9B }; put_i(Q9B); }'))
    if kind == 1:
        return Fault('name:typedef-ended', *context(src, n, '{ typedef int Q9T; Q9T x; x = 1; put_i(x); } Q9T y; y = 2;', '{ typedef int Q9T; Q9T x; x = 1; put_i(x); } int y; y = 2;'))
    if kind == 2:
        return Fault('name:later-global', *in_file(src, 'int @g1(void) { return @q9; }\nint @q9;', 'int @q9;\nint @g1(void) { return @q9; }'))
    return Fault('name:later-function', *in_file(src, 'int @g1(void) { return @q9(); }\nint @q9(void) { return 2; }', 'int @q9(void) { return 2; }\nint @g1(void) { return @q9(); }'))


def f_member(src):
    n = Names(src)
    k = src.draw(6)
    s, p = n.expr(('s', 'S')), n.expr(('p', ('s', 'S')))
    s, p = ('(%s)' % s if s[0] == '*' else s), ('(%s)' % p if p[0] == '*' else p)
    use = src.choice(['put_i(%s);', 'put_i(1 + %s);', '%s = 2;', 'put_l(sizeof(%s));', 'if (%s) ;'])
    m = src.choice(['mm', 'z', 'm2', 'S', 'M', 'n1', 'ip', 'put_i', 'c0_EA', 'w0'])
    if k == 0:
        bad, good = '%s.%s' % (s, m), '%s.m' % s
    elif k == 1:
        bad, good = '%s->%s' % (p, m), '%s->m' % p
    elif k == 2:
        bad, good = '%s->m' % s, '%s.m' % s
    elif k == 3:
        bad, good = '%s.m' % p, '%s->m' % p
    elif k == 4:
        e = n.var(('i', src.choice(ITYPES)))
        bad, good = '%s.m' % e, e
    else:
        T = rand_ptr(src)
        if T[1][0] == 's':
            T = ('p', ('i', 'i'))
        bad, good = '%s->m' % n.var(T), '%s->m' % p
    return Fault('member', *context(src, n, use.replace('%s', bad), use.replace('%s', good)))


def f_argc(src):
    n = Names(src)
    np = src.int(0, 9)
    ps = [rand_scalar(src) for _ in range(np)]
    f = n.fresh()
    n.glob.append(tname(('f', src.choice([('v',), ('i', 'i'), ('p', ('i', 'c'))]), ps), '@' + f) + ';')
    args = [n.expr(p) for p in ps]
    bad = list(args)
    k = src.draw(3)
    if k == 0 and bad:
        del bad[src.draw(len(bad)):]
    elif k == 1 and bad:
        bad.pop()
    else:
        bad += [n.expr(ps[-1] if ps else ('i', 'i'))] * src.int(1, 3)
    return Fault('argc', *context(src, n, '@%s(%s);' % (f, ', '.join(bad)), '@%s(%s);' % (f, ', '.join(args))))


ARITH_ONLY = ['*', '/']
INT_ONLY = ['%', '&', '|', '^', '<<', '>>']


def f_operand(src):
    """operators applied to operands their constraints forbid"""
    n = Names(src)
    I = lambda: n.expr(('i', src.choice(ITYPES)))
    P = lambda: n.expr(rand_ptr(src))
    S = lambda: n.expr(('s', src.choice('SR')))
    V = lambda: '@vf(%s)' % n.var(('i', 'i'))
    par = lambda e: '(%s)' % e
    k = src.draw(18)
    if k in (15, 16):
        IL = lambda: n.expr(('i', src.choice(ITYPES)), True)
        PL = lambda: n.expr(rand_ptr(src), True)
        SL = lambda: n.expr(('s', src.choice('SR')), True)
        op = src.choice(ARITH_ONLY + INT_ONLY + ['+', '-'])
        l, r = src.choice([(IL, P), (IL, S), (IL, V), (SL, I), (PL, P), (PL, S), (PL, V), (SL, S)] + ([(PL, I)] * 3 if op not in '+-' else []))
        return Fault('operand:%s=' % op, *context(src, n, '%s %s= %s;' % (l(), op, r()), '%s %s= 3;' % (IL(), op)))
    if k == 17:
        c = src.draw(5)
        if c == 0:
            x = '%s%s' % (par(tname(rand_scalar(src), '').strip()), par(src.choice([S, V])()))
        elif c == 1:
            x = '(struct @%s)%s' % (src.choice('SR'), par(src.choice([S, I, P, V])()))
        elif c == 2:
            x = '(%s)%s' % (tname(('a', src.int(1, 3), ('i', src.choice(ITYPES))), '').strip(), par(src.choice([I, P])()))
        elif c == 3:
            x = '(%s)%s' % (tname(('f', ('i', src.choice(ITYPES)), []), '').strip(), par(src.choice([I, P])()))
        else:
            x = 'sizeof%s' % par(src.choice(['@vf', '*@vf', 'void', 'struct @Nope', 'int(void)', 'char(*(int))[2]', 'int[]', V()]))
        return Fault('operand:cast', *context(src, n, x + ';', par(NAME[src.choice(ITYPES)]) + par(I()) + ';'))
    if k < 4:
        op = src.choice(ARITH_ONLY + INT_ONLY)
        a, b = src.choice([(P, I), (I, P), (S, I), (I, S), (V, I), (I, V), (P, P), (S, S), (V, V)])
        return Fault('operand:' + op, *context(src, n, '%s %s %s;' % (par(a()), op, par(b())), '%s %s 1;' % (par(I()), op)))
    if k == 4:
        a, b = src.choice([(P, P), (S, I), (I, S), (V, I), (I, V), (P, S), (S, P)])
        return Fault('operand:+', *context(src, n, '%s + %s;' % (par(a()), par(b())), '%s + 1;' % par(I())))
    if k == 5:
        a, b = src.choice([(I, P), (S, I), (I, S), (V, I), (I, V), (P, S), (S, P)])
        return Fault('operand:-', *context(src, n, '%s - %s;' % (par(a()), par(b())), '%s - 1;' % par(I())))
    if k == 6:
        op = src.choice(['-', '~', '+'])
        return Fault('operand:unary ' + op, *context(src, n, '%s%s;' % (op, par(src.choice([P, S, V])())), '%s%s;' % (op, par(I()))))
    if k == 7:
        return Fault('operand:!', *context(src, n, '!%s;' % par(src.choice([S, V])()), '!%s;' % par(P())))
    if k == 8:
        op = src.choice(LOGIC)
        a, b = src.choice([(S, I), (I, S), (V, I), (I, V), (P, S), (V, P)])
        return Fault('operand:' + op, *context(src, n, '%s %s %s;' % (par(a()), op, par(b())), '%s %s %s;' % (par(P()), op, par(I()))))
    if k == 9:
        op = src.choice(COMPARE)
        a, b = src.choice([(S, I), (I, S), (V, I), (I, V), (P, S), (P, I), (I, P), (S, S)])
        return Fault('operand:' + op, *context(src, n, '%s %s %s;' % (par(a()), op, par(b())), '%s %s %s;' % (par(I()), op, par(I()))))
    if k == 10:
        A, B = rand_ptr(src), rand_ptr(src)
        if A == B or A[1][0] == 'f' or B[1][0] == 'f':
            A, B = ('p', ('i', 'i')), ('p', ('i', 'c'))
        op = src.choice(COMPARE + ['-'])
        return Fault('operand:pointers ' + op, *context(src, n, '%s %s %s;' % (par(n.expr(A)), op, par(n.expr(B))), '%s %s %s;' % (par(n.expr(A)), op, par(n.expr(A)))))
    if k == 11:
        e = src.choice([I, S, V])
        if src.bool():
            return Fault('operand:deref', *context(src, n, '*%s;' % par(e()), '*%s;' % par(n.expr(('p', ('i', 'i'))))))
        return Fault('operand:subscript', *context(src, n, '%s[%s];' % src.choice([(par(I()), I()), (par(S()), I()), (n.expr(('p', ('i', 'i'))), n.expr(('p', ('i', 'i')))), (n.expr(('p', ('i', 'i'))), S())]),
                                                   '%s[%s];' % (par(n.expr(('p', ('i', 'i')))), I())))
    if k == 12:
        f = src.choice(['if (%s) ;', 'while (%s) ;', 'for (; %s; ) ;', '%s ? 1 : 2;', 'if (1) ; else if (%s) ;'])
        return Fault('operand:condition', *context(src, n, f % par(src.choice([S, V])()), f % par(I())))
    if k == 13:
        a, b = src.choice([(S, I), (I, S), (P, I), (I, P), (V, I), (I, V), (S, P)])
        return Fault('operand:?:', *context(src, n, '%s ? %s : %s;' % (par(I()), par(a()), par(b())), '%s ? %s : %s;' % (par(I()), par(I()), par(I()))))
    e = src.choice([lambda: n.var(('i', 'i')), lambda: n.var(('p', ('i', 'c'))), lambda: n.var(('s', 'S')), lambda: '3', lambda: n.var(('a', 2, ('i', 'i')))])()
    return Fault('operand:call', *context(src, n, '%s(1);' % e, 'put_i(1);'))


def f_lvalue(src):
    n = Names(src)
    it = src.choice(['i', src.choice(ITYPES)])
    i, p, a = n.var(('i', it)), n.var(('p', ('i', it))), n.var(('a', 3, ('i', it)))
    T = NAME[it]
    e = src.choice(['(*%s + 1)' % p, '(*%s)++' % p, '(%s[1] + 0)' % a, '(%s[2]--)' % a, '(%s)%s' % (T, i), '((%s)%s[0])' % (T, a), '(%s += 2)' % i, '(*%s = 4)' % p, '(1 ? *%s : %s)' % (p, i), '(1 ? %s[0] : %s[1])' % (a, a), '(~%s)' % i, '(+%s)' % i,
                    '(1 ? %s : %s)' % (p, p), '(%s + 0)' % a, '(&*%s)' % p, '(&%s[1])' % a, '(%s++)' % p, '((char*)%s)' % p, '(sizeof %s)' % i, '(%s || %s)' % (i, i), '(%s == %s)' % (i, i), '(%s * 1)' % i, '(%s >> 0)' % i]) if src.bool() else src.choice(['3', '(%s + 1)' % i, '@fn0()', '(-%s)' % i, "'a'", '((int)%s)' % i, '(%s++)' % i, '(--%s)' % i, '(%s = 1)' % i, '(1 ? %s : %s)' % (i, i), '(%s + 1)' % p, '(&%s)' % i, '(sizeof(int))', '(!%s)' % i, '@EA', '@fn0', a, '(%s < 2)' % i])
    isnum = e in ('3', "'a'", '@EA', 'sizeof(int)')
    f = src.choice(['%s = 1;', '%s += 1;', '%s++;', '--%s;', '%s <<= 1;', '++%s;', '%s--;', '%s %= 2;', '&%s;', '%s |= 1;', '%s = %s;'])
    if f == '&%s;' and e in ('@fn0', a):
        f = '%s++;'
    if e[0] == '&' and f == '&%s;':
        e = '(' + e + ')'
    if e[0] == '(' and e[-2:] == '++' or e.startswith('(' + T + ')'):
        e = '(' + e + ')'
    g = f.replace('%s', i)
    return Fault('lvalue:' + f.replace('%s', '').strip('; '), *context(src, n, f.replace('%s', e), g))


def f_jump(src):
    n = Names(src)
    k = src.draw(5)
    if k == 0:
        return Fault('jump:break', *context(src, n, 'break;', ';', loops=False, switches=False))
    if k == 1:
        return Fault('jump:continue', *context(src, n, 'continue;', ';', loops=False))
    if k == 2:
        return Fault('jump:case', *context(src, n, 'case %d: ;' % src.draw(9), ';', switches=False))
    if k == 3:
        return Fault('jump:default', *context(src, n, 'default: ;', ';', switches=False))
    # after a complete loop / switch
    w = src.choice(['while (0) { ; }', 'for (; 0; ) ;', 'switch (1) { case 1: ; }', 'for (int k = 0; k < 2; k++) { break; }'])
    j = src.choice(['break;', 'continue;', 'case 5: ;', 'default: ;'])
    return Fault('jump:after', *context(src, n, w + ' ' + j, w, loops=False, switches=False))


def spell_int(src, v):
    forms = ['%d' % v, '0x%x' % v, '0%o' % v if v else '0', '(%d)' % v]
    if 32 <= v < 127 and chr(v) not in "'\\":
        forms.append("'%c'" % v)
    return src.choice(forms)


SUFFIX = ['', '', '', 'l', 'L', 'll', 'LL']


def spell_case(src, n, v):
    """the same value in any spelling a case label may have"""
    if src.bool(1, 6):
        e = '@K%s' % n.fresh()
        n.glob.append('enum { %s = %d };' % (e, v))
        return e
    s = spell_int(src, v)
    if s[0].isdigit():
        s += src.choice(SUFFIX)
    elif s[0] == "'" and src.bool(1, 3):
        s = src.choice(["'\\%o'", "'\\x%x'"]) % v
    return s


def f_dupcase(src):
    n = Names(src)
    c = n.expr(('i', src.choice(ITYPES[1:])))
    m = src.int(1, 12)
    vals = src.sample([0, 1, 2, 3, 5, 8, 10, 65, 97, 99, 100, 127, 128, 255, 256, 1000, 4096, 65535, 65536, 1 << 20, 2147483647], m)
    if src.bool(1, 4):
        items = ['case %d: ;' % v for v in vals]
        i, j = src.draw(m + 1), src.draw(m + 2)
        items.insert(i, 'default: ;')
        bad = list(items)
        bad.insert(j, 'default: ;')
        cat = 'dup:default'
    else:
        items = ['case %s: %s' % (spell_case(src, n, v), src.choice([';', 'put_i(1);', 'break;', 'put_i(2); break;'])) for v in vals]
        if src.bool():
            items.insert(src.draw(m + 1), 'default: ;')
        bad = list(items)
        v = src.choice(vals)
        new = 'case %s: ;' % spell_case(src, n, v)
        if src.bool(1, 4):
            new = '{ ' + new + ' }'
        bad.insert(src.draw(len(bad) + 1), new)
        cat = 'dup:case'
    f = 'switch (%s) { %s }'
    return Fault(cat, *context(src, n, f % (c, ' '.join(bad)), f % (c, ' '.join(items))))


def f_dupdecl(src):
    n = Names(src)
    k = src.draw(12)
    A, B = rand_scalar(src), rand_scalar(src)
    fill = ['int o%d;' % i for i in range(src.draw(6))]
    if k == 0:
        d = [tname(A, 'q9') + ';'] + fill
        return Fault('dup:local', *context(src, n, '{ %s %s; }' % (' '.join(d), tname(B, 'q9')), '{ %s %s; }' % (' '.join(d), tname(B, 'q8'))))
    if k == 1:
        return Fault('dup:same-declaration', *context(src, n, '{ int q9, %s, q9; }' % ', '.join(['o'] + ['*oo']), '{ int q9, o, *oo, q8; }'))
    if k == 2:
        f = 'int @g(int q9%s, %s) { return 0; }'
        more = ''.join(', int o%d' % i for i in range(src.draw(6)))
        return Fault('dup:param', *in_file(src, f % (more, tname(B, 'q9')), f % (more, tname(B, 'q8'))))
    if k == 3:
        f = 'struct @G { %s; %s %s; };'
        return Fault('dup:member', *in_file(src, f % (tname(A, 'q9'), ' '.join(fill), tname(B, 'q9')), f % (tname(A, 'q9'), ' '.join(fill), tname(B, 'q8'))))
    if k == 4:
        f = 'enum @G { Q9, %s%s };'
        more = ''.join('O%d, ' % i for i in range(src.draw(6)))
        return Fault('dup:enumerator', *in_file(src, f % (more, 'Q9'), f % (more, 'Q8')))
    if k == 5:
        # (equal types would be tentative definitions, which C allows)
        while A == B:
            A, B = ('i', 'i'), rand_scalar(src)
            if src.replay is not None and len(src.log) > 3000:
                B = ('i', 'l')
        f = '%s;\n%s %s;'
        return Fault('dup:global', *in_file(src, f % (tname(A, '@q9'), ' '.join(x.replace('o', '@o') for x in fill), tname(B, '@q9')), f % (tname(A, '@q9'), ' '.join(x.replace('o', '@o') for x in fill), tname(B, '@q8'))))
    if k == 6:
        f = 'int @g1(void) { return 1; }\n%s @%s(void) { return 2; }'
        t = NAME[src.choice(ITYPES)]
        return Fault('dup:function', *in_file(src, f % (t, 'g1'), f % (t, 'g2')))
    if k == 7:
        f = 'struct @G { int a; };\nstruct @%s { %s; };'
        return Fault('dup:tag', *in_file(src, f % ('G', tname(A, 'b')), f % ('G2', tname(A, 'b'))))
    if k == 8:
        f = 'enum @G { Q9 };\nenum @%s { Q8 };'
        return Fault('dup:enum-tag', *in_file(src, f % 'G', f % 'G2'))
    if k == 9:
        f = 'typedef int @Q9;\n%s;'
        T = ('p', ('i', 'c'))
        return Fault('dup:typedef-object', *in_file(src, 'int @q9; typedef int @q9;', 'int @q9; typedef int @q8;'))
    if k == 10:
        f = 'enum @G { @q9 };\nint @%s;'
        return Fault('dup:enumerator-object', *in_file(src, f % 'q9', f % 'q8'))
    f = 'int @q9;\nint @%s(void) { return 0; }'
    return Fault('dup:object-function', *in_file(src, f % 'q9', f % 'q8'))


def f_decl(src):
    """ill-formed declarations"""
    n = Names(src)
    cases = [
        ('void q9;', 'int q9;'), ('void q9[3];', 'int q9[3];'), ('int q9[0];', 'int q9[1];'), ('int q9[-1];', 'int q9[1];'), ('int q9[@fn0()];', 'int q9[2];'),
        ('struct @Inc q9;', 'struct @Inc* q9;'), ('struct @Nope q9;', 'struct @S q9;'), ('struct @Inc q9[2];', 'struct @Inc* q9[2];'),
        ('struct @S q9[0];', 'struct @S q9[1];'), ('int q9[2](void);', 'int (*q9[2])(void);'), ('int q9(void)[3];', 'int (*q9(void))[3];'), ('int q9(void)(void);', 'int (*q9(void))(void);'),
        ('int int q9;', 'int q9;'), ('unsigned void q9;', 'unsigned q9;'), ('long char q9;', 'long q9;'), ('long long long q9;', 'long long q9;'), ('char int q9;', 'char q9;'), ('unsigned unsigned q9;', 'unsigned q9;'),
        ('struct @S int q9;', 'struct @S q9;'), ('int struct @S q9;', 'struct @S q9;'), ('@TI int q9;', '@TI q9;'), ('void int q9;', 'int q9;'), ('unsigned @TI q9;', '@TI q9;'), ('char long q9;', 'char q9;'),
        ('int q9 = ;', 'int q9 = 1;'), ('int q9, ;', 'int q9, q8;'), ('int , q9;', 'int q9;'), ('int q9[3;', 'int q9[3];'), ('int q9 3;', 'int q9;'), ('int 9q;', 'int q9;'), ('int *;', 'int *q9;'), ('int (q9;', 'int (q9);'),
        ('int while;', 'int whil;'), ('int if = 3;', 'int q9 = 3;'), ('int struct;', 'int struc;'),
        ('int q9[2] = {1, 2, 3};', 'int q9[2] = {1, 2};'), ('char q9[2] = "abc";', 'char q9[4] = "abc";'), ('int q9[2] = 3;', 'int q9[2] = {3};'), ('struct @S q9 = 3;', 'struct @S q9 = {3};'),
        ('int q9[2] = {1, {2}, 3};', 'int q9[2] = {1, 2};'), ('int q9 = {1, 2};', 'int q9 = 1;'), ('struct @R q9 = {1, 2, @fip(1), 4};', 'struct @R q9 = {1, 2, @fip(1)};'),
        ('int q9[2][2] = {{1, 2, 3}, {4}};', 'int q9[2][2] = {{1, 2}, {4}};'), ('int q9[1][2] = {{1}, {4}};', 'int q9[2][2] = {{1}, {4}};'), ('struct @S q9 = {1, {1, 2, 3, 4}};', 'struct @S q9 = {1, {1, 2, 3}};'),
        ('char q9[3] = {"abcdef"};', 'char q9[7] = {"abcdef"};'),
        ('struct { } q9;', 'struct { int a; } q9;'), ('enum { } q9;', 'enum { Q9 } q9;'), ('enum { Q9 Q8 } q9;', 'enum { Q9, Q8 } q9;'), ('struct { int a } q9;', 'struct { int a; } q9;'), ('struct { int; } q9;', 'struct { int a; } q9;'),
        ('struct { void v; } q9;', 'struct { int v; } q9;'), ('struct { int f(void); } q9;', 'struct { int (*f)(void); } q9;'), ('struct { int a[0]; } q9;', 'struct { int a[1]; } q9;'), ('struct { struct @Inc a; } q9;', 'struct { struct @Inc* a; } q9;'),
        ('struct 3 { int a; } q9;', 'struct @G3 { int a; } q9;'), ('struct;', ';'), ('enum;', ';'),
        ('enum { Q9 = @fn0() } q9;', 'enum { Q9 = 3 } q9;'), ('enum { Q9 = "a" } q9;', "enum { Q9 = 'a' } q9;"),
        ('struct @E q9;', 'enum @E q9;'), ('enum @S q9;', 'struct @S q9;'),
        ('typedef int;typedef;', 'typedef int q9;'), ('int (*q9(void);', 'int (*q9)(void);'), ('int q9(int a, void);', 'int q9(int a, int b);'), ('int q9(void, void);', 'int q9(void);'),
        ('int q9(int a,);', 'int q9(int a);'), ('int q9(, int a);', 'int q9(int a);'), ('int q9(int a int b);', 'int q9(int a, int b);'), ('int q9(int a;', 'int q9(int a);'),
        ('typedef int q9 = 3;', 'typedef int q9;'), ('int q9(void) = 3;', 'int q9(void);'),
    ]
    bad, good = src.choice(cases)
    return Fault('decl', *context(src, n, '{ %s }' % bad if src.bool() else bad, '{ %s }' % good if src.bool() else good))


def f_range(src):
    """enumeration constants that int cannot represent, explicitly or by counting on from the one before"""
    pre = ''.join('O%d%s, ' % (i, src.choice(['', '', ' = %s' % spell_int(src, src.draw(1000))])) for i in range(src.draw(4)))
    M = 2 ** 31 - 1
    k = src.draw(4)
    use = src.choice(['', ' put_i(Q9);'])
    local = src.bool()
    if k < 2:
        d = src.int(1, 4)
        cnt = ', '.join(['P = %s' % spell_int(src, M - d + 1)] + ['P%d' % i for i in range(1, d)])
        bad, good = 'enum { %s%s, Q9 };' % (pre, cnt), 'enum { %s%s };' % (pre, cnt.replace('P = ', 'Q9 = '))
    else:
        v = src.choice([M + 1, M + 2, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 33 + 5, 2 ** 63 - 1, 2 ** src.int(31, 62), M + 1 + src.draw(1 << 31)])
        bad, good = 'enum { %sQ9 = %s };' % (pre, src.choice(['%d', '%dL', '0x%xL', '%dLL', '0%oLL']) % v), 'enum { %sQ9 = %s };' % (pre, src.choice(['%d', '0x%x', '0%o']) % min(v, M - src.draw(3)))
    if local:
        n = Names(src)
        return Fault('range:enumerator-local', *context(src, n, bad + use, good + use))
    return Fault('range:enumerator', *in_file(src, bad, good))


def f_file(src):
    cases = [
        ('int @q9 = @fn0();', 'int @q9 = 3;'), ('int @q8; int @q9 = @q8;', 'int @q8; int @q9 = 4;'), ('int @q9[2] = {1, 2, 3};', 'int @q9[2] = {1, 2};'), ('char @q9[2] = "abc";', 'char @q9[4] = "abc";'),
        ('int @q9 = {1, 2};', 'int @q9 = 1;'), ('int @q9[2] = 3;', 'int @q9[2] = {3};'), ('struct @S @q9 = 3;', 'struct @S @q9 = {3};'), ('int @q9 = "abc";', 'int @q9 = 0;'), ('int* @q9 = 3;', 'int* @q9;'),
        ('int @q9[2][2] = {{1}, {2}, {3}};', 'int @q9[2][2] = {{1}, {2}};'),
        ('int @g(int) { return 0; }', 'int @g(int a) { return 0; }'), ('int @g(int a, char*) { return 0; }', 'int @g(int a, char* b) { return 0; }'), ('int @g(void) { int i; } }', 'int @g(void) { int i; return 0; }'),
        ('int @g(void) { return; }', 'int @g(void) { return 0; }'), ('void @g(void) { return 1; }', 'void @g(void) { return; }'), ('int @g(void) { return @vf(1); }', 'int @g(void) { return @fn0(); }'),
        ('void @g(int a) { if (a) { while (a) { return a; } } }', 'void @g(int a) { if (a) { while (a) { return; } } }'), ('int @g(int a) { for (; a; ) { return; } return 1; }', 'int @g(int a) { for (; a; ) { return 2; } return 1; }'),
        ('@q9;', 'int @q9;'), ('@q9(void) { return 0; }', 'int @q9(void) { return 0; }'), ('int @q9(void) return 0;', 'int @q9(void) { return 0; }'), ('return 0;', 'int @q9;'), ('{ int @q9; }', 'int @q9;'), ('put_i(1);', 'int @q9;'),
        ('if (1) ;', 'int @q9;'), ('int @g(struct @Inc a) { return 0; }', 'int @g(struct @Inc* a) { return 0; }'), ('int @g(void a) { return 0; }', 'int @g(int a) { return 0; }'),
        ('struct @D { struct @D d; };', 'struct @D { struct @D* d; };'), ('struct @D { int a; struct @D d[2]; };', 'struct @D { int a; struct @D* d[2]; };'), ('struct @D { int a; } struct @D @q;', 'struct @D { int a; }; struct @D @q;'),
        ('void @q9;', 'void* @q9;'), ('void @q9[2];', 'void* @q9[2];'), ('struct @Inc @q9;', 'struct @Inc* @q9;'), ('int @q9[0];', 'int @q9[5];'), ('int @q9[@EA];', 'int @q9[@EB];'), ('int @q9[3](void);', 'int (*@q9[3])(void);'),
        ('int @g(void)[3];', 'int (*@g(void))[3];'), ('int @g(void)(void);', 'int (*@g(void))(void);'), ('int @g(int a)(void) { return 0; }', 'int @g(int a) { return 0; }'), ('int @x, @y { return 0; }', 'int @x, @y;'), ('int @x = 3 4;', 'int @x = 34;'),
        ('int @q9[];', 'int @q9[1];'), ('typedef int @T9; @T9 @T9x @y;', 'typedef int @T9; @T9 @T9x, @y;'), ('struct @P9 { int a; }; struct @P9 @g(void) { return 3; }', 'struct @P9 { int a; }; struct @P9* @g(void);'),
        ('int @g(void) { struct @L { int a; } x; x.a = 1; return x.b; }', 'int @g(void) { struct @L { int a; } x; x.a = 1; return x.a; }'),
    ]
    bad, good = src.choice(cases)
    return Fault('file', *in_file(src, bad, good))


def f_stmt(src):
    n = Names(src)
    i, p, s, st = n.var(('i', 'i')), n.var(('p', ('i', 'i'))), n.var(('p', ('i', 'c'))), n.var(('s', 'S'))
    a = n.var(('a', 3, ('i', 'i')))
    cases = [
        ('{ I = 1 }', 'I = 1;'), ('I = (1;', 'I = (1);'), ('I = 1);', 'I = 1;'), ('I = A[1;', 'I = A[1];'), ('if (I { I = 1; }', 'if (I) { I = 1; }'), ('if I) { I = 1; }', 'if (I) { I = 1; }'), ('if I { I = 1; }', 'if (I) { I = 1; }'),
        ('I = ;', 'I = 1;'), ('I = 1 +;', 'I = +1;'), ('I = * 2;', 'I = 1 * 2;'), ('while () { ; }', 'while (I) { ; }'), ('while { ; }', 'while (0) { ; }'), ('{ while (I) }', 'while (I) ;'), ('for (;) { ; }', 'for (;;) { break; }'),
        ('for (I = 0; I < 3) { ; }', 'for (I = 0; I < 3; ) { ; }'), ('for (I = 0, I < 3; I++) { ; }', 'for (I = 0; I < 3; I++) { ; }'), ('for (;;;) { ; }', 'for (;;) { break; }'), ('{ else I = 1; }', 'if (I) ; else I = 1;'),
        ('if (I) ; else ; else ;', 'if (I) ; else ;'), ('if () ;', 'if (I) ;'), ('switch { case 1: ; }', 'switch (I) { case 1: ; }'), ('switch () { case 1: ; }', 'switch (I) { case 1: ; }'), ('switch (I) { case 1 ; }', 'switch (I) { case 1: ; }'),
        ('switch (I) { case : ; }', 'switch (I) { default : ; }'), ('switch (I) { default ; }', 'switch (I) { default: ; }'), ('switch (I) { case I: ; }', 'switch (I) { case 1: ; }'), ('switch (I) { case "a": ; }', "switch (I) { case 'a': ; }"),
        ('switch (P) { case 1: ; }', 'switch (I) { case 1: ; }'), ('switch (T) { case 1: ; }', 'switch (T.m) { case 1: ; }'), ('switch (@vf(1)) { case 1: ; }', 'switch (@fn0()) { case 1: ; }'), ('switch (I) { case 1 }', 'switch (I) { case 1: ; }'),
        ('put_i(1, );', 'put_i(1);'), ('put_i(, 1);', 'put_i(1);'), ('@fn2(1 S);', '@fn2(1, S);'), ('put_i 1);', 'put_i(1);'), ('put_i(1;', 'put_i(1);'), ('A[;', 'A[1];'), ('A[];', 'A[0];'), ('T.;', 'T.m;'), ('T.3;', 'T.m;'), ('T.(m);', 'T.m;'),
        ('I = (int 3;', 'I = (int) 3;'), ('I = sizeof;', 'I = sizeof I;'), ('I = sizeof();', 'I = sizeof(int);'), ('I = sizeof(int;', 'I = sizeof(int);'), ('I = ? 1 : 2;', 'I = I ? 1 : 2;'), ('I = I ? 1;', 'I = I ? 1 : 2;'), ('I = I ? : 2;', 'I = I ? 1 : 2;'),
        ('I = I ? 1 : ;', 'I = I ? 1 : 2;'), ('I = 08;', 'I = 07;'), ('I = 0x;', 'I = 0x1;'), ('I = 1lul;', 'I = 1ul;'), ('I = 1uu;', 'I = 1u;'), ('I = 1lll;', 'I = 1ll;'), ('I = 0xg;', 'I = 0xf;'), ('I = 1a;', 'I = 1;'), ('I = 0b1;', 'I = 01;'), ('I = 019;', 'I = 017;'), ('I = 1lL;', 'I = 1LL;'),
        ("I = '\\q';", "I = '\\n';"), ("I = '';", "I = 'a';"), ('S = "\\q";', 'S = "\\n";'), ('I = 1 @@ 2;', 'I = 1 + 2;'), ('I = 1 $ 2;', 'I = 1 + 2;'), ('I = `1`;', 'I = 1;'), ('I = 1 \\ 2;', 'I = 1 / 2;'), ('I # 2;', 'I;'),
        ("I = 'a;", "I = 'a';"), ('S = "abc;', 'S = "abc";'), ("I = 'a\n';", "I = 'a';"), ('S = "a\nb";', 'S = "ab";'), ("I = '\\x';", "I = '\\x1';"), ('S = "\\xg";', 'S = "\\x0g";'), ("I = ''';", "I = '\\'';"),
        ('I = 99999999999999999999999;', 'I = 9;'), ('I = 0x10000000000000000;', 'I = 0x1000000000000000;'), ('I = 18446744073709551616ull;', 'I = 18446744073709551615ull;'), ('I = 02000000000000000000000;', 'I = 01000000000000000000000;'),
        ('sizeof(@fn0);', 'sizeof(@fn0());'), ('sizeof(void);', 'sizeof(void*);'), ('sizeof(struct @Inc);', 'sizeof(struct @Inc*);'), ('sizeof(struct @Nope);', 'sizeof(struct @S);'), ('(int)T;', '(int)T.m;'), ('(struct @S)I;', '(struct @S*)I;'), ('(int[3])P;', '(int(*)[3])P;'),
        ('(int)@vf(1);', '(int)@fn0();'), ('(@nope)I;', '(@TI)I;'), ('@TI = 3;', 'I = 3;'), ('I = @TI;', 'I = 1;'), ('I = @S;', 'I = T.m;'), ('I = @TI + 1;', 'I = 1 + 1;'), ('@EA = 3;', 'I = @EA;'), ('@EA++;', '@EA;'), ('A = P;', 'P = A;'), ('A++;', 'P++;'), ('T++;', 'T.m++;'), ('P *= 2;', 'I *= 2;'), ('P += P;', 'P += 1;'), ('P %= 1;', 'I %= 3;'),
        ('P = P * 1;', 'P = P + 1;'), ('T += 1;', 'T.m += 1;'), ('P <<= 1;', 'I <<= 1;'), ('I += P;', 'I += *P;'), ('I -= P;', 'I -= *P;'), ('P -= P;', 'P -= 1;'), ('I = @vf(1);', 'I = @fn0();'), ('@vf(1) + 1;', '@fn0() + 1;'), ('@fn2(@vf(1), S);', '@fn2(@fn0(), S);'), ('int v9 = @vf(1);', 'int v9 = @fn0();'),
        ('I == P;', 'I == *P;'), ('P & 1;', '*P & 1;'), ('P = &S;', 'P = &I;'), ('P = &A;', 'P = A;'), ('P = &P;', 'P = &*P;'), ('&3;', '&I;'), ('&&I;', '&I;'), ('I = = 1;', 'I = 1;'), ('I + = 1;', 'I += 1;'), ('I < = 1;', 'I <= 1;'), ('I & & 1;', 'I && 1;'), ('I - > 1;', 'I - 1;'), ('I + ;', 'I;'), ('I !;', '!I;'), ('I ~ 1;', 'I;'), ('I I;', 'I;'), ('1 I;', 'I;'), ('1 2;', '1;'),
        ('(I;', '(I);'), ('I);', 'I;'), ('[I];', 'A[I];'), ('{ I; ', '{ I; }'), ('} I;', 'I;'), ('() ;', '(I);'), ('{ case }', ';'), ('{ break }', ';'), ('return 1 2;', ';'), ('int;int 3;', ';'), ('goto;', ';'), ('I ? 1 : 2 : 3;', 'I ? 1 : 2;'), ('I..m;', 'T.m;'), ('T->m;', 'T.m;'), ('I.m;', 'T.m;'), ('P.m;', 'T.m;'), ('T.zz;', 'T.m;'), ('**P;', '*P;'), ('*I;', '*P;'), ('I[0];', 'P[0];'), ('I();', '@fn0();'), ('3 = I;', 'I = 3;'), ('I + 1 = 2;', 'I = 1 + 2;'), ('T == T;', 'T.m == T.m;'), ('-P;', '-I;'), ('~P;', '~I;'), ('!T;', '!I;'), ('P % 2;', 'I % 2;'), ('P * P;', 'I * I;'), ('P + P;', 'P + 1;'), ('1 - P;', 'P - 1;'), ('P - S;', 'P - P;'), ('P < S;', 'P < P;'), ('1 ? P : S;', '1 ? P : P;'), ('1 ? P : I;', '1 ? I : I;'),
    ]
    bad, good = src.choice(cases)

    def sub(x):
        return re.sub(r'\b[IPSTA]\b', lambda m: {'I': i, 'P': p, 'S': s, 'T': st, 'A': a}[m.group(0)], x) if 'S' in x or True else x
    # (inside literals and after a backslash nothing may be replaced)

    def subst(x):
        parts = re.split(r'("(?:\\.|[^"\\])*"?|\'(?:\\.|[^\'\\])*\'?|@\w+|\\.)', x)
        return ''.join(q if j % 2 else sub(q) for j, q in enumerate(parts)).replace('@@', '\x01')
    b, g = context(src, n, subst(bad), subst(good))
    return Fault('stmt', b.replace('\x01', '@'), g.replace('\x01', '@'))


def f_token(src):
    """one token-level edit of a valid program that cannot yield a valid program"""
    base = fam_fuzz.valid_program(src, 2, True)
    toks = tokens(base)
    ids = [i for i, t in enumerate(toks) if re.match(r'[A-Za-z_]', t) and t not in KEYWORDS]
    typedefs = {toks[j] for i, t in enumerate(toks) if t == 'typedef' for j in range(i, min(i + 40, len(toks)))}
    k = src.draw(10)
    bad = list(toks)

    def depth(i):
        return toks[:i].count('{') - toks[:i].count('}')
    cat = None
    if k < 3:
        c = [i for i, t in enumerate(toks) if t in '()[]{}']
        i = src.choice(c)
        cat = 'token:delete ' + bad[i]
        del bad[i]
    elif k == 3:
        i = src.draw(len(toks) + 1)
        t = src.choice('()[]{}')
        bad.insert(i, t)
        cat = 'token:insert ' + t
    elif k == 4:
        c = [i for i in range(1, len(toks) - 1) if toks[i] == ';' and (re.match(r'\w', toks[i - 1]) or toks[i - 1] == ']') and toks[i - 1] not in KEYWORDS and toks[i - 1] not in typedefs and
             (toks[i + 1] in ('}', 'return', 'if', 'while', 'for', 'switch', 'int', 'char', 'long', 'unsigned', 'struct', 'void', 'case', 'break', 'continue') or (re.match(r'[A-Za-z_]', toks[i + 1]) and toks[i + 1] not in KEYWORDS))]
        if c:
            i = src.choice(c)
            del bad[i]
            cat = 'token:delete ;'
    elif k == 5:
        c = [i for i in ids if toks[i] not in typedefs and toks[i - 1] not in ('struct', 'enum')]
        i = src.choice(c)
        bad.insert(i, bad[i])
        cat = 'token:double identifier'
    elif k == 6:
        c = [i for i, t in enumerate(toks) if t in ('==', '!=', '<=', '>=', '/', '%', '?', '=', '<', '>', '|', '^', '||', '<<', '>>', '.', '->', ',') or re.match(r'\d', t)]
        if c:
            i = src.choice(c)
            bad.insert(i, bad[i])
            cat = 'token:double ' + ('number' if bad[i][0].isdigit() else bad[i])
            # a trailing comma in an initialiser or enumerator list is followed by a second comma: never valid
    elif k == 7:
        i = src.choice(ids)
        bad[i] = src.choice(['else', 'default', 'case'])
        cat = 'token:keyword for identifier'
    elif k == 8:
        i = src.draw(len(toks))
        if depth(i) > 0:
            bad = bad[:i]
            cat = 'token:truncated'
    else:
        i = src.draw(len(toks) + 1)
        bad.insert(i, src.choice(['@', '$', '`', '\\', '#']))
        cat = 'token:stray character'
    if cat is None:
        bad.insert(src.draw(len(toks) + 1), '$')
        cat = 'token:stray character'
    return Fault(cat, ' '.join(bad), ' '.join(toks))


def f_scope(src):
    """a name used where another declaration hides it or where its scope has ended"""
    n = Names(src)
    cases = [
        ('struct @S h; struct @S* hp; hp = &h; { struct @S { int zz; } i; i.m = 1; }', 'struct @S h; struct @S* hp; hp = &h; { struct @S { int zz; } i; i.zz = 1; }'),
        ('struct @S h; { struct @S { int zz; }; h.zz = 1; }', 'struct @S h; { struct @S { int zz; }; h.m = 1; }'),
        ('struct @S h; { struct @S { int m; } i; struct @S* p9; p9 = &h; }', 'struct @S h; { struct @S { int m; } i; struct @S* p9; p9 = &i; }'),
        ('struct @S* hp; { struct @S { int m; } i; hp = &i; }', 'struct @S* hp; struct @S h; { struct @S { int m; } i; hp = &h; }'),
        ('struct @S h; { struct @S { int m; } i; i.m = &h == &i; }', 'struct @S h; { struct @S { int m; } i; i.m = &h == &h; }'),
        ('{ struct L9 { int a; }; } struct L9 q9;', 'struct L9 { int a; }; { } struct L9 q9;'),
        ('{ struct L9 { int a; }; } { struct L9* q9; put_i(q9->a); }', '{ struct L9 { int a; }; struct L9 v9; struct L9* q9; q9 = &v9; v9.a = 1; put_i(q9->a); }'),
        ('{ typedef int L9; } L9 q9;', 'typedef int L9; { } L9 q9;'),
        ('typedef int L9; { int L9; L9 q9; }', 'typedef int L9; { int M9; L9 q9; }'),
        ('typedef struct @S L9; { int L9; L9* q9; }', 'typedef struct @S L9; { int M9; L9* q9; }'),
        ('{ enum { L9 }; } put_i(L9);', 'enum { L9 }; { } put_i(L9);'),
        ('enum { L9 = 3 }; { int L9; switch (1) { case L9: ; } }', 'enum { L9 = 3 }; { int M9; switch (1) { case L9: ; } }'),
        ('{ int q9; } q9 = 1;', 'int q9; { } q9 = 1;'), ('{ { int q9; } q9 = 1; }', '{ int q9; { } q9 = 1; }'),
        ('for (int q9 = 0; q9 < 1; q9++) ; q9 = 1;', 'int q9; for (q9 = 0; q9 < 1; q9++) ; q9 = 1;'),
        ('for (int q9 = 0; q9 < 1; q9++) { int r9; r9 = 1; } put_i(r9);', 'int r9; for (int q9 = 0; q9 < 1; q9++) { r9 = 1; } put_i(r9);'),
        ('if (1) { int q9; q9 = 1; } else q9 = 2;', 'int q9; if (1) { q9 = 1; } else q9 = 2;'),
        ('while (0) { int q9; q9 = 1; } put_i(q9);', 'int q9; q9 = 2; while (0) { q9 = 1; } put_i(q9);'),
        ('switch (1) { case 1: { int q9; q9 = 2; } default: q9 = 1; }', 'int q9; switch (1) { case 1: { q9 = 2; } default: q9 = 1; }'),
        ('int q9; { int* q9; q9 = 3; }', 'int q9; { int* q8; q9 = 3; }'), ('int* q9; { int q9; *q9 = 3; }', 'int q9; { int w9; int* q9; q9 = &w9; *q9 = 3; }'),
        ('int @fn0; @fn0();', 'int fn9; @fn0();'), ('{ int put_i; put_i(1); }', '{ int put_j; put_i(1); }'),
        ('struct { int w9; } q9; w9 = 1;', 'struct { int w9; } q9; q9.w9 = 1;'), ('struct L9 { int w9; } q9; L9 r9;', 'struct L9 { int w9; } q9; struct L9 r9;'),
        ('struct L9 { struct K9 { int a; } k; } q9; q9.a = 1;', 'struct L9 { struct K9 { int a; } k; } q9; q9.k.a = 1;'),
        ('struct L9 { int a; } q9; struct M9 { int a; }; struct M9* p9; p9 = &q9;', 'struct L9 { int a; } q9; struct M9 { int a; }; struct L9* p9; p9 = &q9;'),
        ('q9 = 1; int q9;', 'int q9; q9 = 1;'), ('int q9[2] = {r9}; int r9;', 'int r9 = 1; int q9[2] = {r9};'),
    ]
    bad, good = src.choice(cases)
    return Fault('scope', *context(src, n, '{ %s }' % bad, '{ %s }' % good))


FAULTS = [('scope', f_scope), ('near', f_near), ('excess', f_excess), ('convert', f_convert), ('name', f_name), ('token', f_token), ('member', f_member), ('argc', f_argc), ('operand', f_operand), ('lvalue', f_lvalue), ('jump', f_jump),
          ('dupcase', f_dupcase), ('dupdecl', f_dupdecl), ('decl', f_decl), ('file', f_file), ('stmt', f_stmt), ('range', f_range), ('identity', f_identity)]
