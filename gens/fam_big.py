"""Families: programs that are large in one dimension.  Sizes are drawn around powers of two and up to a few thousand."""
from core import *
from batch import Case


def size(src, hi):
    k = src.draw(6)
    if k == 0:
        return src.int(1, min(hi, 12))
    if k < 4:
        p = 1 << src.int(2, max(2, hi.bit_length() - 1))
        return max(1, min(hi, p + src.int(-2, 2)))
    if k == 4:
        return src.int(1, hi)
    return hi - src.draw(3)


def letters(src, n):
    al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'
    s = src.draw(63)
    return ''.join(al[(s + i * (1 + s % 5)) % 63] for i in range(n))


def longname(src, n, i):
    """names of n characters that differ only in one place"""
    base = 'v' + letters(src, n)
    pos = src.choice([0, n // 2, n - 1, min(n - 1, 31), min(n - 1, 63)])
    return base[:pos + 1] + '_%d_' % i + base[pos + 1:]


def big_locals(src):
    n = size(src, 1200)
    ts = [ITYPES[(src.draw(7) if i < 20 else i * 3) % 7] for i in range(n)]
    step = src.choice([1, 3, 7])
    b = ['%s v%d;' % (NAME[t], i) for i, t in enumerate(ts)]
    b += ['v%d = %d;' % (i, (i * 37 + 5) % 128) for i in range(n)]
    b += ['%s(v%d);' % (PUT[ts[i]], i) for i in range(0, n, step)]
    b += ['v0 += v%d; put_i((int)v0);' % (n - 1)]
    return Case('void @main(void) { %s }\n' % ' '.join(b), need=2, feats=['locals:%d' % n.bit_length()])


def big_frame(src):
    """large local arrays: offsets beyond 8, 16 bits"""
    t = src.choice(ITYPES)
    n = src.choice([1, 30, 31, 32, 33, 127, 128, 129, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 70000])
    m = src.choice([1, 7, 16, 100, 5000])
    T = NAME[t]
    b = 'int x; %s a[%d]; int y; char b[%d]; long z; x = 1; y = 2; z = 3; for (int i = 0; i < %d; i++) a[i] = i * 7; for (int i = 0; i < %d; i++) b[i] = i; put_i(x); put_i(y); put_l(z); ' % (T, n, m, n, m)
    b += '%s(a[0]); %s(a[%d]); %s(a[%d]); put_c(b[%d]); ' % (PUT[t], PUT[t], n // 2, PUT[t], n - 1, m - 1)
    b += 'long s; s = 0; for (int i = 0; i < %d; i++) s = s * 3 + a[i]; put_l(s); a[%d] = 5; put_l(a[%d] + x + y + z);' % (n, n - 1, n - 1)
    return Case('void @main(void) { %s }\n' % b, need=4, feats=['frame'])


def big_globals(src):
    n = size(src, 800)
    ts = [ITYPES[(src.draw(7) if i < 20 else i * 5) % 7] for i in range(n)]
    g = ''.join('%s @g%d%s;\n' % (NAME[t], i, ' = %d' % (i % 127) if i % 3 else '') for i, t in enumerate(ts))
    k = src.int(1, 5)
    b = ' '.join('@g%d += %d; %s(@g%d);' % (i, i % 50, PUT[ts[i]], i) for i in range(0, n, k))
    return Case(g + 'void @main(void) { %s }\n' % b, need=2, feats=['globals:%d' % n.bit_length()])


def big_functions(src):
    n = size(src, 500)
    r = src.bool()
    fs = ''
    for i in range(n):
        fs += 'int @f%d(int x) { %s }\n' % (i, 'return x + %d;' % i if i == 0 or not r else 'return @f%d(x) + %d;' % (i - 1, i % 7) if i % 13 else 'if (x > %d) return @f%d(x - 1); return %d;' % (i % 9, i - 1, i))
    b = ' '.join('put_i(@f%d(%d));' % (i, i % 11) for i in range(0, n, max(1, n // 30)))
    return Case(fs + 'void @main(void) { %s put_i(@f%d(3)); }\n' % (b, n - 1), need=3, feats=['functions:%d' % n.bit_length()])


def big_names(src):
    n = size(src, 2000)
    k = src.int(2, 6)
    nm = [longname(src, n, i) for i in range(1)]
    s = src.draw(1 << 30)
    base = 'v' + letters(src, n)
    pos = src.choice([0, n // 2, n, min(n, 31), min(n, 62), min(n, 63), min(n, 254), min(n, 255)])
    nm = [base[:pos + 1] + chr(97 + i) + base[pos + 1:] for i in range(k)]
    f = 'f' + nm[0]
    g = '@' + nm[1]
    t = ('int %s = 5;\nint @%s(int %s) { int %s; %s = %s * 2; %s += %s; return %s; }\n' % (g, f, nm[0], nm[-1] + 'z', nm[-1] + 'z', nm[0], g, nm[0], nm[-1] + 'z'))
    t += 'struct @%s { int %s; };\n' % (nm[0], '; int '.join(nm))
    b = 'struct @%s s; ' % nm[0]
    b += ' '.join('s.%s = %d;' % (x, i) for i, x in enumerate(nm)) + ' '.join('put_i(s.%s);' % x for x in nm)
    b += ' '.join('int %s; %s = %d;' % (x, x, i * 3) for i, x in enumerate(nm)) + ' '.join('put_i(%s);' % x for x in nm)
    b += ' put_i(@%s(4)); put_i(%s); put_s("%s");' % (f, g, nm[0])
    return Case(t + 'void @main(void) { %s }\n' % b, need=3, feats=['name:%d' % n.bit_length()])


def big_strings(src):
    n = size(src, 400)
    l = src.choice([0, 1, 5, 30])
    b = ' '.join('put_s("%s%d");' % (letters(src, l) if i % 3 else '', i % src.choice([3, 1000])) for i in range(n))
    return Case('void @main(void) { %s }\n' % b, need=2, feats=['strings:%d' % n.bit_length()])


def big_string(src):
    n = size(src, 6000)
    al = ['a', 'b', ' ', '\\n', '\\t', '\\\\', '\\"', '%', 'Z', '\\x01', '\\377', '0', "'", '\\a', '?']
    s = src.draw(1 << 20)
    k = src.int(1, 13)
    parts = []
    for i in range(n):
        c = al[(i * k + s) % len(al)]
        if parts and c in 'ab0' and parts[-1] in ('\\x01', '\\377'):
            c = 'Z'
        parts.append(c)
    lit = ''.join(parts)
    t = 'char @g[%d] = "%s";\n' % (n + src.choice([0, 1, 1, 9]), lit)
    b = 'char* p; p = "%s"; long h; h = 0; for (int i = 0; i < %d; i++) h = h * 31 + p[i]; put_l(h); h = 0; for (int i = 0; i < %d; i++) h = h * 31 + @g[i]; put_l(h); put_i(p[%d]);' % (lit, n + 1, n, n)
    b += ' put_i(sizeof("%s"));' % lit
    return Case(t + 'void @main(void) { %s }\n' % b, need=4, feats=['string:%d' % n.bit_length()])


def big_enum(src):
    n = size(src, 600)
    vals, items, v = [], [], 0
    for i in range(n):
        if i % 17 == 5:
            v = src.draw(100000) if i < 100 else i * 11
            items.append('@E%d = %d' % (i, v))
        else:
            items.append('@E%d' % i)
        vals.append(v)
        v += 1
    ix = sorted(set([0, n - 1, n // 2] + [src.draw(n) for _ in range(20)]))
    return Case('enum @e { %s };\nint @g = @E%d;\nvoid @main(void) { put_i(@g); %s }\n' % (', '.join(items), n - 1, ' '.join('put_i(@E%d);' % i for i in ix)), need=2, feats=['enum:%d' % n.bit_length()])


def big_struct(src):
    n = size(src, 400)
    ms = []
    for i in range(n):
        t = ITYPES[(src.draw(7) if i < 30 else i * 3 + i // 7) % 7]
        d = '' if src.draw(4) or i > 40 else '[%d]' % src.int(1, 5)
        ms.append((t, d))
    T = 'struct @s { %s };\nstruct @s @g;\n' % ' '.join('%s m%d%s;' % (NAME[t], i, d) for i, (t, d) in enumerate(ms))
    b = 'struct @s s; struct @s a[3]; struct @s* p; p = &a[1]; put_i(sizeof(struct @s)); put_i(sizeof(a)); char* c; c = (char*)&@g;'
    for i, (t, d) in enumerate(ms):
        x = '[0]' if d else ''
        b += ' s.m%d%s = %d; p->m%d%s = %d; @g.m%d%s = %d;' % (i, x, i % 100, i, x, (i * 3) % 100, i, x, (i * 7) % 120)
    for i in range(0, n, max(1, n // 40)):
        t, d = ms[i]
        x = '[0]' if d else ''
        b += ' %s(s.m%d%s + a[1].m%d%s); %s(@g.m%d%s);' % (PUT[uac(t, t)], i, x, i, x, PUT[t], i, x)
    if n * 8 < 4000:
        b += ' put_mem(c, 0);'
    return Case(T + 'void @main(void) { %s }\n' % b, need=3, feats=['struct:%d' % n.bit_length()])


def big_switch(src):
    n = size(src, 500)
    st, off = src.choice([1, 2, 7, 100003]), src.draw(50)
    order = list(range(n)) if src.bool() else list(range(n))[::-1]
    brk = src.choice([1, 2, 5])
    cs = ' '.join('case %d: r += %d;%s' % (off + i * st, i + 1, ' break;' if i % brk == 0 else '') for i in order)
    d = ' default: r += 100000;%s' % (' break;' if src.bool() else '') if src.bool() else ''
    f = 'int @f(int x) { int r; r = 0; switch (x) { %s } return r; }\n' % (cs + d if src.bool() else d + ' ' + cs)
    xs = sorted(set([off, off + (n - 1) * st, off + n * st, -1, off + n // 2 * st, off + 1, off - 1 + st]))
    return Case(f + 'void @main(void) { %s }\n' % ' '.join('put_i(@f(%d));' % x for x in xs), need=3, feats=['switch:%d' % n.bit_length()])


def big_chain(src):
    n = size(src, 1500)
    t = src.choice(['i', 'u', 'l', 'ul'])
    ops = src.choice([['+'], ['-'], ['^'], ['+', '-', '^', '|', '&'], ['*', '+'], ['&&'], ['||'], ['+', '<<']])
    e = 'x'
    for i in range(n):
        o = ops[(i * 7 + 1) % len(ops)]
        e += ' %s %s' % (o, '%d' % (i % 5 + (0 if o == '<<' else 1)) if i % 3 else 'y' if o != '<<' else '1')
    return Case('%s @x = %d;\nvoid @main(void) { %s x; %s y; x = @x; y = 3; put_l((long)(%s)); }\n' % (NAME[t], src.draw(100), NAME[t], NAME[t], e), need=3, feats=['chain:%d' % n.bit_length()])


def big_nest(src):
    """deep nesting of one construct"""
    k = src.draw(10)
    n = size(src, src.choice([150, 150, 1200 if k in (1, 2, 3, 4, 5) else 400]))
    v = src.draw(50)
    if k == 0:
        b = 'put_i(%s%d%s);' % ('(' * n, v, ')' * n)
    elif k == 1:
        b = 'int x; x = %d; %sput_i(x);%s put_i(x);' % (v, '{ x++; ' * n, ' }' * n)
    elif k == 2:
        b = 'int x; x = %d; %sx++; put_i(x);' % (v, ''.join('if (x > %d) ' % (-i) for i in range(n)))
    elif k == 3:
        b = 'int x; x = %d; %sput_i(-1);' % (src.draw(n + 3), ''.join('if (x == %d) put_i(%d); else ' % (i, i * 2) for i in range(n)))
    elif k == 4:
        b = 'put_l(%s%d);' % (''.join(['-', '~', '!', '(char)', '(long)', '+'][(i * (v + 1)) % 6] + ' ' for i in range(n)), v)
    elif k == 5:
        b = 'int x; x = 0; %sx++;%s put_i(x);' % (''.join('for (int i%d = 0; i%d < %d; i%d++) ' % (i, i, 2 if i < 6 else 1, i) for i in range(n)), '')
    elif k == 6:
        b = 'put_i(%s%d%s);' % ('id_i(' * n, v, ' + 1)' * n)
    elif k == 7:
        b = 'int x; x = %d; put_i(%s%d);' % (src.draw(n + 3), ''.join('x == %d ? %d : ' % (i, i * 3) for i in range(n)), n)
    elif k == 8:
        b = 'int a; %s put_i(%s);' % ('a = 1;', 'a' + ''.join(' = a' for _ in range(n)) + ' = %d' % v)
    else:
        n = min(n, 60)
        ss = ''.join('struct @s%d { char c%d; %s x; };\n' % (i, i, 'struct @s%d' % (i - 1) if i else 'int') for i in range(n))
        return Case(ss + 'struct @s%d @g;\nvoid @main(void) { struct @s%d s; put_i(sizeof(s)); s%s = %d; put_i(s%s); @g%s = 4; put_i(@g%s); }\n' % (n - 1, n - 1, '.x' * n, v, '.x' * n, '.x' * n, '.x' * n), need=2, feats=['nest'])
    # conditional and assignment chains hold one register per level
    return Case('void @main(void) { %s }\n' % b, need=99 if k in (7, 8) and n > 2 else 3, feats=['nest %d' % k])


def big_args(src):
    n = size(src, 60)
    ts = [ITYPES[src.draw(7)] for _ in range(n)]
    f = 'long @f(%s) { long r; r = 0; %s return r; }\n' % (', '.join('%s a%d' % (NAME[t], i) for i, t in enumerate(ts)), ' '.join('r = r * 3 + (long)a%d;' % i for i in range(n)))
    return Case(f + 'void @main(void) { put_l(@f(%s)); put_l(@f(%s)); }\n' % (', '.join(str((i * 13 + 1) % 128) for i in range(n)), ', '.join('(%s)%d' % (NAME[t], (i * 31) % 120) for i, t in enumerate(ts))), need=3, feats=['args:%d' % n.bit_length()])


def big_init(src):
    n = size(src, 1500)
    t = src.choice(ITYPES)
    given = src.choice([n, n, max(1, n // 2), 1])
    vals = [(i * 37 + src.draw(3) if i < 9 else i * 41) % 128 for i in range(given)]
    lst = '{ %s }' % ', '.join(map(str, vals))
    T = NAME[t]
    b = ''
    decl = '%s @g[%d] = %s;\n' % (T, n, lst)
    if n <= 500:
        b += '%s a[%d] = %s; ' % (T, n, lst)
        b += 'h = 0; for (int i = 0; i < %d; i++) h = h * 31 + (long)a[i]; put_l(h); ' % n
    b += 'h = 0; for (int i = 0; i < %d; i++) h = h * 31 + (long)@g[i]; put_l(h); put_i(sizeof(@g));' % n
    return Case(decl + 'void @main(void) { long h; %s }\n' % b, need=4, feats=['init:%d' % n.bit_length()])


def big_typedef(src):
    n = size(src, 200)
    k = src.draw(4)
    if k == 3:
        # every type names the earlier ones many times
        n = min(n, 40)
        w = src.int(2, 6)
        t = 'typedef struct { int v; } @t0;\n'
        for i in range(1, n + 1):
            t += 'typedef struct %s{ int v; %s } @t%d;\n' % (src.choice(['', '@s%d ' % i]), ' '.join('@t%d%s m%d%s;' % (max(0, i - 1 - src.draw(2)), '*', j, src.choice(['', '', '[2]'])) for j in range(w)), i)
        b = '@t%d x; @t%d* p; @t%d* q; p = &x; q = p; q->v = 7; put_i(p->v); put_i(p == q); put_i(sizeof(x)); put_i(sizeof(*p->m1)); ' % (n, n, n)
        return Case(t + '@t%d @g;\nint @f(@t%d* p) { return p->v; }\nvoid @main(void) { %s put_i(@f(&x)); @g.v = 3; put_i(@f(&@g)); }\n' % (n, n, b), need=6, feats=['type references'])
    if k == 0:
        t = 'typedef int @t0;\n' + ''.join('typedef @t%d @t%d;\n' % (i, i + 1) for i in range(n))
        return Case(t + '@t%d @g = 4;\nvoid @main(void) { @t%d x; x = @g * 2; put_i(x); put_i(sizeof(@t%d)); }\n' % (n, n // 2, n), need=2, feats=['typedef'])
    n = min(n, 40)
    if k == 1:
        ps = ' '.join('int %sp%d; p%d = &%s;' % ('*' * (i + 1), i, i, 'x' if i == 0 else 'p%d' % (i - 1)) for i in range(n))
        return Case('void @main(void) { int x; x = 9; %s put_i(%sp%d); %sp%d = 5; put_i(x); }\n' % (ps, '*' * n, n - 1, '*' * n, n - 1), need=2, feats=['pointers'])
    n = min(n, 16)
    dims = ''.join('[%d]' % (2 if i < 8 else 1) for i in range(n))
    z = ''.join('[%d]' % (i % 2 if i < 8 else 0) for i in range(n))
    return Case('int @a%s;\nvoid @main(void) { int b%s; @a%s = 3; b%s = 4; put_i(@a%s + b%s); put_i(sizeof(b)); put_i(sizeof(@a)); put_i(@a%s); }\n' % (
        dims, dims, z, z, z, z, ''.join('[0]' for _ in range(n))), need=4, feats=['dims'])


def big_stmts(src):
    n = size(src, 2500)
    k = src.draw(4)
    one = [lambda i: 'x = x * 3 + %d;' % (i % 7), lambda i: 'if (x & %d) x += %d; else x ^= %d;' % (1 << i % 8, i % 50, i % 31),
           lambda i: 'while (x > %d) { x -= %d; break; }' % (i * 3, i % 9), lambda i: '{ int y; y = x; x = y + %d; }' % (i % 13)][k]
    return Case('void @main(void) { int x; x = %d; %s put_i(x); }\n' % (src.draw(9), ' '.join(one(i) for i in range(n))), need=3, feats=['statements %d' % k])


def big_numbers(src):
    """long spellings of numbers and of white space"""
    z = size(src, 600)
    b = 'put_i(%s17);' % ('0' * z)
    b += 'put_i(0x%s1f);' % ('0' * z)
    b += 'put_s("\\1%s");' % ('x' * z)
    b += ' ' * z + '\n' * (z // 3) + 'put_i(5%s);' % (' ' * z)
    return Case('void @main(void) { %s }\n' % b, need=2, feats=['numbers'])


def big_more(src):
    """nests and chains of the constructs big_nest leaves out"""
    k = src.draw(10)
    v = src.draw(50)
    if k == 0:
        n = size(src, 400)
        return Case('struct @N { int v; struct @N* n; };\nvoid @main(void) { struct @N a[3]; struct @N* p; a[0].v = %d; a[1].v = 5; a[2].v = 7; a[0].n = &a[1]; a[1].n = &a[2]; a[2].n = a; p = a + %d; put_i(p%s->v); p%s->v = 9; put_i(a[0].v); put_i(a[1].v); put_i(a[2].v); put_i(a[0]%s.v); }\n' % (
            v, src.draw(3), '->n' * n, '->n' * max(0, n - 1), ''.join('.n[0]' for _ in range(min(n, 100)))), need=3, feats=['arrows'])
    if k == 1:
        n = min(size(src, 60), 60)
        d = src.draw(n + 1)
        b = 'put_i(-5);'
        for i in range(n - 1, -1, -1):
            b = 'switch (x + %d) { case %d: put_i(%d); %s case %d: put_i(%d); %s default: put_i(%d); }' % (
                i, i + (v if i != d else v + 1), i, b + (' break;' if (i + v) % 3 else ''), i + (v + 1 if i != d else v), i * 2, 'break;' if (i + v) % 2 else '', -i - 1)
        b = 'int x; x = %d; %s put_i(x);' % (v, b)
        return Case('void @main(void) { %s }\n' % b, need=3, feats=['switch nest'])
    if k == 2:
        n = size(src, 150)
        b = 'put_i(x); break;'
        for i in range(n):
            e = ['while (x < 100000) { x++; %s %s }', 'for (int q = 0; q < 3; q++) { x--; %s %s }', 'for (; x < 100000;) { x += 2; %s %s }'][(i * (v + 1) + v) % 3]
            b = e % (b, ['break;', 'if (x > 0) break; else continue;', 'put_i(x); break;'][(i + v) % 3])
        return Case('void @main(void) { int x; x = %d; %s put_i(x); }\n' % (v, b), need=3, feats=['loop nest'])
    if k == 3:
        n = size(src, 800)
        fs = 'int @f0(int a) { return a; }\n' + ''.join('int @f%d(int a) { int x; x = @f%d(a + 1); return x + a %% %d; }\n' % (i, i - 1, i % 9 + 2) for i in range(1, n + 1))
        return Case(fs + 'void @main(void) { put_i(@f%d(%d)); put_i(@f%d(1)); }\n' % (n, v, n // 2), need=3, feats=['call chain'])
    if k == 4:
        n = size(src, 20000)
        return Case('int @f(int n, int a) { int x; x = a ^ n; if (n == 0) return a; return @f(n - 1, a * 3 + 1) - x; }\nvoid @main(void) { put_i(@f(%d, %d)); }\n' % (n, v), need=3, feats=['recursion'])
    if k == 5:
        n = size(src, 400)
        z = src.draw(n + 1)
        op, w = src.choice([('&&', 0), ('||', 1)])
        one = lambda i: '@t(%d)' % ((w if i == z else 1 - w) + 2 * i)
        e = one(0)
        sh = src.draw(3)
        for i in range(1, n):
            e = '%s %s %s' % (e, op, one(i)) if sh == 0 else '(%s) %s %s' % (e, op, one(i)) if sh == 1 or i > 100 else '%s %s (%s)' % (one(i), op, e)
        return Case('int @c;\nint @t(int i) { @c = @c * 5 + i; return i %% 2; }\nvoid @main(void) { put_i(%s); put_i(@c); if (%s) put_i(1); else put_i(2); put_i(@c); }\n' % (e, e), need=3, feats=['logic chain'])
    if k == 6:
        n = min(size(src, 40), 40)
        ss = ''.join('struct @s%d { char c%d; %s x; };\n' % (i, i, 'struct @s%d' % (i - 1) if i else 'int') for i in range(n))
        ini = '%d' % v
        for i in range(n):
            ini = '{%d, %s}' % ((i * 7 + v) % 100, ini)
        sh = ' '.join('put_c(%s%s.c%d);' % ('%s', '.x' * i, n - 1 - i) for i in range(n)) + ' put_i(%s' + '.x' * n + ');'
        return Case(ss + 'struct @s%d @g = %s;\nvoid @main(void) { struct @s%d s = %s; %s %s }\n' % (n - 1, ini, n - 1, ini, sh.replace('%s', 's'), sh.replace('%s', '@g')), need=3, feats=['initialiser nest'])
    if k == 7:
        n = size(src, 60)
        b, sh = '', ''
        for i in range(n):
            b += '{ %s a = a0 + %d; %s b[2]; b[0] = a; b[1] = a0; put_l((long)a); put_l((long)b[1]); a0 = a0 + b[0]; ' % (NAME[ITYPES[(i + v) % len(ITYPES)]], i, NAME[ITYPES[(i * 3 + v) % len(ITYPES)]])
        return Case('void @main(void) { unsigned int a0; a0 = %d; %s %s put_u(a0); }\n' % (v, b, 'put_u(a0); }' * n), need=3, feats=['shadow nest'])
    if k == 8:
        n = size(src, 300)
        return Case('void @main(void) { int x; unsigned long h; x = %d; h = 0; %s put_ul(h); }\n' % (v, ' '.join('for (int i = 0; i < %d; i++) { h = h * 7 + i; if (h %% %d == 3) %s; h += x; }' % (i % 3 + 1, i % 5 + 3, ['continue', 'break', 'x++'][(i + v) % 3]) for i in range(n))), need=3, feats=['loops'])
    n = size(src, 300)
    return Case('int @f(int k) { %s return -1; }\nvoid @main(void) { %s }\n' % (' '.join('if (k == %d) { return %d; }' % (i, i * 3 + v) for i in range(n)), ' '.join('put_i(@f(%d));' % i for i in sorted({0, n - 1, n, src.draw(n)}))), need=3, feats=['returns'])


BIG = [(f.__name__, f) for f in (big_locals, big_frame, big_globals, big_functions, big_names, big_strings, big_string, big_enum, big_struct, big_switch, big_chain, big_nest, big_args, big_init, big_typedef, big_stmts, big_numbers, big_more)]
