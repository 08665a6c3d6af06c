"""Families: calls, calling convention against gcc-compiled code, function pointers, recursion; register pressure."""
from core import *
from batch import Case


def args_for(src, ts, env=None, depth=1, max_need=3):
    out = []
    for t in ts:
        if env is not None and src.bool(1, 2):
            g = ExprGen(src, env, max_need=max_need, calls=src.bool(1, 4))
            out.append(g.expr(src.draw(depth + 1)))
        else:
            out.append(value_node(src, interesting(src, t)))
    return out


def put_stmt(t, e):
    return '%s(%s);' % (PUT[t], e)


def call_args(src):
    """functions with 0..26 parameters of mixed types; each parameter observed, some modified; all types returned"""
    fs, body = [], []
    env = Env(src, n=src.int(1, 3), kinds=['local', 'global', 'arr'])
    nf = src.int(1, 3)
    hi = 2
    for k in range(nf):
        n = src.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 12, src.int(0, 12), src.int(13, 26)])
        ts = [src.choice(ITYPES) for _ in range(n)]
        r = src.choice(ITYPES + ['v'])
        st = [put_stmt(t, 'p%d' % i) for i, t in enumerate(ts)]
        if ts and src.bool():
            i = src.draw(n)
            st.append('p%d %s %s;' % (i, src.choice(['=', '+=', '^=']), value_node(src, interesting(src, ts[i])).text()))
            st += [put_stmt(t, 'p%d' % j) for j, t in enumerate(ts)]
        if r != 'v':
            if ts:
                e = 'p%d' % src.draw(n)
                if src.bool():
                    e += ' + p%d' % src.draw(n)
            else:
                e = value_node(src, interesting(src, r)).text()
            st.append('return %s;' % e)
        head = '%s @g%d(%s)' % (NAME.get(r, 'void'), k, ', '.join('%s p%d' % (spell(src, t), i) for i, t in enumerate(ts)) or 'void')
        where = src.draw(3)
        fs.append((head, ts, r, ' '.join(st), where))
    defs, extra = [], []
    for k, (head, ts, r, st, where) in enumerate(fs):
        if where == 2:
            # defined by gcc, called from umlcc
            proto = src.bool()
            if proto:
                defs.append(head + ';')
            else:
                defs.append('%s @g%d(%s);' % (NAME.get(r, 'void'), k, ', '.join(NAME[t] for t in ts) or 'void'))
            extra.append(head + ' { ' + st + ' }')
        else:
            defs.append(head + ' { ' + st + ' }')
    for _ in range(src.int(1, 3)):
        k = src.draw(nf)
        head, ts, r, st, where = fs[k]
        a = args_for(src, ts, env)
        hi = max([hi] + [x.need for x in a])
        c = callnode('@g%d' % k, a, r)
        if r == 'v':
            body.append(c.text() + ';')
        else:
            m = src.draw(4)
            if m == 0:
                body.append(put(c))
            elif m == 1:
                v = src.choice(env.vars)
                e = binary(src.choice(['+', '-', '^']), v.node, c)
                hi = max(hi, e.need + 1)
                body.append(put(e))
            elif m == 2:
                v = src.choice(env.vars)
                body.append('%s = %s;' % (v.node.text(), c.text()))
                body.append(put(v.node))
            else:
                k2 = [j for j in range(nf) if fs[j][1]]
                if k2:
                    j = src.choice(k2)
                    a2 = args_for(src, fs[j][1], env)
                    a2[src.draw(len(a2))] = c
                    c2 = callnode('@g%d' % j, a2, fs[j][2])
                    hi = max(hi, c2.need + 1)
                    body.append(c2.text() + ';' if fs[j][2] == 'v' else put(c2))
                else:
                    body.append(put(c))
    body += [put(v.node) for v in env.vars]
    ex = None
    if extra:
        ex = protos() + '\n'.join(extra)
    return Case('\n'.join(defs) + '\n' + env.wrap('\n'.join(body)), extra=ex, need=hi, feats=['args:%d' % len(f[1]) for f in fs] + ['ret:' + f[2] for f in fs])


def protos():
    import harness
    return harness.PRELUDE


def call_from_gcc(src):
    """umlcc functions called by gcc code: arguments with dirty upper halves, return values, callee-saved registers"""
    n = src.choice([0, 1, 3, 5, 6, 7, 8, 11, src.int(0, 10), src.int(12, 34)])
    ts = [src.choice(ITYPES) for _ in range(n)]
    r = src.choice(ITYPES)
    st = []
    for i in src.shuffle(range(n)):
        st.append(put_stmt(ts[i], 'p%d' % i))
        if src.bool(1, 4):
            st.append('put_i(%d);' % i)
    if n:
        e = prim('p%d' % src.draw(n), 'i')
        for _ in range(src.int(0, 3)):
            e = binary(src.choice(['+', '-', '*', '^', '|', '&']), e, prim('p%d' % src.draw(n), 'i'))
        e = e.text()
    else:
        e = value_node(src, interesting(src, r)).text()
    umf = '%s @u(%s) { %s return %s; }\n' % (NAME[r], ', '.join('%s p%d' % (NAME[t], i) for i, t in enumerate(ts)) or 'void', ' '.join(st), e)
    vals = ', '.join('(%s)(%s)' % (NAME[t], cval(interesting(src, t))) for t in ts)
    sig = '%s @u(%s);' % (NAME[r], ', '.join(NAME[t] for t in ts) or 'void')
    extra = protos() + sig + '\nvoid @drive(void) { volatile long a = 11, b = 22, c = 33; long x = a * 3, y = b * 5, z = c * 7; %s put_l(x); put_l(y); put_l(z); put_l(a + b + c); }\n' % (
        ' '.join('%s(@u(%s));' % (PUT[r], vals) for _ in range(src.int(1, 2))))
    return Case('void @drive(void);\n' + umf + 'void @main(void) { @drive(); }\n', extra=extra, need=3, feats=['gccargs:%d' % n])


def cval(v):
    if v == -(1 << 63):
        return '-9223372036854775807LL-1'
    return '%dULL' % v if v >= 1 << 63 else '%dLL' % v


def call_fptr(src):
    """function pointers: variables, arrays, struct members, parameters, results, callbacks from gcc, typedefs"""
    t = src.choice(['i', 'l'])
    T_ = NAME[t]
    P = PUT[t]
    n = src.int(2, 4)
    fs = []
    for k in range(n):
        e = ExprGen(src, _E([('x', t)]), max_need=3).expr(2)
        fs.append('%s @f%d(%s x) { tr(%d, 0); return %s; }' % (T_, k, T_, k, e.text()))
    pre = list(fs)
    decl, body = [], []
    td = src.bool()
    if td:
        pre.append('typedef %s (*@F)(%s);' % (T_, T_))

    def dcl(name):
        return '@F %s' % name if td and src.bool() else '%s (*%s)(%s)' % (T_, name, T_)

    def fn():
        k = src.draw(n)
        return src.choice(['@f%d', '&@f%d', '*@f%d']) % k if src.bool() else '@f%d' % k
    use = []
    for i in range(src.int(1, 4)):
        m = src.draw(8)
        a = value_node(src, interesting(src, t)).text()
        if m == 0:
            decl.append(dcl('p%d' % i) + ';')
            body.append('p%d = %s;' % (i, fn()))
            body.append('%s(p%d(%s)); %s((*p%d)(%s));' % (P, i, a, P, i, a))
        elif m == 1:
            sz = src.int(1, 4)
            pre.append(dcl('@t%d[%d]' % (i, sz)) + ';')
            for j in range(sz):
                body.append('@t%d[%d] = %s;' % (i, j, fn()))
            body.append('for (int i = 0; i < %d; i++) %s(@t%d[i](%s));' % (sz, P, i, a))
        elif m == 2:
            pre.append('struct @O%d { %s; int k; %s; };' % (i, dcl('f'), dcl('g[2]')))
            decl.append('struct @O%d o%d; struct @O%d* q%d;' % (i, i, i, i))
            body.append('o%d.f = %s; o%d.g[1] = %s; q%d = &o%d;' % (i, fn(), i, fn(), i, i))
            body.append('%s(o%d.f(%s)); %s(q%d->f(%s)); %s((*q%d->g[1])(%s));' % (P, i, a, P, i, a, P, i, a))
        elif m == 3:
            pre.append('%s @ap%d(%s, %s x) { return f(x) %s 1; }' % (T_, i, dcl('f'), T_, src.choice(['+', '-', '*'])))
            body.append('%s(@ap%d(%s, %s));' % (P, i, fn(), a))
        elif m == 4:
            k1, k2 = src.draw(n), src.draw(n)
            ret = '@F @sel%d(int k)' % i if td else '%s (*@sel%d(int k))(%s)' % (T_, i, T_)
            pre.append('%s { if (k) return @f%d; return &@f%d; }' % (ret, k1, k2))
            body.append('%s(@sel%d(0)(%s)); %s((*@sel%d(1))(%s));' % (P, i, a, P, i, a))
        elif m == 5:
            body.append('%s(call_%s(%s, %s));' % (P, t, fn(), a))
        elif m == 6:
            decl.append(dcl('c%d' % i) + ';')
            decl.append('int k%d;' % i)
            body.append('k%d = %d; c%d = k%d ? %s : %s; %s(c%d(%s));' % (i, src.draw(2), i, i, '@f%d' % src.draw(n), '@f%d' % src.draw(n), P, i, a))
        else:
            decl.append(dcl('x%d' % i) + ';')
            decl.append('%s (**y%d)(%s);' % (T_, i, T_))
            body.append('x%d = %s; y%d = &x%d; %s((*y%d)(%s)); %s((**y%d)(%s)); put_i(x%d == *y%d);' % (i, fn(), i, i, P, i, a, P, i, a, i, i))
    return Case('\n'.join(pre) + '\nvoid @main(void) {\n%s\n%s\n}\n' % ('\n'.join(decl), '\n'.join(body)), need=4)


def call_fptr_live(src):
    """calls through pointers with 0..24 arguments of every type while other values are live"""
    n = src.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 10, src.int(11, 24)])
    ts = [src.choice(ITYPES) for _ in range(n)]
    r = src.choice(ITYPES)
    ps = ', '.join('%s p%d' % (NAME[t], i) for i, t in enumerate(ts)) or 'void'
    sig = ', '.join(NAME[t] for t in ts) or 'void'
    st = ' '.join(put_stmt(t, 'p%d' % i) for i, t in enumerate(ts))
    res = ' + '.join('p%d * %d' % (i, i + 2) for i in range(n) if ts[i] in ('u', 'ul', 'ull')) or '%d' % src.draw(100)
    pre, extra = [], []
    for k in range(2):
        head = '%s @g%d(%s)' % (NAME[r], k, ps)
        d = head + ' { put_i(%d); %s return %s; }' % (k, st, res if k else 'p%d' % (n - 1) if n else '7')
        if src.bool(1, 4):
            pre.append(head + ';')
            extra.append(d)
        else:
            pre.append(d)
    fp = lambda nm: '%s (*%s)(%s)' % (NAME[r], nm, sig)
    kind = src.draw(8)
    decl, param, arg = '', '', ''
    set_ = '%s = @g%d;'
    if kind == 0:
        decl, P = fp('p') + ';', 'p'
    elif kind == 1:
        pre.append(fp('@p') + ';')
        P = '@p'
    elif kind == 2:
        decl, P = fp('p[3]') + '; int k; k = %d;' % src.draw(3), 'p[k]'
    elif kind == 3:
        pre.append(fp('@t[3]') + ';')
        P = '@t[%d]' % src.draw(3)
    elif kind == 4:
        pre.append('struct @O { char c; %s; };' % fp('f'))
        decl, P = 'struct @O o;', 'o.f'
    elif kind == 5:
        pre.append('struct @O { char c; %s; };' % fp('f[2]'))
        decl, P = 'struct @O o; struct @O* q; q = &o;', 'q->f[%d]' % src.draw(2)
    elif kind == 6:
        decl, P = fp('p0') + '; ' + fp('*p') + '; p = &p0;', '(*p)'
    else:
        decl, P = '', 'fp'
    env = Env(src, n=src.int(2, 4), kinds=['local', 'global', 'arr'])
    body = []
    need = 3
    callee = P if src.bool(2, 3) else ('(*%s)' % P)
    for _ in range(src.int(1, 3)):
        a = args_for(src, ts, env, depth=1, max_need=2)
        e = callnode(callee, a, r)
        live = src.draw(6)
        for _i in range(live):
            v = src.choice(env.vars).node
            op = src.choice(['+', '-', '^', '*', '|', '<', '=='])
            e2 = binary(op, v, e) if src.bool(3, 4) else binary(op, e, v)
            e = e2
        need = max(need, e.need + 1)
        if kind != 7:
            body.append(set_ % (P, src.draw(2)))
        body.append(put(e))
    body += [put(v.node) for v in env.vars]
    text = env.wrap('\n'.join(([decl] if decl else []) + body))
    if kind == 7:
        text = text.replace('void @main(void)', 'void @inner(%s)' % fp('fp'), 1) + 'void @main(void) { @inner(@g0); @inner(&@g1); }\n'
    return Case('\n'.join(pre) + '\n' + text, extra=protos() + '\n'.join(extra) if extra else None, need=need, feats=['fptrargs:%d' % n, 'fptrkind:%d' % kind])


class _E:
    def __init__(self, vs):
        self.vars = [Var(prim(v, t), t, 0) for v, t in vs]


def call_rec(src):
    """recursion: locals and parameters of every activation are separate; results combine over the tree of calls"""
    t = src.choice(['i', 'l', 'u', 'll'])
    T_ = NAME[t]
    k = src.draw(5)
    c1, c2 = src.int(1, 9), src.int(1, 9)
    op = src.choice(['+', '-', '^', '*'])
    if k == 0:
        f = '%s @f(%s n) { %s a; a = n %s %d; if (n < 2) return n + %d; return @f(n - 1) %s @f(n - 2) + a; }' % (T_, T_, T_, op, c1, c2, src.choice(['+', '-', '^']))
        call = '@f(%d)' % src.int(0, 9)
    elif k == 1:
        f = '%s @f(%s n, %s acc) { %s loc[3]; loc[0] = n; loc[1] = acc; loc[2] = %d; if (n == 0) return acc; acc = @f(n - 1, acc %s n); return acc + loc[0] * loc[2] + loc[1]; }' % (T_, T_, T_, T_, c1, op)
        call = '@f(%d, %d)' % (src.int(0, 20), c2)
    elif k == 2:
        f = '%s @f(%s m, %s n) { if (m == 0) return n + 1; if (n == 0) return @f(m - 1, 1); return @f(m - 1, @f(m, n - 1)); }' % (T_, T_, T_)
        call = '@f(%d, %d)' % (src.int(0, 2), src.int(0, 4))
    elif k == 3:
        f = ('int @n; void @h(int n, int a, int b, int c) { @n = @n * 3 + a; if (n == 0) return; @h(n - 1, a, c, b); put_i(a * 10 + c); @h(n - 1, b, a, c); }\n'
             '%s @f(int n) { @n = %d; @h(n, 1, 2, 3); return @n; }' % (T_, c1))
        call = '@f(%d)' % src.int(0, 4)
    else:
        nargs = src.int(7, 10)
        ps = ', '.join('%s p%d' % (T_, i) for i in range(nargs))
        rot = ', '.join('p%d' % ((i + 1) % nargs) for i in range(nargs))
        f = '%s @f(int n, %s) { %s s; s = %s; if (n <= 0) return s; return s %s @f(n - 1, %s); }' % (
            T_, ps, T_, ' + '.join('p%d * %d' % (i, i + 1) for i in range(nargs)), src.choice(['+', '-', '^']), rot)
        call = '@f(%d, %s)' % (src.int(0, 6), ', '.join(str(src.int(0, 99)) for _ in range(nargs)))
    return Case('%s\nvoid @main(void) { %s(%s); }\n' % (f, PUT[t], call), need=3)


def call_mutual(src):
    """calls through function pointers stored by main: mutual recursion, state machines"""
    n = src.int(2, 4)
    body, pre = [], ['int (*@tab[%d])(int, int);' % n]
    for i in range(n):
        j = src.draw(n)
        e = src.choice(['x * 3 + %d', 'x ^ %d', 'x - %d', 'x + n * %d']) % src.int(1, 50)
        pre.append('int @s%d(int n, int x) { put_i(x); if (n <= 0) return x; return @tab[%s](n - 1, %s); }' % (
            i, src.choice([str(j), '(x & 1) + %d' % src.draw(n - 1), 'n %% %d' % n]), e))
        body.append('@tab[%d] = @s%d;' % (i, i))
    body.append('put_i(@tab[%d](%d, %d));' % (src.draw(n), src.int(0, 12), src.int(0, 99)))
    return Case('\n'.join(pre) + '\nvoid @main(void) { %s }\n' % ' '.join(body), need=4)


# ---------------------------------------------------------------- register pressure

def press_expr(src):
    """expressions with many simultaneously live values, mixing division, shifts, comparisons and calls"""
    env = Env(src, n=src.int(3, 6))
    lim = src.choice([4, 5, 5, 6, 7, 9])
    g = ExprGen(src, env, calls=True, max_need=lim, leaf_const=2)
    ops = src.choice([ALLBIN, ARITH + SHIFT, ['/', '%', '+', '-', '<<'], ['+', '-', '*', '^'], ['/', '%', '>>', '<', '&&']])
    body, need = [], 0
    for _ in range(src.int(1, 3)):
        d = src.int(2, 6)
        e = g.leaf()
        for _i in range(d):
            op = src.choice(ops)
            if src.bool(2, 3):
                e2 = g.bin(op, g.expr(src.draw(2)), e) if op not in ('/', '%', '<<', '>>') else _rbin(src, g, op, e)
            else:
                e2 = g.bin(op, e, g.expr(src.draw(3)))
            if src.bool(1, 6):
                t = src.choice(ITYPES)
                e2 = callnode('id_' + t, [e2], t)
            if e2.need > lim:
                break
            e = e2
        need = max(need, e.need)
        body.append(put(e))
    body += [put(v.node) for v in env.vars[:2]]
    return Case(env.wrap('\n'.join(body)), need=need, feats=['need:%d' % need])


def _rbin(src, g, op, e):
    """op with the deep operand on the right"""
    a = g.expr(src.draw(2))
    if op in ('/', '%'):
        b = binary('|', binary('&', e, unary('-', prim('3', 'i'))), prim('1', 'i'))
    else:
        b = binary('&', e, prim(str(8 * SIZE[promote(a.typ)] - 1), 'i'))
    return binary(op, a, b)


def press_calls(src):
    """values kept across calls: sums of calls, calls in arguments of calls, calls on both sides of every operator"""
    env = Env(src, n=src.int(2, 4))
    vs = [v.node for v in env.vars]
    g = ExprGen(src, env, max_need=3, calls=True)

    def tree(d):
        if d == 0:
            k = src.draw(3)
            if k == 0:
                return src.choice(vs)
            t = src.choice(ITYPES)
            return callnode('id_' + t, [src.choice(vs) if src.bool() else const(src)], t)
        k = src.draw(6)
        if k == 0:
            t = src.choice(ITYPES)
            return callnode('id_' + t, [tree(d - 1)], t)
        if k == 1:
            return callnode('@g', [tree(d - 1) for _ in range(ng)], 'l')
        return g.bin(src.choice(['+', '-', '^', '*', '|', '/', '%', '>>', '<']), tree(d - 1 - src.draw(d)), tree(d - 1 - src.draw(d)))
    ng = src.choice([1, 2, 3, 6, 7, 8])
    pre = 'long @g(%s) { return %s; }\n' % (', '.join('long p%d' % i for i in range(ng)), ' + '.join('p%d * %d' % (i, 2 * i + 1) for i in range(ng)))
    body, need = [], 0
    for _ in range(src.int(1, 3)):
        e = tree(src.int(1, 3))
        if e.size > 80:
            e = tree(1)
        need = max(need, e.need)
        body.append(put(e))
    return Case(pre + env.wrap('\n'.join(body)), need=need, feats=['need:%d' % need])


def press_mem(src):
    """live values across stores, subscripts, increments and pointer arithmetic inside one expression"""
    n = src.int(3, 6)
    t = src.choice(ITYPES)
    body = ['%s a[%d]; int i; int j; %s* p; long k;' % (NAME[t], n, NAME[t])]
    for i in range(n):
        body.append('a[%d] = %s;' % (i, value_node(src, interesting(src, t)).text()))
    body.append('i = %d; j = %d; k = %d; p = a + %d;' % (src.draw(n), src.draw(n), src.draw(n), src.draw(n)))
    env = _E([('i', 'i'), ('j', 'i'), ('k', 'l')])

    def lv(d):
        k = src.draw(5)
        if k == 0:
            return Node(P_POST, t, ['a[i]'], 2)
        if k == 1:
            return Node(P_UN, t, ['*p'], 1)
        if k == 2 or d == 0:
            return Node(P_POST, t, ['a[%d]' % src.draw(n)], 2)
        if k == 3:
            return Node(P_POST, t, ['a[(i + j) %% %d]' % n], 3)
        return Node(P_UN, t, ['*(a + (j * k + 1) %% %d)' % n], 3)
    need = 0
    for _ in range(src.int(1, 4)):
        e = lv(2)
        for _i in range(src.int(1, 4)):
            op = src.choice(['+', '-', '*', '^', '|', '&'])
            e2 = binary(op, lv(1), e) if src.bool() else binary(op, e, lv(1))
            if e2.need > 5:
                break
            e = e2
        if src.bool():
            l = lv(1)
            st = assign(src.choice(['=', '+=', '-=', '^=']), l, e)
            need = max(need, st.need + 1)
            body.append(st.text() + ';' if src.bool() else put(st))
        else:
            need = max(need, e.need)
            body.append(put(e))
    body.append('for (i = 0; i < %d; i++) %s(a[i]);' % (n, PUT[t]))
    return Case('void @main(void) {\n%s\n}\n' % '\n'.join(body), need=need, feats=['need:%d' % need])


def call_void_result(src):
    """statement calls in every position, void functions, unused results, early returns"""
    n = src.int(1, 4)
    pre = ['int @cnt;']
    for k in range(n):
        pre.append('%s @v%d(%s) { @cnt += %d; if (%s) return%s; @cnt *= 2; %s }' % (
            *(('void', k, 'int x', src.int(1, 9), 'x > %d' % src.draw(4), '', 'put_i(@cnt);') if src.bool() else
              (NAME[src.choice(ITYPES)], k, 'int x', src.int(1, 9), 'x & 1', ' @cnt', 'return x + @cnt;')),))
    body = []
    for _ in range(src.int(2, 6)):
        c = '@v%d(%d)' % (src.draw(n), src.draw(6))
        body.append(src.choice(['%s;', 'if (@cnt < 100) %s; else put_i(1);', 'for (int i = 0; i < 2; i++) %s;', '{ %s; }', 'while (@cnt < 5) %s;']) % c)
    return Case('\n'.join(pre) + '\nvoid @main(void) { @cnt = 1; %s put_i(@cnt); }\n' % ' '.join(body), need=3)


CALL = [('call_args', call_args), ('call_from_gcc', call_from_gcc), ('call_fptr', call_fptr), ('call_fptr_live', call_fptr_live), ('call_rec', call_rec), ('call_mutual', call_mutual), ('call_void', call_void_result)]
PRESS = [('press_expr', press_expr), ('press_calls', press_calls), ('press_mem', press_mem)]
