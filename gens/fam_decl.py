"""Families: scopes and name spaces, typedefs, enums; literals; declarators; operator precedence."""
from core import *
from batch import Case
from fam_data import str_body


# ---------------------------------------------------------------- scopes

POOL = ['a', 'b', 'c', 'd', 'ab', 'ba', 'A', 'B', '_x', 'x1', 'x2', 'int_', 'Int', 'ifx', 'whil']


def scope_nest(src):
    """nested blocks, loops, functions re-declaring a small pool of names at will; each read is of the innermost one"""
    names = src.sample(POOL, src.int(2, 5))
    k = [0]
    gl = []
    gscope = {}
    for n in names:
        if src.bool(1, 3):
            t = src.choice(ITYPES)
            gl.append('%s @%s = %d;' % (NAME[t], n, src.draw(100)))
            gscope[n] = ('@' + n, t)
    # file-scope names carry the case prefix, so a local of the same name must be declared with it too
    stack = [dict(gscope)]
    declared = [set(gscope)]

    def lookup(n):
        for s in reversed(stack):
            if n in s:
                return s[n]
        return None

    def use():
        vis = {}
        for s in stack:
            vis.update(s)
        if not vis:
            return 'put_i(0);'
        n = src.choice(sorted(vis))
        nm, t = vis[n]
        m = src.draw(4)
        k[0] += 1
        if m == 0:
            return '%s = %d;' % (nm, src.draw(120))
        if m == 1:
            return '%s += %d;' % (nm, src.int(1, 9))
        return '%s(%s);' % (PUT[t], nm)

    def decl():
        free = [n for n in names if n not in stack[-1]]
        if not free:
            return use()
        n = src.choice(free)
        t = src.choice(ITYPES)
        nm = '@' + n if n in gscope else n
        outer = lookup(n)
        if outer and src.bool(1, 3):
            # initialiser may use other visible names (not the one being declared)
            others = [m for m in names if m != n and lookup(m)]
            if others:
                o = lookup(src.choice(others))
                stack[-1][n] = (nm, t)
                return '%s %s = %s + %d;' % (NAME[t], nm, o[0], src.draw(9))
        stack[-1][n] = (nm, t)
        return '%s %s = %d;' % (NAME[t], nm, src.draw(100))

    def block(d, pre=''):
        stack.append({})
        out = [pre] if pre else []
        for _ in range(src.int(1, 5)):
            out.append(stmt(d))
        stack.pop()
        return '{ ' + ' '.join(out) + ' }'

    def stmt(d):
        m = src.draw(10)
        if m < 3:
            return decl()
        if m < 7 or d == 0:
            return use()
        if m == 7:
            return block(d - 1)
        if m == 8:
            stack.append({})
            n = src.choice(names)
            nm = '@' + n if n in gscope else n
            stack[-1][n] = (nm, 'i')
            b = block(d - 1)
            # the body must not change the loop variable of this scope: give it its own counter
            stack.pop()
            k[0] += 1
            c = 'cnt%d' % k[0]
            return '{ int %s = 0; for (int %s = %d; %s < 2; %s++) { %s++; if (%s > 2) break; %s } }' % (c, nm, src.draw(2), c, nm, c, c, b)
        return 'if (%d) %s else %s' % (src.draw(2), block(d - 1), block(d - 1))

    funs = []
    for f in range(src.int(0, 2)):
        stack.append({})
        ps = src.sample(names, src.int(0, min(3, len(names))))
        pts = [src.choice(ITYPES) for _ in ps]
        for n, t in zip(ps, pts):
            stack[-1][n] = ('@' + n if n in gscope else n, t)
        stack.append({})
        inner = [stmt(1) if i else 'put_i(%d);' % f for i in range(src.int(1, 4))]
        # the outermost block of a function shares the scope of its parameters: do not redeclare them there
        for n in ps:
            pass
        stack.pop()
        body = '{ ' + ' '.join(inner) + ' }'
        stack.pop()
        funs.append(('void @fn%d(%s) { %s }' % (f, ', '.join('%s %s' % (NAME[t], '@' + n if n in gscope else n) for n, t in zip(ps, pts)) or 'void', body), len(ps)))
    stack.append({})
    out = []
    for _ in range(src.int(2, 6)):
        out.append(stmt(3))
        if funs and src.bool(1, 4):
            i = src.draw(len(funs))
            out.append('@fn%d(%s);' % (i, ', '.join(str(src.draw(90)) for _ in range(funs[i][1]))))
    stack.pop()
    tail = ' '.join('%s(%s);' % (PUT[t], nm) for nm, t in gscope.values())
    return Case('\n'.join(gl) + '\n' + '\n'.join(f for f, _ in funs) + '\nvoid @main(void) { %s %s }\n' % (' '.join(out), tail), need=3)


def scope_spaces(src):
    """one identifier as tag, member, variable, parameter, typedef-free function name: separate name spaces"""
    n = src.choice(['a', 'b', 'x'])
    t1, t2 = src.choice(ITYPES), src.choice(ITYPES)
    k = src.draw(5)
    v1, v2, v3 = src.draw(100), src.draw(100), src.draw(100)
    if k == 0:
        text = 'struct @%s { %s @%s; %s y; };\nvoid @main(void) { struct @%s @%s; struct @%s* p; @%s.@%s = %d; @%s.y = %d; p = &@%s; %s(p->@%s); %s(p->y); }' % (
            n, NAME[t1], n, NAME[t2], n, n, n, n, n, v1, n, v2, n, PUT[t1], n, PUT[t2])
    elif k == 1:
        text = 'int @%s(%s @%s) { return @%s + %d; }\nvoid @main(void) { put_i(@%s(%d)); }' % (n, NAME[t1], n, n, v1, n, v2)
    elif k == 2:
        text = ('struct @S { %s m; };\nstruct @R { %s m; struct @S s; };\nvoid @main(void) { struct @R m; m.m = %d; m.s.m = %d; %s(m.m); %s(m.s.m); }' % (
            NAME[t1], NAME[t2], v1, v2, PUT[t2], PUT[t1]))
    elif k == 3:
        text = 'enum @E { @A = %d, @B, @C = %d, @D };\nvoid @main(void) { enum @E e; int @B; @B = %d; e = @D; put_i(e); put_i(@B); put_i(@C); { enum { @C = %d, @Z }; put_i(@C); put_i(@Z); } put_i(@C); }' % (v1, v2, v3, v1 + 1)
    else:
        text = 'typedef %s @T;\n@T @f(@T x) { @T y; y = x + %d; return y; }\nvoid @main(void) { @T x; x = @f(%d); %s(x); { int T; T = %d; put_i(T); } put_i(sizeof(@T)); }' % (NAME[t1], v1, v2, PUT[t1], v3)
    return Case(text + '\n', need=3, feats=['spaces:%d' % k])


def scope_enum(src):
    """enumerators: implicit values follow the previous one; usable as constants in expressions, array sizes are not needed"""
    n = src.int(1, 8)
    items, vals_ = [], []
    cur = 0
    for i in range(n):
        if src.bool(1, 3):
            cur = src.choice([src.draw(20), src.draw(1000), 2147483000 + src.draw(600)])
            items.append('@e%d = %s' % (i, int_literal(src, cur, plain=True).text()))
        else:
            items.append('@e%d' % i)
        vals_.append(cur)
        cur += 1
    tag = '@E ' if src.bool() else ''
    decl = 'enum %s{ %s%s };' % (tag, ', '.join(items), ',' if src.bool(1, 4) else '')
    loc = src.bool(1, 3)
    body = [decl] if loc else []
    body += ['put_i(@e%d);' % i for i in range(n)]
    i, j = src.draw(n), src.draw(n)
    body.append('put_i(@e%d %s @e%d); put_i(sizeof(@e%d)); put_l(@e%d - 1l);' % (i, src.choice(['-', '<', '==', '^', '&']), j, i, j))
    if tag:
        body.insert(1 if loc else 0, 'enum @E v; v = @e%d; put_i(v); v = %d; put_i(v); put_i(sizeof(v));' % (i, src.draw(50)))
    uniq = {}
    for q in range(n):
        uniq.setdefault(vals_[q], q)
    cs = ' '.join('case @e%d: tr(%d, 0); %s' % (q, q, 'break;' if src.bool() else '') for q in uniq.values())
    body.append('for (int z = 0; z < 5; z++) { switch (@e0 + z) { %s default: tr(99, 0); } }' % cs)
    return Case((decl + '\n' if not loc else '') + 'void @main(void) { %s }\n' % ' '.join(body), need=3)


def scope_typedef(src):
    """chains of typedefs over every derived type are the types they name"""
    t = src.choice(ITYPES)
    P = PUT[t]
    pre, body = [], []
    base = '@T0'
    pre.append('typedef %s @T0;' % spell(src, t))
    for i in range(1, src.int(1, 3)):
        pre.append('typedef @T%d @T%d;' % (i - 1, i))
        base = '@T%d' % i
    n = src.int(1, 4)
    pre.append('typedef %s @Arr[%d];' % (base, n))
    pre.append('typedef %s* @Ptr;' % base)
    pre.append('typedef %s @Fn(%s);' % (base, base))
    pre.append('typedef @Fn* @FP;')
    pre.append('typedef struct @S { @Arr a; @Ptr p; %s v; } @St;' % base)
    pre.append('typedef @St* @Sp, @Sa[2];')
    pre.append('%s @id(%s x) { return x; }' % (base, base))
    pre.append('@Sa @g;')
    v = [value_node(src, interesting(src, t)).text() for _ in range(4)]
    body.append('@Arr a; @Ptr p; @FP f; @St s; @Sp q; int i;')
    body.append('for (i = 0; i < %d; i++) a[i] = i + %d; p = a; %s(p[%d]);' % (n, src.draw(50), P, src.draw(n)))
    body.append('f = @id; %s(f(%s)); s.v = %s; s.p = &s.a[%d]; *s.p = %s; q = &s; %s(q->v); %s(q->a[%d]);' % (P, v[0], v[1], src.draw(n), v[2], P, P, 0) if False else
                'f = @id; %s(f(%s)); s.v = %s; s.p = s.a; *s.p = %s; q = &s; %s(q->v); %s(q->a[0]);' % (P, v[0], v[1], v[2], P, P))
    body.append('@g[1].v = %s; q = @g; %s(q[1].v); q++; %s(q->v); put_i(sizeof(@Arr)); put_i(sizeof(@St)); put_i(sizeof(@Sa)); put_i(sizeof(@FP)); put_i(sizeof(a)); %s((%s)%s);' % (v[3], P, P, P, base, v[0]))
    return Case('\n'.join(pre) + '\nvoid @main(void) {\n%s\n}\n' % '\n'.join(body), need=4)


# ---------------------------------------------------------------- literals

def lit_int(src):
    """integer constants: every base and suffix, values around every type boundary; value, type (size, signedness) observed"""
    body = []
    for _ in range(src.int(3, 8)):
        v = abs(interesting(src, src.choice(ITYPES)))
        if src.bool(1, 3):
            v = (1 << src.draw(64)) + src.int(-2, 2)
            v = max(0, min(v, 2 ** 64 - 1))
        e = int_literal(src, v)
        m = src.draw(5)
        if m < 2:
            body.append(put(e))
        elif m == 2:
            body.append('put_i(sizeof(%s)); put_i(-%s < 0);' % (e.text(), e.text()))
        elif m == 3:
            body.append('put_ull(%s); put_i(%s);' % (e.text(), e.text()))
        else:
            t = src.choice(ITYPES)
            x = 'x%d' % len(body)
            body.append('%s %s = %s; %s(%s);' % (NAME[t], x, e.text(), PUT[t], x))
    return Case('void @main(void) { %s }\n' % ' '.join(body), need=3)


ESC = {'n': 10, 't': 9, '\\': 92, "'": 39, '"': 34, 'a': 7, 'b': 8, 'f': 12, 'r': 13, 'v': 11, '?': 63}


def esc_char(src):
    """one character of a literal (text without delimiters)"""
    k = src.draw(6)
    if k == 0:
        return '\\' + src.choice(sorted(ESC))
    if k == 1:
        v = src.draw(256)
        return '\\' + src.choice(['%o', '%02o', '%03o']) % v
    if k == 2:
        v = src.draw(256)
        return '\\x' + '0' * src.choice([0, 0, 1, 2, 3, 5, 9, 30]) + src.choice(['%x', '%02x', '%X', '0%x']) % v
    return src.choice(CHARS)


def lit_char(src):
    body = []
    for _ in range(src.int(3, 10)):
        c = esc_char(src)
        m = src.draw(4)
        body.append(["put_i('%s');" % c, "put_i(sizeof('%s'));" % c, "put_i('%s' + 1);" % c, "{ char c; c = '%s'; put_i(c == '%s'); put_c(c); }" % (c, c)][m])
    return Case('void @main(void) { %s }\n' % ' '.join(body), need=3)


def lit_str(src):
    """string literals: bytes, terminator, size; as pointers, array initialisers, arguments; each literal independent"""
    pre, body = [], ['char* p; char* q;']
    for i in range(src.int(1, 4)):
        out = []
        for _ in range(src.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, src.int(0, 40)])):
            c = esc_char(src)
            if out and out[-1][0] == '\\' and out[-1][1:2] in 'x01234567' and c[0] in '0123456789abcdefABCDEF':
                c = ' '
            if c == '"' or c == '?':
                c = '_'
            out.append(c)
        s = ''.join(out)
        m = src.draw(6)
        n = len(out) + 1
        if m == 0:
            body.append('p = "%s"; put_mem(p, %d);' % (s, n))
        elif m == 1:
            body.append('put_s("%s"); put_i(sizeof("%s"));' % (s, s))
        elif m == 2:
            z = src.draw(5)
            body.append('char a%d[%d] = "%s"; put_mem(a%d, %d);' % (i, n + z, s, i, n + z))
        elif m == 3:
            z = src.draw(5)
            pre.append('char @g%d[%d] = "%s";' % (i, n + z, s))
            body.append('put_mem(@g%d, %d);' % (i, n + z))
        elif m == 4 and n > 1:
            body.append('put_i("%s"[%d]); put_i(*("%s" + %d));' % (s, src.draw(n), s, src.draw(n)))
        else:
            body.append('q = "%s"; while (*q) put_c(*q++);' % s)
    return Case('\n'.join(pre) + '\nvoid @main(void) {\n%s\n}\n' % '\n'.join(body), need=3)


# ---------------------------------------------------------------- declarators

def decl_type(src):
    """random declarators (pointers, arrays, functions nested with and without parentheses): the object is used through
    the operators in the order its declarator spells them"""
    base = src.choice(['i', 'l', 'c', 'u'])
    n = src.int(1, 5)
    # build inside-out: list of derivations applied to the identifier, first = outermost
    chain = []
    prev = None
    for _ in range(n):
        c = src.weighted([(3, 'p'), (3, 'a'), (2, 'f')])
        if prev == 'f' and c in 'af':
            c = 'p'                      # function returning array/function
        if prev == 'a' and c == 'f':
            c = 'p'                      # array of functions
        chain.append((c, src.int(1, 4)))
        prev = c
    if chain[0][0] == 'f':
        chain.insert(0, ('p', 0))
    # declarator text
    d = 'x'
    last = None
    for c, k in chain:
        if c == 'p':
            d = '*' + d
        else:
            if last == 'p':
                d = '(' + d + ')'
            d += '[%d]' % k if c == 'a' else src.choice(['(int)', '(void)', '(char, long)', '(int y)'])
        last = c
    # sizeof through each prefix of uses
    body = []
    e = 'x'
    prec = P_PRIM
    sizes = []
    for i, (c, k) in enumerate(chain):
        if c == 'f':
            break
        if chain[i][0] != 'f':
            sizes.append('put_i(sizeof(%s));' % e)
        if c == 'p':
            # dereferencing a pointer to function: stop (sizeof a function is invalid)
            if i + 1 < len(chain) and chain[i + 1][0] == 'f':
                break
            e = '*' + (e if prec >= P_UN else '(' + e + ')')
            prec = P_UN
        else:
            j = src.draw(k)
            e = (e if prec >= P_POST else '(' + e + ')') + '[%d]' % j
            prec = P_POST
    else:
        sizes.append('put_i(sizeof(%s));' % e)
    td = ''
    glob = src.bool()
    decl = '%s %s;' % (NAME[base], d)
    m = src.draw(3)
    if m == 0:
        text = (decl.replace('x', '@x', 1) if False else '') + 'void @main(void) { %s %s }\n' % (decl, ' '.join(sizes))
    elif m == 1:
        text = '%s %s;\nvoid @main(void) { %s }\n' % (NAME[base], _sub(d, '@x'), ' '.join(_sub(s, '@x') for s in sizes))
    else:
        text = 'typedef %s %s;\nvoid @main(void) { @T x; %s put_i(sizeof(@T)); }\n' % (NAME[base], _sub(d, '@T'), ' '.join(sizes))
    return Case(text, need=3, feats=['decl:' + ''.join(c for c, _ in chain)])


def _sub(s, name):
    import re
    return re.sub(r'\bx\b', name, s)


def decl_use(src):
    """objects of derived types set up and used through matching access paths"""
    base = src.choice(ITYPES)
    T_, P = NAME[base], PUT[base]
    v = value_node(src, interesting(src, base)).text()
    w = value_node(src, interesting(src, base)).text()
    n, m = src.int(1, 4), src.int(1, 4)
    i, j = src.draw(n), src.draw(m)
    k = src.draw(9)
    if k == 0:
        t = 'void @main(void) { %s o; %s *a[%d]; a[%d] = &o; *a[%d] = %s; %s(o); %s *(*p)[%d]; p = &a; *(*p)[%d] = %s; %s(o); }' % (T_, T_, n, i, i, v, P, T_, n, i, w, P)
    elif k == 1:
        t = 'void @main(void) { %s a[%d][%d]; %s (*p)[%d]; p = a; p[%d][%d] = %s; %s(a[%d][%d]); %s (*(*q))[%d]; q = &p; (*q)[%d][%d] = %s; %s(a[%d][%d]); }' % (
            T_, n, m, T_, m, i, j, v, P, i, j, T_, m, i, j, w, P, i, j)
    elif k == 2:
        t = '%s @o; %s *@f(int k) { @o = @o + k; return &@o; }\nvoid @main(void) { %s *(*p)(int); p = @f; @o = %s; *p(%d) = %s; %s(@o); %s(*(*p)(%d)); }' % (T_, T_, T_, v, n, w, P, P, m)
    elif k == 3:
        t = '%s @g(%s x) { return x; } %s (*@f(int k))(%s) { put_i(k); return @g; }\nvoid @main(void) { %s (*(*p)(int))(%s); p = @f; %s(p(%d)(%s)); %s((*(*p)(%d))(%s)); }' % (
            T_, T_, T_, T_, T_, T_, P, n, v, P, m, w)
    elif k == 4:
        t = '%s @g(%s x) { return x; } %s (*@tab[%d])(%s);\nvoid @main(void) { @tab[%d] = @g; %s (**p)(%s); p = @tab; %s((*(p + %d))(%s)); %s(p[%d](%s)); %s (*(*q)[%d])(%s); q = &@tab; %s((*q)[%d](%s)); }' % (
            T_, T_, T_, n, T_, i, T_, T_, P, i, v, P, i, w, T_, n, T_, P, i, v)
    elif k == 5:
        t = '%s @a[%d][%d]; %s (*@f(int k))[%d] { return @a + k; }\nvoid @main(void) { (*@f(%d))[%d] = %s; %s(@a[%d][%d]); @f(%d)[0][%d] = %s; %s(@a[%d][%d]); }' % (
            T_, n, m, T_, m, i, j, v, P, i, j, i, j, w, P, i, j)
    elif k == 6:
        t = 'void @main(void) { %s o; %s *p; %s **q; %s ***r; o = %s; p = &o; q = &p; r = &q; ***r = %s; %s(o); %s(**q); %s(*p); %s(***r++); }' % (T_, T_, T_, T_, v, w, P, P, P, P)
    elif k == 7:
        t = 'void @f(%s a[%d], int n) { a[%d] = %s; %s(a[n]); put_i(sizeof(a)); }\nvoid @main(void) { %s b[%d]; b[%d] = %s; @f(b, %d); %s(b[%d]); }' % (T_, n, i, v, P, T_, n, i, w, i, P, i)
    else:
        t = '%s @h(%s x) { return x + 1; } %s @ap(%s f(%s), %s x) { return f(x); }\nvoid @main(void) { %s(@ap(@h, %s)); }' % (T_, T_, T_, T_, T_, T_, P, w)
    return Case(t + '\n', need=5, feats=['use:%d' % k])


# ---------------------------------------------------------------- precedence

def prec_expr(src):
    """mixed operators with only the parentheses C needs; values small and varied so a wrong tree shows"""
    n = src.int(3, 5)
    env = Env(src, n=0)
    for i in range(n):
        t = src.choice(['i', 'i', 'l', 'u', 'c'])
        env.add(src.choice(['local', 'local', 'ptr', 'arr', 'arrow', 'global']), t, value=src.int(-9, 40) if SIGNED[t] else src.int(0, 40))
    g = ExprGen(src, env, max_need=5, leaf_const=3)
    body, need = [], 0
    for _ in range(src.int(2, 5)):
        e = g.expr(src.int(2, 5))
        need = max(need, e.need)
        if src.bool(1, 5):
            v = src.choice(env.vars)
            st = assign(src.choice(['=', '+=', '-=', '*=', '&=', '|=', '^=']), v.node, e)
            need = max(need, st.need)
            body.append(put(st))
            body.append(put(v.node))
        else:
            body.append(put(e))
    body += [put(v.node) for v in env.vars]
    return Case(env.wrap('\n'.join(body)), need=need)


def prec_unary(src):
    """prefix, postfix, cast and sizeof operators in combination, and tokens that must be read greedily"""
    t = src.choice(['i', 'l', 'u', 'c', 'll'])
    T_, P = NAME[t], PUT[t]
    n = src.int(3, 6)
    pos = src.int(1, n - 2)
    pre = 'struct @S { %s v; %s a[3]; %s* p; struct @S* s; };\n' % (T_, T_, T_)
    body = ['%s x; %s y; %s a[%d]; %s* p; struct @S s; struct @S* q; int i;' % (T_, T_, T_, n, T_)]
    body.append('x = %d; y = %d; for (i = 0; i < %d; i++) a[i] = i * %d + 1; p = a + %d; s.v = %d; for (i = 0; i < 3; i++) s.a[i] = i + %d; s.p = p; q = &s; s.s = q; i = 1;' % (
        src.int(1, 20), src.int(1, 20), n, src.int(2, 9), pos, src.int(1, 50), src.int(1, 50)))
    forms = ['-x', '~x', '!x', '- -x', '-(-x)', '!!x', '~-x', '-~x', '+x', '-x - -y', 'x- -y', 'x+ +y', 'x---y', 'x+++y', 'x - --y', 'x + ++y', '*p', '-*p', '!*p', '~*p', '*p * *p', '*p++', '*++p', '(*p)++', '++*p', '--*p',
             '*p--', '*--p', 'p[0]', 'p[1]', '-p[0]', '*p[a - a] + 0' if False else '*(p + 1)', '*p + 1', '&*p == p', '*&x', '**&p', '-*&x', '(%s)x' % T_, '-(%s)x' % T_, '(%s)-x' % T_, '(%s)~x' % T_, '(%s)*p' % T_, '(%s)x + y' % T_,
             '(char)x * y', '(long)x << 2', 'sizeof x', 'sizeof(x)', 'sizeof -x', 'sizeof x + y', 'sizeof(%s)' % T_, 'sizeof(%s) + 1' % T_, 'sizeof a', 'sizeof a / sizeof a[0]', 'sizeof *p', 'sizeof p', 'sizeof(%s*)' % T_, 'sizeof(%s[3])' % T_, 'sizeof s', 'sizeof(struct @S)',
             'q->v', '-q->v', 'q->s->s->v', '++q->v', 'q->v++', '*q->p', '*q->p++', 'q->a[1]', 'q->a[i]++', '++q->a[i]', '*q->a', '-*q->a', '(*q).v', '(*q).a[2]', '(*(*q).s).v', 's.a[i] + s.v', '*s.p', '&s == q', 'a[i]', 'a[i++]', 'a[--i]', 'a[a[0]]', 'i[a]', '-a[i]',
             'x<y', 'x<<1', 'x<=y', 'x>>1', 'x>=y', 'x==y', 'x=y', 'x=-y', 'x=*p', 'x=!y', 'x&y', 'x&&y', 'x & *p', 'x&*p', 'x*-y', 'x**p', 'x^~y', 'x|!y', 'x?-y:+y', 'x?y:x', 'x<y?x:y', '!x==y', '!(x==y)', 'x==!y', '-x%7', 'x%-7', 'x/-3', '-x/3', '~x&y', '~(x&y)', 'x-y-1', 'x-(y-1)', 'x/y/2', 'x%y*2', 'x*y%5',
             'sizeof(s).a', 'sizeof(s).a[0]', 'sizeof(q)->v', 'sizeof(q)->a + 1', 'sizeof(a)[0]', '(int)sizeof(p)[0] * x', 'sizeof(x)++', 'sizeof(*q).a', 'sizeof s.a[0]', 'sizeof q->s->a', 'sizeof &x', 'sizeof !x', 'sizeof *q', '(int)sizeof(char) + x',
             '(int)sizeof(%s*) * x' % T_, 'sizeof(struct @S*)', '(int)sizeof x * y', '(int)sizeof(x) - y', '-(int)sizeof x', '(int)sizeof x + y', 'sizeof(%s(*)[2])' % T_, 'sizeof(int(*)(int))',
             '(long)(x)', '(long)(x)+y', '(char)(p[0])', '(x)+y', '(x)-y', '(x)*y', '(x)&y', '(x) - -y', '(*p)', '((x))', '-(x)', '(q)->v', '(s).v', '(a)[1]', '(p)[0]', '(&s)->v', '(q->s)->v', '(*q).s->v', '!(x)+y', '(int)(x)-y', '(int)-(x)', '(int)(char)x',
             '(long)(int)(char)-x', '(int)+x', '(int)!x', '(int)*p + 1', '(%s)(x)' % T_, '(%s)((x))' % T_, '(int)x++', '(long)x--', '-x++', '~x--', '!x++', '(char)q->v', '(char)q->a[1]', '-s.a[1]', '!q->s', '!p', '!!q->v', '&*&x == &x', '&a[1] - a', '&q->v == &s.v', '&s.a[1] - s.a',
             '&a[1] - &a[0]', '*(&x)', '(*&s).v', '(&*q)->v', '*(a + 1)', '(a + 1)[0]', '(p + 1 - 1)[0]', '*(%s*)&x' % T_, '*(char*)&s.v', '(x,' if False else '(x) ? (y) : (i)', '(i) ? x : y ? 1 : 2', 'i ? x ? 1 : 2 : 3', 'x ? y : i ? x : y', 'x || y ? 1 : 2', 'x ? 1 : 2 || y', 'x = i ? 4 : 5', '(x = 4) + 1', 'x == 4 ? y = 2 : 3' if False else '(x == 4) + (y != 2)',
             'x<<1<<1', 'x<<1+1', 'x<y<x', 'x==y==1', 'x&y==y', 'x^y&x|y', 'x|y^x&y', 'x&&y||i', 'x||y&&i', 'x&&!y||!x&&y', 'x=y=3', 'x+=y-=2', 'x=y==3', 'x=y?i:2', 'x>y?i=1:(i=2)', '-x<y', 'x+y<<1', 'x+(y<<1)', 'x-y>i', 'x>>1&1', 'x&1<<1', 'x>y==y>x', 'x<y!=x>y', 'x!=y|i', 'x|y!=i']
    for _ in range(src.int(3, 8)):
        f = src.choice(forms)
        if ('p++' in f or '++p' in f) and 'q->' not in f and '(*p)' not in f:
            if pos + 2 >= n:
                continue
            pos += 1
        if 'p--' in f or '--p' in f:
            if pos <= 0:
                continue
            pos -= 1
        if ('p[1]' in f or '*(p + 1)' in f) and pos + 1 >= n:
            continue
        if f == '*q->p++':
            body.append('%s(%s); q->p--;' % (P, f))
            continue
        if f in ('x/y/2', 'x%y*2'):
            body.append('if (y > 0) put_l(%s);' % f)
            continue
        if 'a[i' in f or 'a[--i' in f or f == 'i[a]':
            body.append('i = 1;')
        if f == 'a[a[0]]':
            body.append('a[0] = %d;' % src.draw(n))
        if f in ('x=y', 'x=*p') or True:
            body.append('put_l(%s);' % f)
        body.append('put_l(x); put_l(y);')
    body.append('put_l(p - a); put_i(i); for (i = 0; i < %d; i++) %s(a[i]); %s(s.v); %s(s.a[1]);' % (n, P, P, P))
    return Case(pre + 'void @main(void) {\n%s\n}\n' % '\n'.join(body), need=4)


def scope_deep(src):
    """many scopes inside each other: names of few spellings declared at random depths and used far below and behind them"""
    depth = src.choice([3, 8, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 80, src.int(2, 80)])
    names = ['a', 'b', 'c', '@d', '@e'][:src.int(1, 5)]
    tags = ['a', '@t'][:src.int(1, 2)]
    dens = src.choice([2, 4, 10, 40])
    glob, out = [], []
    scopes = [{}]

    def find(k):
        for sc in reversed(scopes):
            if sc and k in sc:
                return sc[k]
        return None

    def declare(k, top=False):
        t = src.choice(ITYPES)
        v = src.int(0, 100)
        if k[0] == 't':
            scopes[-1][k] = ('tag',)
            return 'struct %s { char m[%d]; };' % (k[1], src.int(1, 60))
        if src.bool(1, 4):
            scopes[-1][k] = ('enum',)
            return 'enum { %s%s };' % (k[1], ' = %d' % v if src.bool(3, 4) else '')
        if src.bool(1, 6):
            n = src.int(1, 6)
            scopes[-1][k] = ('arr', n)
            return '%s %s[%d] = {%s};' % (NAME[t], k[1], n, ', '.join(str(src.int(0, 100)) for _ in range(n)))
        scopes[-1][k] = ('var', t)
        return '%s %s = %d;' % (NAME[t], k[1], v)

    def use():
        k = src.choice(keys)
        f = find(k)
        if f is None:
            return ''
        if f[0] == 'tag':
            return src.choice(['put_i((int)sizeof(struct %s));', '{ struct %s z; z.m[0] = 3; put_i((int)sizeof z.m + z.m[0]); }']) % k[1]
        if f[0] == 'enum':
            return 'put_i(%s);' % k[1]
        if f[0] == 'arr':
            i = src.draw(f[1])
            return src.choice(['put_i((int)%s[%d]);' % (k[1], i), '%s[%d] = %s[%d] + 1;' % (k[1], i, k[1], i), 'put_i((int)sizeof(%s));' % k[1]])
        if f[0] == 'ro':
            return 'put_i(%s);' % k[1]
        return src.choice(['put_l((long)%s);', '%s++;', '%s = %s * 2 + 1;', '%s ^= 5;', 'put_i((int)sizeof(%s));']).replace('%s', k[1])

    keys = [('n', x) for x in names] + [('t', x) for x in tags]
    for k in keys:
        if k[1][0] == '@' or k[0] == 't' and src.bool():
            if k[1][0] == '@':
                glob.append(declare(k, True))
    close = []
    for lev in range(depth):
        h = src.draw(8) if lev else 0
        sc = {}
        if h < 4:
            out.append('{' if lev else '')
            close.append('}')
        elif h == 4:
            out.append('if (one) {')
            close.append(src.choice(['}', '} else put_i(77);']))
        elif h == 5:
            x = src.choice(names)
            v = src.int(0, 50)
            out.append('for (int %s = %d; %s < %d; %s++) {' % (x, v, x, v + 1, x))
            scopes.append({('n', x): ('ro',)})
            close.append('}')
        elif h == 6:
            out.append('while (one) {')
            close.append('break; }')
        else:
            out.append('switch (one) { case 1: {')
            close.append('} }')
        if h != 5:
            scopes.append(None)
        scopes.append(sc)
        for k in keys:
            if src.bool(1, dens):
                d = declare(k)
                out.append(d)
        for _ in range(src.draw(3)):
            out.append(use())
    out += [use() for _ in range(src.int(2, 8))]
    while close:
        scopes.pop()
        if scopes[-1] is None or scopes[-1] and ('ro',) in scopes[-1].values():
            scopes.pop()
        out.append(close.pop())
        if close:
            for _ in range(src.draw(3)):
                out.append(use())
    return Case('int @one = 1; %s\nvoid @main(void) { int one = 1;\n%s\n' % (' '.join(glob), '\n'.join(o for o in out if o)), need=3, feats=['depth:%s' % ('<16' if depth < 16 else '<33' if depth < 33 else '>=33')])


SCOPE = [('scope_nest', scope_nest), ('scope_spaces', scope_spaces), ('scope_enum', scope_enum), ('scope_typedef', scope_typedef), ('scope_deep', scope_deep)]
LIT = [('lit_int', lit_int), ('lit_char', lit_char), ('lit_str', lit_str)]
SPECS = {'c': [['char']], 'i': [['int']], 'u': [['unsigned'], ['unsigned', 'int']], 'l': [['long'], ['long', 'int']], 'ul': [['unsigned', 'long'], ['unsigned', 'long', 'int']],
         'll': [['long', 'long'], ['long', 'long', 'int']], 'ull': [['unsigned', 'long', 'long'], ['unsigned', 'long', 'long', 'int']]}


def decl_specs(src):
    """the words of a type in any order, in every place where a type can be written"""
    t = src.choice([x for x in ITYPES if x not in 'ci'] * 2 + ['ull', 'ull', 'i'])
    T = lambda: ' '.join(src.shuffle(src.choice(SPECS[t])))
    v = value_node(src, interesting(src, t)).text()
    w = value_node(src, interesting(src, t)).text()
    m = src.draw(10)
    show = lambda e: 'put_ull(%s / 3 + 0ull); put_i(%s < 0); %s(%s); put_i(sizeof(%s));' % (e, e, PUT[t], e, e)
    pre, body = '', ''
    if m == 0:
        body = '%s x = %s; %s' % (T(), v, show('x'))
    elif m == 1:
        pre = '%s @g;\n' % T()
        body = '@g = %s; %s' % (v, show('@g'))
    elif m == 2:
        pre = '%s @f(%s x, char k, %s y) { if (k) return x; return y; }\n' % (T(), T(), T())
        body = show('@f(%s, 1, %s)' % (v, w)) + show('@f(%s, 0, %s)' % (v, w))
    elif m == 3:
        pre = 'struct @s { char k; %s x; %s y[2]; };\n' % (T(), T())
        body = 'struct @s s; s.k = 1; s.x = %s; s.y[1] = %s; %s %s put_i(sizeof(struct @s));' % (v, w, show('s.x'), show('s.y[1]'))
    elif m == 4:
        pre = 'typedef %s @t;\n' % T()
        body = '@t x = %s; @t* p; p = &x; *p = *p + 1 - 1; %s' % (v, show('*p'))
    elif m == 5:
        body = 'long a; a = (long)(%s); %s' % (v, show('((%s)a)' % T()))
    elif m == 6:
        body = 'put_i(sizeof(%s)); put_i(sizeof(%s[3])); put_i(sizeof(%s*));' % (T(), T(), T())
    elif m == 7:
        body = '%s a[2]; %s* p; %s (*q)[2]; a[0] = %s; a[1] = %s; p = a; q = &a; p++; %s %s' % (T(), T(), T(), v, w, show('*p'), show('(*q)[0]'))
    elif m == 8:
        body = '%s s; s = 0; for (%s k = 0; k < 3; k++) s = s * 5 + k; %s' % (T(), T(), show('s'))
    else:
        pre = '%s @f(%s x) { return x; }\n%s (*@h)(%s);\n' % (T(), T(), T(), T())
        body = '@h = @f; ' + show('@h(%s)' % v)
    return Case('%svoid @main(void) { %s }\n' % (pre, body), need=3, feats=['specs:' + t])


PREC = [('decl_specs', decl_specs), ('prec_expr', prec_expr), ('prec_unary', prec_unary), ('decl_type', decl_type), ('decl_use', decl_use)]
