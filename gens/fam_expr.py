"""Families: integer expressions (values, conversions), assignment-like operators."""
from core import *
from batch import Case


def observe(src, g, depth, body, needs):
    """one use of a generated expression in one of the contexts an expression can stand in"""
    e = g.expr(depth)
    needs.append(e.need)
    k = src.draw(10)
    if k < 5:
        body.append(put(e))
    elif k < 6:
        t = src.choice(ITYPES)
        body.append(put(e, t))                       # converted by the parameter
    elif k < 7:
        body.append('if (%s) put_i(1); else put_i(0);' % e.text())
    elif k < 8:
        t = src.choice(ITYPES)
        x = 'x%d' % len(body)
        body.append('{ %s %s; %s = %s; %s(%s); }' % (NAME[t], x, x, e.text(), PUT[t], x))
    elif k < 9:
        t = src.choice(ITYPES)
        x = 'x%d' % len(body)
        body.append('{ %s %s = %s; %s(%s); }' % (NAME[t], x, e.text(), PUT[t], x))
    else:
        t = src.choice(ITYPES)
        f = '@r%d' % len(body)
        body.append('put_i(sizeof(%s) == %d);' % (e.text(), SIZE[e.typ]))
    return e


def expr_small(src):
    """one operator, every pair of types and storage forms, boundary values"""
    env = Env(src, n=2)
    g = ExprGen(src, env)
    body, needs = [], [0]
    a, b = env.vars[0].node, env.vars[1].node
    ops = src.sample(ALLBIN, src.int(2, 6))
    for op in ops:
        k = src.draw(6)
        x, y = a, b
        if k == 1:
            y = const(src)
        elif k == 2:
            x = const(src)
        elif k == 3:
            x, y = b, a
        elif k == 4:
            y = unary(src.choice(['-', '~', '!', '+']), y)
        e = g.bin(op, x, y)
        body.append(put(e))
    body.append(put(unary(src.choice(['-', '~', '!', '+']), a)))
    t = src.choice(ITYPES)
    body.append(put(cast(spell(src, t), t, b)))
    return Case(env.wrap('\n'.join(body)), need=4, feats=['op:' + o for o in ops])


def expr_deep(src):
    env = Env(src)
    g = ExprGen(src, env, calls=src.bool(1, 3))
    body, needs = [], []
    for _ in range(src.int(1, 4)):
        observe(src, g, src.int(1, 5), body, needs)
    return Case(env.wrap('\n'.join(body)), need=max(needs))


def expr_conv(src):
    """chains of conversions between all integer types: casts, assignments, parameters, returns, initialisers"""
    t0 = src.choice(ITYPES)
    env = Env(src, n=1, types=[t0])
    body, glob = [], []
    cur = env.vars[0].node
    need = 2
    for i in range(src.int(1, 6)):
        t = src.choice(ITYPES)
        k = src.draw(6)
        if k == 0:
            cur = cast(spell(src, t), t, cur)
        elif k == 1:
            x = 'y%d' % i
            env.decls.append('%s %s;' % (NAME[t], x))
            body.append('%s = %s;' % (x, cur.text()))
            cur = prim(x, t)
        elif k == 2:
            cur = callnode('id_' + t, [cur], t)
        elif k == 3:
            r = src.choice(ITYPES)
            f = '@f%d' % i
            glob.append('%s %s(%s x) { return x; }' % (NAME[r], f, NAME[t]))
            cur = callnode(f, [cur], r)
        elif k == 4:
            op = src.choice(['+', '-', '|', '^', '&', '*'])
            cur = binary(op, cur, const(src, t))
        else:
            x = 'y%d' % i
            body.append('%s %s = %s;' % (NAME[t], x, cur.text()))
            cur = prim(x, t)
        body.append(put(cur))
        if src.bool(1, 4):
            body.append('put_i(%s);' % binary(src.choice(COMPARE), cur, const(src)).text())
    return Case('\n'.join(glob) + '\n' + env.wrap('\n'.join(body)), need=need + 1)


def expr_bool(src):
    """logical, relational and conditional expressions as values and as conditions"""
    env = Env(src)
    g = ExprGen(src, env, ops=COMPARE + LOGIC + LOGIC + ['+', '&'])
    body, needs = [], []
    for _ in range(src.int(1, 4)):
        e = g.expr(src.int(1, 4))
        needs.append(e.need)
        k = src.draw(5)
        if k == 0:
            body.append(put(e))
        elif k == 1:
            body.append('if (%s) put_i(1); else put_i(2);' % e.text())
        elif k == 2:
            body.append('put_i(%s ? 3 : 4);' % ('(' + e.text() + ')' if e.prec <= P_COND else e.text()))
        elif k == 3:
            body.append('put_i(!(%s));' % e.text())
        else:
            body.append('{ int n; n = 0; while (n < 3 && (%s)) n++; put_i(n); }' % e.text())
    return Case(env.wrap('\n'.join(body)), need=max(needs) + 2)


def dump(env, src=None):
    return '\n'.join(put(v.node) for v in env.vars)


def assign_ops(src):
    """assignment, compound assignment, increment and decrement on every lvalue form, all variables observed after"""
    env = Env(src, n=src.int(2, 5))
    g = ExprGen(src, env, calls=src.bool(1, 4), max_need=4)
    body, needs, ops = [], [], []
    for i in range(src.int(1, 6)):
        v = src.choice(env.vars)
        k = src.draw(10)
        if k < 2:
            e = g.expr(src.int(0, 3))
            st = assign('=', v.node, e)
        elif k < 7:
            op = src.choice(['+', '-', '*', '/', '%', '<<', '>>', '&', '^', '|'])
            rhs = g.expr(src.int(0, 2))
            b = g.bin(op, v.node, rhs)
            rhs = b.parts[2][0]
            st = assign(op + '=', v.node, rhs)
            ops.append(op + '=')
        else:
            op = src.choice(['++', '--'])
            if src.bool():
                st = Node(P_UN, v.t, [op, (v.node, P_UN)], v.node.need + 1)
            else:
                st = Node(P_POST, v.t, [(v.node, P_POST), op], v.node.need + 1)
            ops.append(op)
        needs.append(st.need)
        m = src.draw(6)
        if m < 2:
            body.append(st.text() + ';')
        elif m < 4:
            body.append(put(st))
        elif m == 4:
            w = src.choice(env.vars)
            if w is not v:
                st2 = assign('=', w.node, st)
                needs.append(st2.need)
                body.append(st2.text() + ';')
            else:
                body.append(st.text() + ';')
        else:
            t = src.choice(ITYPES)
            body.append('if (%s) put_i(1);' % ('(' + st.text() + ') > 0'))
        if src.bool(1, 3):
            body.append(put(v.node))
    body.append(dump(env))
    return Case(env.wrap('\n'.join(body)), need=max(needs) + 1, feats=['op:' + o for o in ops])


def assign_chain(src):
    """right-associated chains of assignments through objects of different types"""
    env = Env(src, n=src.int(3, 6))
    vs = src.shuffle(env.vars)[:src.int(2, 4)]
    e = ExprGen(src, env, max_need=3).expr(2)
    for v in vs:
        e = assign('=', v.node, e)
    body = [put(e) if src.bool() else e.text() + ';', dump(env)]
    return Case(env.wrap('\n'.join(body)), need=e.need + 1)


CANARY = [0x5a, -91, 0x7f]


def assign_canary(src):
    """objects stored next to each other: an assignment changes its target and nothing else"""
    n = src.int(3, 8)
    ts = [src.choice(ITYPES) for _ in range(n)]
    where = src.draw(3)
    names, decl, glob = [], [], []
    if where == 0:
        for i, t in enumerate(ts):
            decl.append('%s a%d;' % (NAME[t], i))
            names.append('a%d' % i)
    elif where == 1:
        for i, t in enumerate(ts):
            glob.append('%s @a%d;' % (NAME[t], i))
            names.append('@a%d' % i)
    else:
        glob.append('struct @S { %s };' % ' '.join('%s a%d;' % (NAME[t], i) for i, t in enumerate(ts)))
        decl.append('struct @S s;')
        names = ['s.a%d' % i for i in range(n)]
    body = ['%s = %s;' % (m, value_node(src, interesting(src, t)).text()) for m, t in zip(names, ts)]
    for _ in range(src.int(1, 3)):
        k = src.draw(n)
        op = src.choice(['=', '+=', '-=', '*=', '^=', '|=', '++', '--'])
        if op in ('++', '--'):
            body.append(names[k] + op + ';')
        else:
            body.append('%s %s %s;' % (names[k], op, value_node(src, interesting(src, ts[k])).text()))
        body += ['%s(%s);' % (PUT[t], m) for m, t in zip(names, ts)]
    return Case('\n'.join(glob) + '\nvoid @main(void) {\n' + '\n'.join(decl + body) + '\n}\n', need=3)


def assign_ptr(src):
    """assignment, ++, --, += and -= on pointers to elements of every size, observed as byte and element distances"""
    k = src.draw(7)
    pre = ''
    n = src.choice([1, 2, 3, 7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 40000, 70000, src.int(1, 3000)])
    if k == 0:
        t = src.choice(ITYPES)
        E = lambda nm: '%s %s' % (NAME[t], nm)
    elif k == 1:
        E = lambda nm: 'int* %s' % nm
    elif k < 4:
        t = src.choice(ITYPES)
        E = lambda nm: '%s (%s)[%d]' % (NAME[t], nm, n) if nm[0] == '*' else '%s %s[%d]' % (NAME[t], nm, n)
    else:
        ms = ['%s m%d%s;' % (NAME[src.choice(ITYPES)], i, '[%d]' % (n if i == 0 else src.int(1, 9)) if src.bool() or i == 0 else '') for i in range(src.int(1, 4))]
        pre = 'struct @S { %s };\n' % ' '.join(src.shuffle(ms))
        E = lambda nm: 'struct @S %s' % nm
    N = 5
    where = src.draw(4)
    glob = src.bool() or n > 2000
    if glob:
        pre += E('@a[%d]' % N) + ';\n'
        A, loc = '@a', ''
    else:
        A, loc = 'a', E('a[%d]' % N) + '; '
    if where == 0:
        P, dcl = 'p', E('*p') + '; '
    elif where == 1:
        P, dcl = '@p', ''
        pre += E('*@p') + ';\n'
    elif where == 2:
        pre += 'struct @H { char pad; ' + E('*q') + '; int c; };\n'
        P, dcl = 'h.q', 'struct @H h; h.c = 77; h.pad = 3; '
    else:
        pre += 'struct @H { char pad; ' + E('*q') + '; };\n'
        P, dcl = 'h[i].q', 'struct @H h[3]; int i; i = %d; ' % src.draw(3)
    at = src.draw(N)
    body = ['%s = %s;' % (P, src.choice(['%s + %d', '&%s[%d]']) % (A, at))]
    obs = 'put_l((long)%s - (long)%s);' % (P, A)
    ops = []
    for _ in range(src.int(1, 5)):
        k = src.draw(6)
        if k < 2:
            op = src.choice(['++', '--'])
            if (op == '++' and at == N) or (op == '--' and at == 0):
                op = '--' if op == '++' else '++'
            post = src.bool()
            e = P + op if post else op + P
            new = at + (1 if op == '++' else -1)
        else:
            new = src.draw(N + 1)
            op = '+=' if new >= at else '-='
            e = '%s %s %s' % (P, op, src.choice(['%d', '%dl', 'id_i(%d)', 'id_l(%d)', 'id_c(%d)', '(char)%d', '%du']) % abs(new - at))
            if src.bool(1, 5) and new != at:
                e = '%s %s -%d' % (P, '-=' if new > at else '+=', abs(new - at))
        ops.append(op)
        m = src.draw(3)
        if m == 0:
            body.append(e + ';')
        elif m == 1:
            body.append('put_l((long)(%s) - (long)%s);' % (e, A))
        else:
            body.append('put_i((%s) == %s + %d);' % (e, A, new))
        at = new
        body.append(obs)
    body.append('put_i(%s == %s + %d);' % (P, A, at))
    body.append('put_l(sizeof(%s));' % A)
    if where == 2:
        body.append('put_i(h.c); put_i(h.pad);')
    return Case(pre + 'void @main(void) { %s%s\n%s\n}\n' % (loc, dcl, '\n'.join(body)), need=4, feats=['op:' + o for o in ops] + ['element:%s' % ('small' if n < 128 else 'large')])


CONSTS = ['0', '1', '-1', '2', '(-0)', '(1 - 1)', '0l', '0u', '1u', '1l', '0ul', '(char)0', "'\\0'", '(long)0', '~0', '(0 * 7)', '(int)sizeof(char)']


class EffTree:
    """expressions in which operands with side effects meet constants that make the operand's value irrelevant: every
    operator, at most one side effect in any unsequenced region, every modified object used once per full expression"""

    def __init__(self, src):
        self.src, self.decl, self.show, self.n = src, [], [], 0

    def effect(self):
        src = self.src
        self.n += 1
        v = src.choice([0, 1, 2, -1, 3, 7])
        k = src.draw(9)
        if k < 4:
            return 'tr(%d, %d)' % (self.n, v)
        if k == 4:
            return '@f()'
        x = 'x%d' % self.n
        if k == 5:
            x = '@x%d' % self.n
        t = src.choice(ITYPES)
        v = abs(v)
        self.decl.append((k == 5, NAME[t], x, v))
        self.show.append('%s(%s);' % (PUT[t], x))
        return '(%s)' % (src.choice(['%s++', '++%s', '%s--', '%s = 3', '%s += 2', '%s = 0', '%s ^= 1', '%s *= 0', '%s = tr(90, 4)']) % x)

    def pure(self, d):
        src = self.src
        if d <= 0 or src.bool(2, 3):
            return src.choice(CONSTS) if src.bool(3, 4) else 'one'
        return '(%s %s %s)' % (self.pure(d - 1), src.choice(['+', '-', '*', '&', '|', '==', '<', '&&', '||']), self.pure(d - 1))

    def tree(self, d):
        """an expression with at least one side effect"""
        src = self.src
        if d <= 0 or src.bool(1, 8):
            return self.effect()
        k = src.draw(16)
        if k < 7:
            op = src.choice(['*', '*', '&', '&', '+', '-', '|', '^', '==', '!=', '<', '<=', '>', '>='])
            a, b = self.tree(d - 1), self.pure(1)
            if src.bool():
                a, b = b, a
            return '(%s %s %s)' % (a, op, b)
        if k == 7:
            return '(%s %s %s)' % (self.tree(d - 1), src.choice(['/', '%']), src.choice(['1', '2', '1l', '1u', '-7', '4ul', '0x7fffffff']))
        if k == 8:
            return src.choice(['(0 %s (%s & 3 | 1))', '(1 %s (%s & 3 | 1))']) % (src.choice(['/', '%', '<<', '>>']), self.tree(d - 1))
        if k == 9:
            return '(%s >> %s)' % (self.tree(d - 1), src.choice(['0', '1', '31']))
        if k < 13:
            op = src.choice(['&&', '||'])
            a = self.tree(d - 1) if src.bool(2, 3) else self.pure(1)
            b = self.tree(d - 1) if src.bool(2, 3) or '(' not in a else self.pure(1)
            return '(%s %s %s)' % (a, op, b)
        if k == 13:
            c = self.tree(d - 1) if src.bool() else self.pure(1)
            return '(%s ? %s : %s)' % (c, self.tree(d - 1) if src.bool() else self.pure(1), self.tree(d - 1))
        if k == 14:
            return '(%s%s)' % (src.choice(['!', '-', '~', '+', '(char)', '(long)', '(int)', '!!']), self.tree(d - 1))
        return '(int)sizeof(%s)' % self.tree(d - 1) if src.bool(1, 4) else '@id(%s)' % self.tree(d - 1)


def eff_const(src):
    """the operands of every operator are evaluated exactly when C says so, also when a constant decides the value and
    when the value is not used; each evaluated once"""
    glob, body = [], []
    t = EffTree(src)
    for _ in range(src.int(2, 5)):
        t.decl, t.show = [], []
        e = t.tree(src.int(1, 4))
        glob += ['%s %s = %d;' % (n, x, v) for g, n, x, v in t.decl if g]
        loc = ''.join('%s %s = %d; ' % (n, x, v) for g, n, x, v in t.decl if not g)
        k = src.draw(8)
        use = ['put_i((int)%s);', '%s;', 'if (%s) put_i(1); else put_i(2);', 'while (%s) { put_i(5); break; }', 'long y = %s; put_l(y);', 'for (%s; one; ) break;',
               'for (one = 1; one < 3; one++) { put_i(one); if (one == 2) break; %s; }', 'put_i(%s && one);'][k] % e
        body.append('{ %s%s put_i(@n); %s}' % (loc, use, ' '.join(t.show)))
        body.append('one = 1;')
    return Case('int @n = 0; int @one = 1;\n%s\nint @f(void) { @n = @n + 1; return @n & 1; }\nint @id(int v) { return v; }\nvoid @main(void) { int one; one = 1;\n%s\n}\n' % ('\n'.join(glob), '\n'.join(body)),
                need=3, feats=['effect'] * min(1, t.n))


EXPR = [('expr_small', expr_small), ('expr_deep', expr_deep), ('expr_conv', expr_conv), ('expr_bool', expr_bool)]
ASSIGN = [('assign_ops', assign_ops), ('assign_chain', assign_chain), ('assign_canary', assign_canary), ('assign_ptr', assign_ptr), ('eff_const', eff_const)]
