"""Families: whole programs mixing every supported feature; state is dumped at the end."""
from core import *
from batch import Case


class Scope:
    """what the expression generator sees"""

    def __init__(self):
        self.vars = []


class Prog:
    def __init__(self, src):
        self.src = src
        self.n = 0
        self.head, self.funcs = [], []
        self.gvars = []          # Var usable anywhere
        self.dump = []
        self.structs = []        # (tag, [(member, type key or ('arr', t, n) or ('st', index))])
        self.fns = []            # (name, [param kinds], return type)
        self.typedefs = []       # (name, key)
        self.enums = []

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ------------------------------------------------ file scope
    def tname(self, t):
        c = [n for n, k in self.typedefs if k == t]
        if c and self.src.bool(1, 3):
            return self.src.choice(c)
        return spell(self.src, t)

    def types(self):
        src = self.src
        for _ in range(src.draw(3)):
            t = src.choice(ITYPES)
            nm = '@' + self.fresh('T')
            self.head.append('typedef %s %s;' % (self.tname(t), nm))
            self.typedefs.append((nm, t))
        if src.bool():
            es = []
            v = 0
            for _ in range(src.int(1, 4)):
                nm = '@' + self.fresh('E')
                if src.bool(1, 3):
                    v = src.choice([0, 5, 100, 65536, 2147483600])
                    es.append('%s = %d' % (nm, v))
                else:
                    es.append(nm)
                self.enums.append((nm, v))
                v += 1
            self.head.append('enum %s{ %s };' % (src.choice(['', '@' + self.fresh('En') + ' ']), ', '.join(es)))
        for _ in range(src.draw(3)):
            tag = '@' + self.fresh('S')
            ms = []
            for j in range(src.int(1, 5)):
                k = src.draw(6)
                if k < 4:
                    ms.append(('m%d' % j, src.choice(ITYPES)))
                elif k == 4 or not self.structs:
                    ms.append(('m%d' % j, ('arr', src.choice(ITYPES), src.choice([2, 4, 8]))))
                else:
                    ms.append(('m%d' % j, ('st', src.draw(len(self.structs)))))
            self.structs.append((tag, ms))
            self.head.append('struct %s { %s };' % (tag, ' '.join(self.member(m, k) for m, k in ms)))

    def member(self, m, k):
        if isinstance(k, str):
            return '%s %s;' % (self.tname(k), m)
        if k[0] == 'arr':
            return '%s %s[%d];' % (self.tname(k[1]), m, k[2])
        return 'struct %s %s;' % (self.structs[k[1]][0], m)

    def leaves(self, si):
        """(access path, type key or ('arr', t, n))"""
        for m, k in self.structs[si][1]:
            if isinstance(k, str) or k[0] == 'arr':
                yield '.' + m, k
            else:
                for p, t in self.leaves(k[1]):
                    yield '.' + m + p, t

    def scalar_const(self, t):
        src = self.src
        if self.enums and src.bool(1, 6):
            return src.choice(self.enums)[0]
        return int_literal(src, abs(interesting(src, t))).text() if src.bool(3, 4) else char_literal(src).text()

    def globals(self):
        src = self.src
        for _ in range(src.int(2, 6)):
            k = src.draw(8)
            nm = '@' + self.fresh('g')
            if k < 3:
                t = src.choice(ITYPES)
                self.head.append('%s %s%s;' % (self.tname(t), nm, ' = ' + self.scalar_const(t) if src.bool() else ''))
                self.gvars.append(Var(prim(nm, t, lval=True), t, 0))
                self.dump.append('%s(%s);' % (PUT[t], nm))
            elif k < 5:
                t = src.choice(ITYPES)
                n = src.choice([2, 4, 8])
                ini = ' = { %s }' % ', '.join(self.scalar_const(t) for _ in range(src.int(1, n))) if src.bool() else ''
                self.head.append('%s %s[%d]%s;' % (self.tname(t), nm, n, ini))
                self.gvars.append(('arr', nm, t, n))
                self.dump.append('for (int i = 0; i < %d; i++) %s(%s[i]);' % (n, PUT[t], nm))
            elif k < 6 and self.structs:
                si = src.draw(len(self.structs))
                self.head.append('struct %s %s;' % (self.structs[si][0], nm))
                self.add_struct(self.gvars, nm, si)
                self.dump_struct(nm, si)
            elif k < 7:
                t = src.choice(ITYPES)
                tgt = [v for v in self.gvars if isinstance(v, Var) and v.t == t and v.node.prec == P_PRIM]
                if tgt:
                    self.head.append('%s* %s;' % (self.tname(t), nm))
                    self.setup.append('%s = &%s;' % (nm, src.choice(tgt).node.text()))
                    self.gvars.append(Var(Node(P_UN, t, ['*' + nm], 1, lval=True), t, 0))
            else:
                s = src.choice(['abc', '', 'Hello, World', 'x\\ty', 'a\\0b'])
                self.head.append('char %s[16] = "%s";' % (nm, s))
                self.gvars.append(('arr', nm, 'c', 16))
                self.dump.append('put_mem(%s, 16);' % nm)

    def add_struct(self, vs, nm, si):
        for p, t in self.leaves(si):
            if isinstance(t, str):
                vs.append(Var(Node(P_POST, t, [nm + p], 2, lval=True), t, 0))
            else:
                vs.append(('arr', nm + p, t[1], t[2]))

    def dump_struct(self, nm, si, out=None):
        out = self.dump if out is None else out
        for p, t in self.leaves(si):
            if isinstance(t, str):
                out.append('%s(%s%s);' % (PUT[t], nm, p))
            else:
                out.append('for (int i = 0; i < %d; i++) %s(%s%s[i]);' % (t[2], PUT[t[1]], nm, p))

    # ------------------------------------------------ functions
    def view(self, vs, depth=1):
        """the scalars of a list of variables: arrays become elements with safe indices"""
        src = self.src
        sc = Scope()
        simple = [v for v in vs if isinstance(v, Var)]
        sc.vars = list(simple)
        for v in vs:
            if not isinstance(v, Var):
                _, nm, t, n = v
                if depth and simple and src.bool():
                    x = src.choice(simple).node
                    if src.bool(1, 3):
                        x = binary('+', x, prim(str(src.draw(9)), 'i'))
                    ix = binary('&', x, prim(str(n - 1), 'i'))
                    sc.vars.append(Var(Node(P_POST, t, [nm + '[', (ix, P_ASSIGN), ']'], 3, lval=True), t, 0))
                else:
                    sc.vars.append(Var(Node(P_POST, t, ['%s[%d]' % (nm, src.draw(n))], 2, lval=True), t, 0))
        for nm, _ in self.enums:
            sc.vars.append(Var(prim(nm, 'i'), 'i', 0))
        return sc

    def expr(self, vs, depth=None):
        src = self.src
        d = src.int(0, 3) if depth is None else depth
        return ExprGen(src, self.view(vs), max_need=5).expr(d)

    def lvalue(self, vs):
        c = [v for v in self.view(vs).vars if v.node.lval and v.node.text() not in self.ro]
        return self.src.choice(c) if c else None

    def call(self, vs):
        """a call of an earlier function: (text, return type) or None; arguments are free of side effects"""
        src = self.src
        if not self.fns:
            return None
        nm, ps, r = src.choice(self.fns)
        args = []
        for p in ps:
            if isinstance(p, str):
                args.append(self.expr(vs, src.draw(2)).text())
            elif p[0] == 'ptr':
                c = [v for v in vs if isinstance(v, Var) and v.t == p[1] and v.node.prec == P_PRIM and v.node.text() not in self.ro]
                a = [v for v in vs if not isinstance(v, Var) and v[2] == p[1]]
                if a and (not c or src.bool()):
                    x = src.choice(a)
                    args.append(src.choice([x[1], '&%s[%d]' % (x[1], src.draw(x[3])), '%s + %d' % (x[1], src.draw(x[3]))]))
                elif c:
                    args.append('&' + src.choice(c).node.text())
                else:
                    return None
        return '%s(%s)' % (nm, ', '.join(args)), r

    def block(self, vs, d, loop, ret):
        inner = list(vs)
        out = []
        for _ in range(self.src.int(1, 4)):
            out.append(self.stmt(inner, d, loop, ret))
        return '{\n' + '\n'.join(out) + '\n}'

    def stmt(self, vs, d, loop, ret):
        src = self.src
        k = src.draw(24 if d > 0 else 12)
        if k < 2:
            nm = self.fresh('v')
            t = src.choice(ITYPES)
            e = self.expr(vs)
            vs.append(Var(prim(nm, t, lval=True), t, 0))
            return '%s %s = %s;' % (self.tname(t), nm, e.text())
        if k == 2:
            nm = self.fresh('a')
            m = src.draw(4)
            if m == 3 and self.structs:
                si = src.draw(len(self.structs))
                self.add_struct(vs, nm, si)
                z = ['%s%s = %d;' % (nm, p, src.draw(50)) if isinstance(t, str) else 'for (int i = 0; i < %d; i++) %s%s[i] = i;' % (t[2], nm, p) for p, t in self.leaves(si)]
                return 'struct %s %s; %s' % (self.structs[si][0], nm, ' '.join(z))
            t = src.choice(ITYPES)
            n = src.choice([2, 4, 8])
            ini = ', '.join(self.expr(vs, src.draw(2)).text() for _ in range(src.int(1, n)))
            vs.append(('arr', nm, t, n))
            return '%s %s[%d] = { %s };' % (self.tname(t), nm, n, ini)
        if k == 3:
            lv = self.lvalue(vs)
            c = self.call(vs)
            if c is None or lv is None:
                return 'tr(%d, 0);' % self.fresh('')[0:] if False else 'tr(%d, 0);' % src.draw(99)
            if c[1] is None:
                return c[0] + ';'
            return src.choice(['%s;' % c[0], '%s(%s);' % (PUT[c[1]], c[0]), '%s = %s;' % (lv.node.text(), c[0]) if lv.node.prec == P_PRIM and lv.node.text()[0] != '@' and '[' not in lv.node.text() else c[0] + ';'])
        if k < 9:
            lv = self.lvalue(vs)
            if lv is None:
                return ';'
            e = self.expr(vs)
            m = src.draw(8)
            if m < 4:
                return '%s = %s;' % (lv.node.text(), e.text())
            if m < 6:
                op = src.choice(['+', '-', '*', '&', '|', '^'])
                return '%s %s= %s;' % (lv.node.text(), op, e.text())
            if m == 6:
                return '%s %s= %d;' % (lv.node.text(), src.choice(['/', '%']), src.int(1, 20))
            x = lv.node.text()
            return src.choice(['%s++;' % ('(%s)' % x if x[0] == '*' else x), '--%s;' % x])
        if k < 11:
            e = self.expr(vs)
            return put(e)
        if k == 11:
            if loop and src.bool():
                return src.choice(['if (%s) break;', 'if (%s) continue;']) % self.expr(vs, 2).text()
            if src.bool(1, 3):
                return 'if (%s) return%s;' % (self.expr(vs, 2).text(), ' ' + self.expr(vs, 1).text() if ret else '')
            return 'tr(%d, 0);' % src.draw(99)
        if k < 15:
            s = 'if (%s) %s' % (self.expr(vs).text(), self.block(vs, d - 1, loop, ret))
            if src.bool():
                s += ' else ' + (self.block(vs, d - 1, loop, ret))
            return s
        if k < 19:
            i = self.fresh('i')
            t = src.choice(['i', 'i', 'l', 'u', 'c'])
            n = src.int(1, 6)
            self.ro.add(i)
            inner = vs + [Var(prim(i, t, lval=True), t, 0)]
            h = src.choice(['for (%s %s = 0; %s < %d; %s++)' % (NAME[t], i, i, n, i), 'for (%s %s = %d; %s > 0; --%s)' % (NAME[t], i, n, i, i), 'for (%s %s = 0; %s <= %d; %s += 2)' % (NAME[t], i, i, n, i)])
            return h + ' ' + self.block(inner, d - 1, True, ret)
        if k < 20:
            w = self.fresh('w')
            self.ro.add(w)
            # the counter is decremented in the condition, so 'continue' cannot skip it
            return '{ int %s = %d; while (%s-- > 0) %s }' % (w, src.int(1, 5), w, self.block(vs, d - 1, True, ret))
        if k < 22:
            cs = src.sample([0, 1, 2, 3, 4, 5, 7, 100], src.int(1, 5))
            out = []
            df = src.draw(len(cs) + 2)
            for j, c in enumerate(cs):
                if j == df:
                    out.append('default:')
                out.append('case %d: %s%s' % (c, self.block(vs, d - 1, loop, ret), ' break;' if src.bool(2, 3) else ''))
            e = binary('&', self.expr(vs), prim('7', 'i'))
            return 'switch ((int)(%s)) { %s }' % (e.text(), '\n'.join(out))
        return self.block(vs, d - 1, loop, ret)

    def function(self, last=False):
        src = self.src
        nm = '@' + self.fresh('f')
        self.ro = set()
        ps, decl, vs = [], [], list(self.gvars)
        for _ in range(src.choice([0, 1, 2, 2, 3, 4, 6, 7, 8])):
            p = self.fresh('p')
            t = src.choice(ITYPES)
            if src.bool(1, 4):
                ps.append(('ptr', t))
                decl.append('%s* %s' % (self.tname(t), p))
                vs.append(Var(Node(P_UN, t, ['*' + p], 1, lval=True), t, 0))
            else:
                ps.append(t)
                decl.append('%s %s' % (self.tname(t), p))
                vs.append(Var(prim(p, t, lval=True), t, 0))
        r = src.choice(ITYPES + [None])
        body = []
        for _ in range(src.int(1, 6)):
            body.append(self.stmt(vs, src.int(0, 2), False, r is not None))
        if r:
            body.append('return %s;' % self.expr(vs, 2).text())
        self.funcs.append('%s %s(%s) {\n%s\n}' % (self.tname(r) if r else 'void', nm, ', '.join(decl) or 'void', '\n'.join(body)))
        self.fns.append((nm, ps, r))

    def build(self):
        src = self.src
        self.setup = []
        self.types()
        self.globals()
        for _ in range(src.int(1, 4)):
            self.function()
        self.ro = set()
        body = list(self.setup)
        vs = list(self.gvars)
        for _ in range(src.int(2, 6)):
            body.append(self.stmt(vs, 2, False, False))
        for nm, ps, r in self.fns:
            c = None
            fns, self.fns = self.fns, [(nm, ps, r)]
            c = self.call(vs)
            self.fns = fns
            if c:
                body.append('%s(%s);' % (PUT[r], c[0]) if r else c[0] + ';')
        body += self.dump
        return '\n'.join(self.head) + '\n' + '\n'.join(self.funcs) + '\nvoid @main(void) {\n' + '\n'.join(body) + '\n}\n'


def prog_mixed(src):
    return Case(Prog(src).build(), need=99, feats=['mixed'])


PROG = [('prog_mixed', prog_mixed)]
