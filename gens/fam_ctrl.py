"""Families: control flow and sequencing.  Every statement leaves a trace, so order, count and choice of paths are seen."""
from core import *
from batch import Case


class Ctrl:
    """Random structured statements; every loop consumes fuel, so every program terminates."""

    def __init__(self, src, nvars=3, fuel=None):
        self.src = src
        self.k = 0
        self.vars = ['v%d' % i for i in range(nvars)]
        self.vt = [src.choice(['i', 'i', 'i', 'l', 'u', 'c']) for _ in self.vars]
        self.fuel = fuel or src.int(4, 40)
        self.depth_vars = 0
        self.feats = set()
        self.ro = set()         # loop counters: the body does not write to them

    def tag(self):
        self.k += 1
        return self.k

    def var(self, writable=False):
        c = [v for v in self.vars if not (writable and v in self.ro)]
        return self.src.choice(c)

    # -- side-effecting but fully sequenced conditions
    def cond(self, d):
        src = self.src
        k = src.draw(14 if d > 0 else 7)
        if k < 2:
            return 'tr(%d, %s)' % (self.tag(), src.choice(['0', '1', '2', '-1', self.var()])), P_POST
        if k < 3:
            return self.var(), P_PRIM
        if k < 5:
            op = src.choice(COMPARE)
            return '%s %s %s' % (self.var(), op, src.choice(['0', '1', '2', '3', '5', self.var()])), BINPREC[op]
        if k < 6:
            return src.choice(['1', '0', '2', "'a'"]), P_PRIM
        if k < 7:
            v = self.var(True)
            return src.choice(['%s++', '%s--', '++%s', '--%s']) % v, P_UN
        if k < 11:
            op = src.choice(LOGIC)
            self.feats.add('seq:' + op)
            a, pa = self.cond(d - 1)
            b, pb = self.cond(d - 1)
            p = BINPREC[op]
            if pa < p:
                a = '(' + a + ')'
            if pb <= p:
                b = '(' + b + ')'
            return '%s %s %s' % (a, op, b), p
        if k < 12:
            a, pa = self.cond(d - 1)
            return '!' + ('(' + a + ')' if pa < P_CAST else a), P_UN
        if k < 13:
            self.feats.add('seq:?:')
            a, pa = self.cond(d - 1)
            b, pb = self.cond(d - 1)
            c, pc = self.cond(d - 1)
            return '%s ? %s : %s' % ('(' + a + ')' if pa <= P_COND else a, b, '(' + c + ')' if pc < P_COND else c), P_COND
        v = self.var(True)
        a, pa = self.cond(d - 1)
        # v is set from an expression that does not modify v (no unsequenced modification)
        if v + '+' in a or v + '-' in a or '+' + v in a or '-' + v in a or v + ' =' in a:
            return a, pa
        return '(%s = %s)' % (v, '(' + a + ')' if pa < P_COND else a), P_PRIM

    def c(self, d=1):
        return self.cond(self.src.draw(d + 2))[0]

    def simple(self):
        src = self.src
        k = src.draw(8)
        if k < 3:
            return 'tr(%d, 0);' % self.tag()
        if k < 5:
            return 'put_i(%s);' % self.var()
        if k < 6:
            v = self.var(True)
            return '%s = %s %s %s;' % (v, self.var(), src.choice(['+', '-', '^', '*']), src.choice(['1', '2', '3', self.var()]))
        if k < 7:
            return src.choice(['%s++;', '%s += 2;', '--%s;', '%s = 0;', '%s -= 3;']) % self.var(True)
        return self.c(2) + ';'

    def block(self, d, loop, switch, fn):
        n = self.src.int(0, 3) if d > 0 else self.src.int(0, 2)
        return '{ ' + ' '.join(self.stmt(d - 1, loop, switch, fn) for _ in range(n)) + ' }'

    def body(self, d, loop, switch, fn):
        return self.block(d, loop, switch, fn) if self.src.bool(2, 3) else self.stmt(d - 1, loop, switch, fn)

    def tick(self):
        return 'if (@tick()) return%s;' % self.retval

    retval = ''

    def loop_body(self, d, switch, fn):
        k = self.src.draw(4)
        inner = ' '.join(self.stmt(d - 1, True, switch, fn) for _ in range(self.src.int(0, 3)))
        return '{ ' + self.tick() + ' ' + inner + ' }'

    def stmt(self, d, loop=False, switch=False, fn=True):
        src = self.src
        if d <= 0:
            k = src.draw(10)
        else:
            k = src.draw(40)
        if k < 6:
            return self.simple()
        if k == 6:
            return ';'
        if k == 7:
            if loop and src.bool():
                self.feats.add('continue')
                return 'continue;'
            if loop or switch:
                self.feats.add('break')
                return 'break;'
            return self.simple()
        if k == 8:
            return self.simple()
        if k == 9:
            if src.bool(1, 3):
                self.feats.add('return')
                return 'return%s;' % self.retval
            return self.simple()
        if k < 14:
            self.feats.add('if')
            return 'if (%s) %s' % (self.c(2), self.noelse(d, loop, switch, fn))
        if k < 20:
            self.feats.add('ifelse')
            return 'if (%s) %s else %s' % (self.c(2), self.noelse(d, loop, switch, fn), self.body(d, loop, switch, fn))
        if k < 24:
            self.feats.add('while')
            return 'while (%s) %s' % (self.c(2), self.loop_body(d, switch, fn))
        if k < 30:
            return self.for_(d, switch, fn)
        if k < 37:
            return self.switch_(d, loop, fn)
        return self.block(d, loop, switch, fn)

    def noelse(self, d, loop, switch, fn):
        """body of an if; may itself be an if (dangling else is resolved by the grammar the same way in both compilers)"""
        return self.body(d, loop, switch, fn)

    def for_(self, d, switch, fn):
        src = self.src
        self.feats.add('for')
        form = src.draw(6)
        bound = src.int(0, 5)
        if form == 0:
            self.depth_vars += 1
            i = 'i%d' % self.depth_vars
            self.vars.append(i)
            self.ro.add(i)
            b = self.loop_body(d, switch, fn)
            step = src.choice(['%s++', '++%s', '%s += 1', '%s = %s + 1', '%s += 2']).replace('%s', i)
            r = 'for (int %s = 0; %s %s %d; %s) %s' % (i, i, src.choice(['<', '<=', '!=']) if '2' not in step else '<', bound, step, b)
            self.vars.remove(i)
            return r
        v = self.var(True)
        if form < 3:
            had = v in self.ro
            self.ro.add(v) if len(self.vars) - len(self.ro) > 1 else None
            b = self.loop_body(d, switch, fn)
            if not had:
                self.ro.discard(v)
            return 'for (%s = %d; %s %s %d; %s%s) %s' % (v, src.draw(3), v, src.choice(['<', '<=']), bound, v, src.choice(['++', ' += 2', ' = ' + v + ' + 1']), b)
        a = self.simple()[:-1] if src.bool() else ''
        c = self.c(1) if src.bool(2, 3) else ''
        e = self.simple()[:-1] if src.bool(2, 3) else ''
        return 'for (%s; %s; %s) %s' % (a, c, e, self.loop_body(d, switch, fn))

    def switch_(self, d, loop, fn):
        src = self.src
        self.feats.add('switch')
        n = src.small(6)
        labels = src.sample(list(range(8)) + [10, 100, 127, 128, 255, 256, 1000, 65536, 2147483647], n)
        x = src.choice([self.var(), 'tr(%d, %s)' % (self.tag(), src.choice([self.var(), '1', '3'])), '%s + 1' % self.var(), '%s & 3' % self.var()])
        items = []
        labs = ['case %s:' % (src.choice(['%d', '0x%x', '%d', '0%o']) % l if l < 32 or l > 126 or src.bool() else "'%s'" % (chr(l) if chr(l) not in "'\\" else 'a')) for l in labels]
        seen = set()
        labs2 = []
        for l, v in zip(labs, labels):
            if v in seen or "'a'" in l and 97 in seen:
                continue
            seen.add(v)
            labs2.append(l)
        labs = labs2
        if src.bool(2, 3):
            labs.insert(src.draw(len(labs) + 1), 'default:')
            self.feats.add('default')
        if src.bool(1, 8) and labs:
            return 'switch (%s) %s %s' % (x, labs[0], self.stmt(d - 1, loop, True, fn))
        if src.bool(1, 6):
            items.append(self.stmt(0, loop, True, fn))        # unreachable statement before the first label
        for l in labs:
            k = src.draw(8)
            if k == 0:
                items.append(l + ' ;')
            elif k == 1 and d > 1:
                items.append(l + ' ' + self.block(d - 1, loop, True, fn))
            else:
                items.append(l + ' ' + ' '.join([self.stmt(d - 1, loop, True, fn) for _ in range(src.int(1, 2))]))
            if src.bool():
                items.append('break;')
                self.feats.add('break')
        return 'switch (%s) { %s }' % (x, ' '.join(items))


def ctrl_prog(src, depth=None):
    g = Ctrl(src)
    n = src.int(1, 5)
    d = depth or src.int(1, 4)
    stmts = '\n'.join(g.stmt(d) for _ in range(n))
    decl = ' '.join('%s %s;' % (NAME[t], v) for t, v in zip(g.vt, ['v%d' % i for i in range(len(g.vt))]))
    init = ' '.join('v%d = %d;' % (i, src.int(0, 5)) for i in range(len(g.vt)))
    dump = ' '.join('put_i(v%d);' % i for i in range(len(g.vt)))
    text = ('int @fuel;\nint @tick(void) { @fuel--; return @fuel < 0; }\n'
            'void @f(void) {\n%s\n%s\n%s\n%s\n}\nvoid @main(void) { @fuel = %d; @f(); put_i(@fuel); }\n' % (decl, init, stmts, dump, g.fuel))
    return Case(text, need=3, feats=['ctrl:' + f for f in g.feats])


def ctrl_ret(src):
    """functions that return values from the middle of nested statements"""
    g = Ctrl(src)
    t = src.choice(ITYPES)
    e = ExprGen(src, _simple_env(g), max_need=3)
    g.retval = ' v0 + %d' % src.int(0, 200)
    n = src.int(1, 4)
    d = src.int(1, 3)
    ps = ', '.join('%s %s' % (NAME[tt], v) for tt, v in zip(g.vt, g.vars))
    stmts = '\n'.join(g.stmt(d) for _ in range(n))
    ret = e.expr(1).text()
    calls = '\n'.join('@fuel = %d; %s(@f(%s));' % (g.fuel, PUT[t], ', '.join(str(src.int(0, 6)) for _ in g.vt)) for _ in range(src.int(1, 4)))
    text = ('int @fuel;\nint @tick(void) { @fuel--; return @fuel < 0; }\n'
            '%s @f(%s) {\n%s\nreturn %s;\n}\nvoid @main(void) { %s }\n' % (NAME[t], ps, stmts, ret, calls))
    return Case(text, need=4, feats=['ctrl:' + f for f in g.feats])


def _simple_env(g):
    class E:
        pass
    e = E()
    e.vars = [Var(prim(v, t), t, 0) for v, t in zip(g.vars, g.vt)]
    return e


def ctrl_seq(src):
    """evaluation order guaranteed by C: && || ?: full expressions, for clauses, initialisers of scalars, arguments before the call"""
    g = Ctrl(src)
    body = []
    for _ in range(src.int(1, 5)):
        k = src.draw(7)
        c, p = g.cond(src.int(1, 4))
        par = '(' + c + ')'
        if k == 0:
            body.append('put_i(%s);' % (c if p >= P_COND else par))
        elif k == 1:
            body.append('v0 = %s;' % par)
        elif k == 2:
            body.append('if (%s) tr(%d, 0); else tr(%d, 0);' % (c, g.tag(), g.tag()))
        elif k == 3:
            body.append('{ int n; n = 0; while (n++ < 3 && %s) { tr(%d, 0); } put_i(n); }' % (par, g.tag()))
        elif k == 4:
            body.append('for (tr(%d, 0); tr(%d, 1) && @fuel-- > 0 && %s; tr(%d, 0)) { tr(%d, 0); }' % (g.tag(), g.tag(), par, g.tag(), g.tag()))
        elif k == 5:
            body.append('put_i(%s ? tr(%d, 5) : tr(%d, 6));' % (par, g.tag(), g.tag()))
        else:
            body.append('put_i(%s + 10);' % par)
        body.append(' '.join('put_i(v%d);' % i for i in range(len(g.vt))))
    decl = ' '.join('%s v%d;' % (NAME[t], i) for i, t in enumerate(g.vt))
    init = ' '.join('v%d = %d;' % (i, src.int(0, 3)) for i in range(len(g.vt)))
    return Case('int @fuel;\nvoid @main(void) {\n%s\n%s\n@fuel = 6;\n%s\n}\n' % (decl, init, '\n'.join(body)), need=4,
                feats=['ctrl:' + f for f in g.feats])


def ctrl_switch(src):
    """one switch over a table of selector values: all label/default/fall-through arrangements, every integer type"""
    t = src.choice(ITYPES)
    # (a label wider than the promoted controlling type is a recorded finding)
    hi = 127 if t == 'c' else 2 ** 31 - 1 if SIZE[t] == 4 or src.bool() else 2 ** 63 - 1
    n = src.int(1, 9)
    labs = set()
    while len(labs) < n:
        labs.add(min(hi, src.choice([src.draw(10), src.draw(128), src.draw(hi) + 1 if hi > 127 else src.draw(128), hi, hi - 1, 0])))
        if src.replay is not None and len(src.log) > 4000:
            break
    labs = src.shuffle(sorted(labs))
    items = []
    k = 0
    dpos = src.draw(len(labs) + 1) if src.bool(2, 3) else -1
    for i, l in enumerate(labs + [None]):
        if i == dpos:
            k += 1
            items.append('default: tr(%d, 0);%s' % (k, ' break;' if src.bool() else ''))
        if l is None:
            break
        k += 1
        if src.bool(1, 5):
            items.append('case %d:' % l)
        else:
            items.append('case %d: tr(%d, 0);%s' % (l, k, ' break;' if src.bool() else ''))
    if items and items[-1].endswith(':'):
        items[-1] += ' ;'
    probes = []
    for l in labs[:6]:
        probes += [l, l + src.choice([-1, 1])]
    probes += [interesting(src, t) for _ in range(3)]
    if SIZE[t] == 8:
        # same low 32 bits as a label
        probes.append(labs[0] + (1 << 32))
    calls = ' '.join('@f(%s); put_i(0);' % value_node(src, wrap(v, t)).text() for v in probes)
    text = 'void @f(%s x) { switch (x) { %s } }\nvoid @main(void) { %s }\n' % (NAME[t], '\n'.join(items), calls)
    return Case(text, need=3, feats=['switch:' + t])


CTRL = [('ctrl_prog', ctrl_prog), ('ctrl_ret', ctrl_ret), ('ctrl_seq', ctrl_seq), ('ctrl_switch', ctrl_switch)]
