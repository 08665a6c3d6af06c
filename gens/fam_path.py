"""Families: access paths through random derived types (arrays, structs, pointers nested in any order), every object
compared byte by byte afterwards."""
from core import *
from batch import Case


class World:
    def __init__(self, src, bias):
        self.src = src
        self.bias = bias
        self.structs = []       # list of member lists [(name, type)]
        self.defs = []
        self.tds = []
        self.funs = []
        self.objects = []       # (name, type) to be filled and dumped; all have static storage or live in main
        self.globals = []
        self.zap = []           # pointer lvalues that were given an address
        self.n = 0
        self.nesting = 0

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ------------------------------------------------------------ types
    def typ(self, d, agg=False):
        """a random type of nesting at most d"""
        s = self.src
        if d <= 0:
            return ('i', s.choice(ITYPES))
        w = {'ptr': [(1, 'i'), (5, 'a'), (2, 's'), (3, 'p')], 'struct': [(1, 'i'), (2, 'a'), (5, 's'), (2, 'p')]}[self.bias]
        if agg:
            w = [x for x in w if x[1] in 'as']
        k = s.weighted(w)
        if k == 'i':
            return ('i', s.choice(ITYPES))
        if k == 'a':
            t = ('a', s.int(1, 4), self.typ(d - 1))
        elif k == 'p':
            t = ('p', self.typ(d - 1))
        elif self.structs and s.bool(1, 3):
            return ('s', s.draw(len(self.structs)))
        else:
            ms = [('m%d' % i, self.typ(d - 1 if s.bool() else 0)) for i in range(s.int(1, 4))]
            if s.bool(1, 5):
                ms.append(('self', ('p', ('s', len(self.structs)))))
            self.structs.append(ms)
            t = ('s', len(self.structs) - 1)
            self.defs.append('struct @S%d { %s };' % (t[1], ' '.join(self.decl(x, nm) + ';' for nm, x in ms)))
        if s.bool(1, 6):
            nm = self.fresh('@T')
            self.defs.append('typedef %s;' % self.decl(t, nm))
            return ('t', nm, t)
        return t

    def decl(self, t, d):
        if t[0] == 't':
            return t[1] + ' ' + d
        if t[0] == 'i':
            return spell(self.src, t[1]) + ' ' + d
        if t[0] == 's':
            return 'struct @S%d %s' % (t[1], d)
        if t[0] == 'a':
            return self.decl(t[2], ('(%s)' % d if d.startswith('*') else d) + '[%d]' % t[1])
        return self.decl(t[1], '*' + d)

    # ------------------------------------------------------------ pieces of paths
    def index(self, out, v):
        """text of an index expression with the value v"""
        s = self.src
        k = s.draw(8)
        if k < 3:
            return str(v) if v >= 0 else '(%d)' % v
        if k == 3 and v >= 0:
            return int_literal(s, v).text()
        if k == 4:
            a = s.int(0, 9)
            return '(%d - %d)' % (v + a, a) if v + a >= 0 else str(v)
        t = s.choice(ITYPES) if v >= 0 else s.choice(['c', 'i', 'l', 'll'])
        nm = self.fresh('i')
        out.append('%s %s; %s = %d;' % (NAME[t], nm, nm, v))
        return s.choice(['%s', '%s', '(%s + 0)', '(0 + %s)']) % nm if t != 'c' or v >= 0 else nm

    def addr(self, e, prec):
        return '&' + (e if prec >= P_UN else '(%s)' % e)

    def post(self, e, prec):
        return e if prec >= P_POST else '(%s)' % e

    def elem(self, out, e, prec, t, i):
        s = self.src
        n = t[1]
        k = s.draw(9)
        p = self.post(e, prec)
        ix = self.index(out, i)
        if k <= 2:
            return '%s[%s]' % (p, ix), P_POST
        if k == 3:
            return '*(%s + %s)' % (e if prec >= P_UN else p, ix), P_UN
        if k == 4:
            return '*(%s + %s)' % (ix, e if prec >= P_UN else p), P_UN
        if k == 5:
            return '%s[%s]' % ('(%s)' % ix, e), P_POST
        j = s.draw(n)
        if k == 6:
            return '(&%s[%d])[%s]' % (p, j, self.index(out, i - j)), P_POST
        if k == 7:
            return '*(&%s[%d] + %s)' % (p, j, self.index(out, i - j)), P_UN
        return '*(&%s[%d] - %s)' % (p, j, self.index(out, j - i)), P_UN

    def target(self, t):
        """the address of a fresh global object of type t, as an expression, with the range of valid offsets"""
        nm = self.fresh('@t')
        s = self.src
        if s.bool():
            self.globals.append(self.decl(t, nm) + ';')
            self.objects.append((nm, t))
            return '&' + nm, 0, 0
        n = s.int(1, 3)
        a = ('a', n, t)
        self.globals.append(self.decl(a, nm) + ';')
        self.objects.append((nm, a))
        k = s.draw(n)
        return s.choice(['%s + %d' % (nm, k), '&%s[%d]' % (nm, k)]), -k, n - 1 - k

    def walk(self, out, e, prec, t, direct, canon, depth=0):
        """extend the lvalue e of type t to a scalar; direct: the root object contains it"""
        s = self.src
        while t[0] == 't':
            t = t[2]
        if depth < 3 and s.bool(1, 6):
            e, prec = self.bind(out, e, prec, t)
            depth += 1
        if depth < 3 and s.bool(1, 12) and self.nesting < 2:
            return self.through_call(out, e, prec, t, canon, depth + 1)
        if s.bool(1, 8):
            out.append('put_i(sizeof(%s));' % e)
        if t[0] == 'i':
            return self.use(out, e, prec, t[1], direct)
        if t[0] == 'a':
            i = s.draw(t[1])
            u = t[2]
            if s.bool(1, 5):
                return self.walk_ptr(out, e, prec, t, i, direct, canon, depth)
            e, prec = self.elem(out, e, prec, t, i)
            return self.walk(out, e, prec, u, direct, '%s[%d]' % (canon, i), depth)
        if t[0] == 's':
            nm, u = s.choice(self.structs[t[1]])
            k = s.draw(5)
            p = self.post(e, prec)
            if k == 0:
                e = '(%s)->%s' % (self.addr(e, prec), nm)
            elif k == 1:
                e = '(*%s).%s' % (self.addr(e, prec), nm)
            elif prec == P_UN and e.startswith('*') and s.bool():
                e = '(%s)->%s' % (e[1:], nm)
            else:
                e = '%s.%s' % (p, nm)
            return self.walk(out, e, P_POST, u, direct, canon + '.' + nm, depth)
        a, lo, hi = self.target(t[1])
        self.zap.append((canon, t))
        out.append('%s = %s;' % (e, a))
        j = s.int(lo, hi)
        tg = a.lstrip('&') if a.startswith('&') and '[' not in a else '(*(%s))' % a
        base = '%s[%d]' % ('(&%s)' % tg if False else '(%s)' % a, j)
        p = self.post(e, prec)
        k = s.draw(3)
        if j == 0 and k == 0:
            ne, np = '*' + (e if prec >= P_UN else p), P_UN
        elif k == 1:
            ne, np = '*(%s + %s)' % (e if prec >= P_UN else p, self.index(out, j)), P_UN
        else:
            ne, np = '%s[%s]' % (p, self.index(out, j)), P_POST
        return self.walk(out, ne, np, t[1], False, base, depth)

    def walk_ptr(self, out, e, prec, t, i, direct, canon, depth):
        """reach element i of the array e with a pointer that moves through it"""
        s = self.src
        q = self.fresh('q')
        p = self.post(e, prec)
        n, u = t[1], t[2]
        j = s.draw(n)
        out.append('%s; %s = %s;' % (self.decl(('p', u), q), q, s.choice(['&%s[%d]' % (p, j), '%s + %d' % (e if prec >= P_UN else p, j)])))
        for _ in range(s.int(1, 3)):
            k = s.draw(5)
            if k == 0 and j + 1 < n:
                out.append(s.choice(['%s++;', '++%s;']) % q); j += 1
            elif k == 1 and j > 0:
                out.append(s.choice(['%s--;', '--%s;']) % q); j -= 1
            elif k == 2:
                m = s.draw(n)
                x = self.index(out, m - j)
                out.append('%s += %s;' % (q, x)); j = m
            elif k == 3:
                m = s.draw(n)
                x = self.index(out, j - m)
                out.append('%s -= %s;' % (q, x)); j = m
            else:
                m = s.draw(n)
                out.append('put_l(%s - %s); put_i(%s %s &%s[%d]);' % (q, e if prec >= P_ADD + 1 else p, q, s.choice(COMPARE), p, m))
        d = i - j
        if d == 0 and s.bool():
            ne, np = '*' + q, P_UN
        else:
            ne, np = '%s[%s]' % (q, self.index(out, d)), P_POST
        return self.walk(out, ne, np, u, direct, '%s[%d]' % (canon, i), depth + 1)

    def bind(self, out, e, prec, t):
        """a pointer variable to the lvalue"""
        q = self.fresh('q')
        out.append('%s; %s = %s;' % (self.decl(('p', t), q), q, self.addr(e, prec)))
        if self.src.bool(1, 4):
            r = self.fresh('q')
            out.append('%s; %s = &%s;' % (self.decl(('p', ('p', t)), r), r, q))
            return '**' + r, P_UN
        return '*' + q, P_UN

    def through_call(self, out, e, prec, t, canon, depth):
        s = self.src
        f = self.fresh('@f')
        body = []
        self.nesting += 1
        extra = s.int(0, 2)
        pre = [NAME[s.choice(ITYPES)] + ' x%d' % i for i in range(extra)]
        if t[0] == 'a' and s.bool():
            par = self.decl(t, 'p')                  # adjusted to a pointer to the element
            arg = e
            i = s.draw(t[1])
            k = s.draw(2)
            ne, np = ('p[%s]' % self.index(body, i), P_POST) if k else ('*(p + %s)' % self.index(body, i), P_UN)
            self.walk(body, ne, np, t[2], False, '%s[%d]' % (canon, i), depth)
        else:
            par = self.decl(('p', t), 'p')
            arg = self.addr(e, prec)
            self.walk(body, '*p', P_UN, t, False, canon, depth)
        self.nesting -= 1
        self.funs.append('void %s(%s) {\n%s\n}\n' % (f, ', '.join(pre + [par]), '\n'.join(body)))
        out.append('%s(%s);' % (f, ', '.join([str(s.int(0, 9)) for _ in pre] + [arg])))

    def use(self, out, e, prec, t, direct):
        s = self.src
        k = s.draw(9)
        P = PUT[t]
        u = e if prec >= P_UN else '(%s)' % e
        v = value_node(s, interesting(s, t)).text()
        if k <= 1:
            out.append('%s(%s);' % (P, e))
        elif k == 2:
            out.append('%s = %s;' % (e, v))
        elif k == 3:
            out.append('%s(%s = %s);' % (P, e, v))
        elif k == 4:
            op = s.choice(['+=', '-=', '^=', '|=', '&=', '*=', '/=', '%=', '<<=', '>>='])
            out.append('%s %s %s;' % (e, op, v if op[0] not in '/%<>' and s.bool() else str(s.int(1, 7))))
        elif k == 5:
            out.append('%s(%s%s);' % (P, self.post(e, prec), s.choice(['++', '--'])))
        elif k == 6:
            out.append('%s(%s%s);' % (P, s.choice(['++', '--']), u))
        elif k == 7 and direct:
            out.append('put_l((char*)%s - (char*)%s);' % (self.addr(e, prec), self.rootaddr))
        else:
            out.append('%s = %s %s %s; %s(%s);' % (e, u, s.choice(['+', '-', '^']), s.choice(['1', '3', v]), P, e))


def path(src, bias):
    w = World(src, bias)
    t = w.typ(src.int(1, 4), agg=True)
    root = '@root' if src.bool() else 'root'
    body = []
    head = []
    if root == '@root':
        w.globals.append(w.decl(t, root) + ';')
    else:
        head.append('long before; %s; long after; before = 77; after = 78;' % w.decl(t, root))
    w.objects.append((root, t))
    w.rootaddr = '&' + root
    for _ in range(src.int(1, 6)):
        blk = []
        w.walk(blk, root, P_PRIM, t, True, root)
        body.append('{ ' + '\n'.join(blk) + ' }')
    fill, dump = [], []
    for nm, ty in w.objects:
        fill.append('put_fill((char*)&%s, sizeof(%s), %d);' % (nm, nm, src.int(1, 200)))
        dump.append('put_mem((char*)&%s, sizeof(%s));' % (nm, nm))
    seen = set()
    for c, ty in w.zap:
        if c not in seen:
            seen.add(c)
    # innermost first, so that a pointer needed to reach another one is still valid
    zap = ['put_fill((char*)&%s, 8, 0);' % c for c in reversed(list(dict.fromkeys(c for c, _ in w.zap)))]
    tail = [] if root == '@root' else ['put_l(before); put_l(after);']
    text = '\n'.join(w.defs) + '\n' + '\n'.join(w.globals) + '\n'
    text += ''.join(w.funs) + 'void @main(void) {\n' + '\n'.join(head + fill + body + zap + dump + tail) + '\n}\n'
    return Case(text, need=6, feats=['path:%d structs' % min(len(w.structs), 5)])


def path_ptr(src):
    return path(src, 'ptr')


def path_struct(src):
    return path(src, 'struct')


PATHP = [('path_ptr', path_ptr)]
PATHS = [('path_struct', path_struct)]
