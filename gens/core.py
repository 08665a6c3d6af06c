"""Typed C expression generation over umlcc's supported subset."""

# key: (spellings, size, signed, put function, rank)
T = {
    'c': (['char'], 1, True, 'put_c', 0),
    'i': (['int'], 4, True, 'put_i', 1),
    'u': (['unsigned int', 'unsigned'], 4, False, 'put_u', 1),
    'l': (['long', 'long int'], 8, True, 'put_l', 2),
    'ul': (['unsigned long', 'unsigned long int'], 8, False, 'put_ul', 2),
    'll': (['long long', 'long long int'], 8, True, 'put_ll', 3),
    'ull': (['unsigned long long', 'unsigned long long int'], 8, False, 'put_ull', 3),
}
ITYPES = list(T)
WIDE = ['i', 'u', 'l', 'ul', 'll', 'ull']
NAME = {k: v[0][0] for k, v in T.items()}
SIZE = {k: v[1] for k, v in T.items()}
SIGNED = {k: v[2] for k, v in T.items()}
PUT = {k: v[3] for k, v in T.items()}
RANK = {k: v[4] for k, v in T.items()}
UNSIGNED_OF = {'i': 'u', 'l': 'ul', 'll': 'ull', 'u': 'u', 'ul': 'ul', 'ull': 'ull'}


def spell(src, t):
    s = T[t][0]
    return s[0] if len(s) == 1 else src.weighted([(3, s[0])] + [(1, x) for x in s[1:]])


def promote(t):
    return 'i' if t == 'c' else t


def uac(a, b):
    """usual arithmetic conversions"""
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if SIGNED[a] == SIGNED[b]:
        return a if RANK[a] >= RANK[b] else b
    u, s = (b, a) if SIGNED[a] else (a, b)
    if RANK[u] >= RANK[s]:
        return u
    if SIZE[s] > SIZE[u]:
        return s
    return UNSIGNED_OF[s]


def wrap(v, t):
    n = 8 * SIZE[t]
    v &= (1 << n) - 1
    if SIGNED[t] and v >> (n - 1):
        v -= 1 << n
    return v


P_ASSIGN, P_COND, P_LOR, P_LAND, P_OR, P_XOR, P_AND, P_EQ, P_REL, P_SH, P_ADD, P_MUL, P_CAST, P_UN, P_POST, P_PRIM = range(1, 17)
BINPREC = {'||': P_LOR, '&&': P_LAND, '|': P_OR, '^': P_XOR, '&': P_AND, '==': P_EQ, '!=': P_EQ, '<': P_REL, '>': P_REL,
           '<=': P_REL, '>=': P_REL, '<<': P_SH, '>>': P_SH, '+': P_ADD, '-': P_ADD, '*': P_MUL, '/': P_MUL, '%': P_MUL}
ARITH = ['+', '-', '*', '/', '%']
BITS = ['&', '|', '^']
SHIFT = ['<<', '>>']
COMPARE = ['==', '!=', '<', '>', '<=', '>=']
LOGIC = ['&&', '||']
ALLBIN = ARITH + BITS + SHIFT + COMPARE + LOGIC


class Node:
    """parts: strings and (node, minimal precedence).  wrapped: the generator asked for redundant parentheses."""
    __slots__ = ('prec', 'typ', 'need', 'parts', 'size', 'wrapped', 'lval', 'call', 'ops', 'bare')

    def __init__(self, prec, typ, parts, need=1, size=1, wrapped=False, lval=False, call=False, ops=0, bare=False):
        self.prec, self.typ, self.parts, self.need, self.size = prec, typ, parts, need, size
        self.wrapped, self.lval, self.call, self.ops = wrapped, lval, call, ops
        self.bare = bare

    def text(self, mode='gen'):
        """mode: gen = minimal plus the redundant parentheses drawn; min = minimal; full = everything parenthesised"""
        out = ''
        for p in self.parts:
            if isinstance(p, str):
                s = p
            else:
                n, mp = p
                s = n.text(mode)
                if n.prec < mp or (mode == 'full' and n.prec < P_PRIM) or (mode == 'gen' and n.wrapped and mp > 0):
                    s = '(' + s + ')'
            if out and s and out[-1] in '+-&' and s[0] == out[-1]:
                out += ' '
            out += s
        return out


def prim(text, typ, need=1, **kw):
    return Node(P_PRIM, typ, [text], need, **kw)


def unary(op, e, typ=None, prec=P_UN):
    if typ is None:
        typ = 'i' if op == '!' else promote(e.typ)
    return Node(prec, typ, [op, (e, P_CAST)], e.need, e.size + 1, ops=e.ops + 1, call=e.call)


def cast(tname, typ, e):
    return Node(P_CAST, typ, ['(' + tname + ')', (e, P_CAST)], e.need, e.size + 1, ops=e.ops + 1, call=e.call)


def binary(op, a, b, typ=None):
    p = BINPREC[op]
    if typ is None:
        if op in SHIFT:
            typ = promote(a.typ)
        elif op in COMPARE or op in LOGIC:
            typ = 'i'
        else:
            typ = uac(a.typ, b.typ)
    return Node(p, typ, [(a, p), ' ' + op + ' ', (b, p + 1)], max(a.need, b.need + 1) + (1 if op in LOGIC else 0),
                a.size + b.size + 1, ops=a.ops + b.ops + 1, call=a.call or b.call)


def cond(c, a, b, typ=None):
    if typ is None:
        typ = uac(a.typ, b.typ)
    return Node(P_COND, typ, [(c, P_LOR), ' ? ', (a, P_ASSIGN), ' : ', (b, P_COND)], max(c.need, a.need + 1, b.need + 1) + 1,
                c.size + a.size + b.size + 1, ops=c.ops + a.ops + b.ops + 1, call=a.call or b.call or c.call)


def assign(op, lhs, rhs):
    return Node(P_ASSIGN, lhs.typ, [(lhs, P_UN), ' ' + op + ' ', (rhs, P_ASSIGN)], max(rhs.need, lhs.need + 1) + 1,
                lhs.size + rhs.size + 1, ops=rhs.ops + lhs.ops + 1)


def callnode(fname, args, typ):
    parts = [fname + '(']
    for i, a in enumerate(args):
        if i:
            parts.append(', ')
        parts.append((a, P_ASSIGN))
    parts.append(')')
    return Node(P_POST, typ, parts, max([1] + [a.need for a in args]), 1 + sum(a.size for a in args), call=True,
                ops=1 + sum(a.ops for a in args))


# ---------------------------------------------------------------- values and literals

def interesting(src, t):
    """a value of type t (python int), boundary-heavy"""
    n = 8 * SIZE[t]
    k = src.draw(12)
    if k < 3:
        v = src.int(0, 9)
    elif k < 5:
        v = -src.int(1, 9)
    elif k < 8:
        b = src.choice([8, 7, 16, 15, 31, 32, 33, 63, 64, n, n - 1, 4, 20, 40])
        v = (1 << b) + src.int(-2, 2)
        if src.bool():
            v = -v
    elif k < 9:
        v = src.choice([127, 128, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296,
                        9223372036854775807, 9223372036854775808, 0x5555555555555555, 0xaaaaaaaa, 1000000007])
    elif k < 10:
        v = src.int(-200, 200)
    else:
        v = 0
        for _ in range(4):
            v = v << 16 | src.draw(65536)
        if src.bool():
            v >>= src.draw(60)
    return wrap(v, t)


def lit_type(v, base10, suffix):
    """type of an integer constant by C99 6.4.4.1"""
    s = suffix.lower()
    u = 'u' in s
    l = s.count('l')
    if u:
        cand = {0: ['u', 'ul', 'ull'], 1: ['ul', 'ull'], 2: ['ull']}[l]
    elif base10:
        cand = {0: ['i', 'l', 'll'], 1: ['l', 'll'], 2: ['ll']}[l]
    else:
        cand = {0: ['i', 'u', 'l', 'ul', 'll', 'ull'], 1: ['l', 'ul', 'll', 'ull'], 2: ['ll', 'ull']}[l]
    for c in cand:
        if 0 <= v < (1 << (8 * SIZE[c] - (1 if SIGNED[c] else 0))):
            return c
    return None


def int_literal(src, v, plain=False):
    """a spelling of non-negative v: node with its C type, or None if v has no constant of that form"""
    base = 0 if plain else src.weighted([(6, 0), (2, 1), (1, 2)])
    if base == 0:
        s = str(v)
    elif base == 1:
        s = '%x' % v
        if src.bool(1, 3):
            s = s.upper()
        s = ('0X' if src.bool(1, 4) else '0x') + s
    else:
        s = '0%o' % v
    suf = '' if plain else src.weighted([(8, ''), (1, 'u'), (1, 'l'), (1, 'ul'), (1, 'll'), (1, 'ull')])
    if suf:
        suf = ''.join(ch for ch in suf)
        if 'l' in suf and src.bool():
            suf = suf.replace('l', 'L')
        if 'u' in suf and src.bool():
            suf = suf.replace('u', 'U')
        if 'u' in suf.lower() and len(suf) > 1 and src.bool(1, 3):
            suf = suf[1:] + suf[0]
    t = lit_type(v, base == 0, suf)
    if t is None:
        return prim('%dull' % v, 'ull')
    return prim(s + suf, t)


CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !#$%&()*+,-./:;<=>[]^_`{|}~"


def char_literal(src):
    if src.bool(1, 4):
        return prim("'" + src.choice(['\\n', '\\t', '\\0', '\\\\', "\\'", '\\"', '\\a', '\\b', '\\f', '\\r', '\\v', '\\?']) + "'", 'i')
    return prim("'" + src.choice(CHARS) + "'", 'i')


def value_node(src, v, plain=False):
    """expression denoting python int v (any sign)"""
    if v >= 0:
        return int_literal(src, v, plain)
    e = int_literal(src, -v, plain)
    return unary('-', e)


def const(src, t=None):
    k = src.draw(10)
    if k < 5:
        return int_literal(src, src.int(0, 12), plain=src.bool())
    if k < 6:
        return char_literal(src)
    v = interesting(src, t or src.choice(ITYPES))
    if v < 0:
        v = -v
    return int_literal(src, v)


# ---------------------------------------------------------------- environments of variables

class Var:
    def __init__(self, node, t, init):
        self.node, self.t, self.init = node, t, init


class Env:
    """Variables in every storage form; collects file-scope text, parameters, local declarations, initial statements."""

    def __init__(self, src, n=None, types=None, kinds=None):
        self.src = src
        self.globals, self.params, self.args, self.decls, self.inits = [], [], [], [], []
        self.vars = []
        self.k = 0
        kinds = kinds or ['local', 'global', 'param', 'arr', 'garr', 'arrv', 'ptr', 'mem', 'gmem', 'arrow', 'arr2', 'pptr', 'memarr']
        for _ in range(n if n is not None else src.int(2, 5)):
            t = src.choice(types or ['i', 'c', 'u', 'l', 'ul', 'll', 'ull'])
            self.add(src.weighted([(4, kinds[0])] + [(1, k) for k in kinds[1:]]) if len(kinds) > 1 else kinds[0], t)

    def fresh(self, p='v'):
        self.k += 1
        return '%s%d' % (p, self.k)

    def add(self, kind, t, value=None):
        src = self.src
        v = self.fresh()
        tn = spell(src, t)
        if value is None:
            value = interesting(src, t)
        val = value_node(src, value)
        vt = val.text()
        if kind == 'local':
            if src.bool(1, 3):
                self.decls.append('%s %s = %s;' % (tn, v, vt))
            else:
                self.decls.append('%s %s;' % (tn, v))
                self.inits.append('%s = %s;' % (v, vt))
            node = prim(v, t, lval=True)
        elif kind == 'global':
            if value >= 0 and src.bool():
                self.globals.append('%s @%s = %s;' % (tn, v, int_literal(src, value).text()))
            else:
                self.globals.append('%s @%s;' % (tn, v))
                self.inits.append('@%s = %s;' % (v, vt))
            node = prim('@' + v, t, lval=True)
        elif kind == 'param':
            self.params.append('%s %s' % (tn, v))
            self.args.append(vt)
            node = prim(v, t, lval=True)
        elif kind in ('arr', 'garr', 'arrv'):
            n = src.int(1, 6)
            k = src.draw(n)
            if kind == 'garr':
                self.globals.append('%s @%s[%d];' % (tn, v, n))
                v = '@' + v
            else:
                self.decls.append('%s %s[%d];' % (tn, v, n))
            for j in range(n):
                self.inits.append('%s[%d] = %s;' % (v, j, value_node(src, interesting(src, t)).text() if j != k else vt))
            if kind == 'arrv':
                i = self.fresh('i')
                it = src.choice(['i', 'c', 'u', 'l', 'ul', 'll'])
                self.decls.append('%s %s;' % (NAME[it], i))
                self.inits.append('%s = %d;' % (i, k))
                ix = prim(i, it)
            else:
                ix = prim(str(k), 'i')
            if src.bool(1, 4):
                node = Node(P_UN, t, ['*', (Node(P_ADD, None, [v + ' + ', (ix, P_MUL)]), P_CAST)], 2, lval=True)
            else:
                node = Node(P_POST, t, [v + '[', (ix, P_ASSIGN), ']'], 2, lval=True)
        elif kind == 'ptr':
            p = self.fresh('p')
            self.decls.append('%s %s;' % (tn, v))
            self.inits.append('%s = %s;' % (v, vt))
            self.decls.append('%s* %s;' % (tn, p))
            self.inits.append('%s = &%s;' % (p, v))
            node = Node(P_UN, t, ['*' + p], 1, lval=True)
            if src.bool(1, 4):
                node = Node(P_POST, t, [p + '[0]'], 2, lval=True)
        elif kind == 'pptr':
            p, q = self.fresh('p'), self.fresh('q')
            self.globals.append('%s @%s;' % (tn, v))
            self.inits.append('@%s = %s;' % (v, vt))
            self.decls.append('%s* %s;' % (tn, p))
            self.decls.append('%s** %s;' % (tn, q))
            self.inits.append('%s = &@%s;' % (p, v))
            self.inits.append('%s = &%s;' % (q, p))
            node = Node(P_UN, t, ['**' + q], 1, lval=True)
        elif kind in ('mem', 'gmem', 'arrow', 'memarr'):
            n = src.int(1, 5)
            k = src.draw(n)
            tag = self.fresh('S')
            ms = []
            for j in range(n):
                mt = src.choice(ITYPES) if j != k else t
                if j == k and kind == 'memarr':
                    ms.append('%s m%d[%d];' % (NAME[mt], j, 3))
                else:
                    ms.append('%s m%d;' % (NAME[mt], j))
            self.globals.append('struct @%s { %s };' % (tag, ' '.join(ms)))
            if kind == 'gmem':
                self.globals.append('struct @%s @%s;' % (tag, v))
                v = '@' + v
            else:
                self.decls.append('struct @%s %s;' % (tag, v))
            m = 'm%d' % k
            if kind == 'memarr':
                x = src.draw(3)
                m += '[%d]' % x
            node = Node(P_POST, t, ['%s.%s' % (v, m)], 2, lval=True)
            if kind == 'arrow':
                p = self.fresh('p')
                self.decls.append('struct @%s* %s;' % (tag, p))
                self.inits.append('%s = &%s;' % (p, v))
                node = Node(P_POST, t, ['%s->%s' % (p, m)], 2, lval=True)
            self.inits.append('%s = %s;' % (node.text(), vt))
        elif kind == 'arr2':
            a, b = src.int(1, 3), src.int(1, 4)
            x, y = src.draw(a), src.draw(b)
            self.decls.append('%s %s[%d][%d];' % (tn, v, a, b))
            node = Node(P_POST, t, ['%s[%d][%d]' % (v, x, y)], 2, lval=True)
            self.inits.append('%s = %s;' % (node.text(), vt))
        else:
            raise ValueError(kind)
        self.vars.append(Var(node, t, value))
        return self.vars[-1]

    def function(self, name, body, ret='void', more_params=()):
        ps = ', '.join(self.params + list(more_params)) or 'void'
        return '\n'.join(self.globals) + '\n%s %s(%s) {\n%s\n%s\n%s\n}\n' % (
            ret, name, ps, '\n'.join(self.decls), '\n'.join(self.inits), body)

    def wrap(self, body):
        """complete case: @main calls @f with the parameter values"""
        if not self.params:
            return self.function('@main', body)
        return self.function('@f', body) + 'void @main(void) { @f(%s); }\n' % ', '.join(self.args)


# ---------------------------------------------------------------- expressions

class ExprGen:
    def __init__(self, src, env, ops=None, calls=False, casts=True, conds=True, max_need=6, leaf_const=3, types=None):
        self.src, self.env = src, env
        self.ops = ops or ALLBIN
        self.calls, self.casts, self.conds = calls, casts, conds
        self.max_need = max_need
        self.leaf_const = leaf_const
        self.types = types or ITYPES

    def leaf(self):
        src = self.src
        if not self.env.vars or src.draw(10) < self.leaf_const:
            return const(src)
        return src.choice(self.env.vars).node

    def expr(self, depth):
        src = self.src
        if depth <= 0:
            return self.leaf()
        k = src.draw(20)
        if k < 2:
            n = self.leaf()
        elif k < 5:
            n = unary(src.choice(['-', '~', '!', '+']), self.expr(depth - 1))
        elif k < 8 and self.casts:
            t = src.choice(self.types)
            n = cast(spell(src, t), t, self.expr(depth - 1))
        elif k < 10 and self.conds:
            n = cond(self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1))
        elif k < 11 and self.calls:
            t = src.choice(ITYPES)
            n = callnode('id_' + t, [self.expr(depth - 1)], t)
        else:
            n = self.bin(src.choice(self.ops), self.expr(depth - 1 - src.draw(2)), self.expr(depth - 1 - src.draw(2)))
        if src.draw(12) == 11:
            n.wrapped = True
        if n.need > self.max_need:
            return self.leaf()
        return n

    def bin(self, op, a, b):
        src = self.src
        if op in ('/', '%'):
            k = src.draw(8)
            if k < 3:
                v = interesting(src, src.choice(ITYPES))
                b = int_literal(src, abs(v) or 3)
            else:
                # never 0 and never -1
                b = binary('|', binary('&', b, unary('-', prim('3', 'i'))), prim('1', 'i'))
        elif op in SHIFT:
            w = 8 * SIZE[promote(a.typ)]
            k = src.draw(8)
            if k < 4:
                b = int_literal(src, src.choice([0, 1, w - 1, src.draw(w), src.draw(w)]), plain=src.bool())
            else:
                b = binary('&', b, prim(str(w - 1), 'i'))
        return binary(op, a, b)


def put(node, t=None):
    return '%s(%s);' % (PUT[t or node.typ], node.text())
