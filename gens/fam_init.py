"""Initialiser lists over random aggregates with the braces of inner aggregates left out at random: their values, and
lists with one value too many."""
from core import *
from batch import Case


class Agg:
    """('i', t) | ('a', n, T) | ('st', tag, [T]) over an own set of struct tags"""

    def __init__(self, src, leaves=24):
        self.src, self.defs, self.left, self.k = src, [], leaves, 0
        self.top = self.aggregate(src.int(1, 3))

    def any(self, d):
        return self.aggregate(d - 1) if d > 0 and self.left > 3 and self.src.bool() else ('i', self.src.choice(ITYPES))

    def aggregate(self, d):
        src = self.src
        if src.bool():
            n = src.int(1, 3)
            self.left //= n
            T = self.any(d)
            return 'a', n, T
        ms = []
        for _ in range(src.int(1, 4)):
            ms.append(self.any(d))
            self.left -= 1
        self.k += 1
        tag = '@g%d' % self.k
        self.defs.append('struct %s { %s };\n' % (tag, ' '.join('%s;' % decl(m, 'm%d' % i) for i, m in enumerate(ms))))
        return 'st', tag, ms


def decl(T, name):
    if T[0] == 'i':
        return '%s %s' % (NAME[T[1]], name)
    if T[0] == 'a':
        return decl(T[2], '%s[%d]' % (name, T[1]))
    return 'struct %s %s' % (T[1], name)


def parts(T):
    return [('[%d]' % i, T[2]) for i in range(T[1])] if T[0] == 'a' else [('.m%d' % i, m) for i, m in enumerate(T[2])]


def leaves(T, path=''):
    if T[0] == 'i':
        return [(path, T[1])]
    return [x for p, m in parts(T) for x in leaves(m, path + p)]


class Init:
    """text with a list of insertion points behind the last value of lists that are full"""

    def __init__(self, src, T, value):
        self.src, self.value = src, value
        self.full = []          # indices into out
        self.out = []
        self.braced(T)

    def braced(self, T):
        """{ ... } for an aggregate: complete or cut short"""
        src = self.src
        self.out.append('{')
        ps = parts(T)
        n = len(ps) if src.bool(2, 3) else src.int(1, len(ps))
        whole = True
        for i, (_, m) in enumerate(ps[:n]):
            if i:
                self.out.append(', ')
            whole = self.item(m, i == n - 1)
        if n == len(ps) and whole:
            self.full.append(len(self.out))
        if src.bool(1, 8):
            self.out.append(',')
        self.out.append('}')

    def item(self, m, last, bare=False):
        """-> False if the list has to end behind it. A brace always belongs to the outermost aggregate that can begin
        there, so the first part of an aggregate without braces has none either (bare)."""
        if m[0] == 'i':
            self.out.append(self.value(m[1]))
            return True
        if not bare and self.src.bool():
            self.braced(m)
            return True
        ps = parts(m)
        # without braces: all its parts, or, at the end of the list around it, the first few
        n = self.src.int(1, len(ps)) if last and self.src.bool(1, 3) else len(ps)
        whole = True
        for i, (_, x) in enumerate(ps[:n]):
            if i:
                self.out.append(', ')
            whole = self.item(x, last and i == n - 1, i == 0)
        return whole and n == len(ps)

    def text(self):
        return ''.join(self.out)


def ini_elide(src):
    a = Agg(src)
    glob = src.bool()
    g = '@' if glob else ''

    def value(t):
        if not glob and src.bool(1, 4):
            return src.choice(['a', 'b', 'a + b', 'b - 3'])
        return int_literal(src, abs(interesting(src, t)) & (2 ** (8 * SIZE[t]) - 1)).text()
    i = Init(src, a.top, value)
    ds = ['long %sx = 12345678;' % g, '%s = %s;' % (decl(a.top, g + 'o'), i.text()), 'long %sy = 87654321;' % g]
    dump = ['put_l(%sx);' % g] + ['%s(%so%s);' % (PUT[t], g, p) for p, t in leaves(a.top)[:40]] + ['put_l(%sy);' % g]
    n = i.text().count('{')
    pre = ''.join(a.defs)
    if glob:
        return Case('%s%s\nvoid @main(void) { %s }\n' % (pre, '\n'.join(ds), ' '.join(dump)), need=3, feats=['lists:%d' % min(n, 6)])
    dirty = 'void @dirt(void) { long d[40]; for (int k = 0; k < 40; k++) d[k] = -1; put_l(d[%d]); }\n' % src.draw(40)
    return Case('%s%svoid @f(int a, long b) { %s %s }\nvoid @main(void) { @dirt(); @f(%d, %d); }\n' % (
        pre, dirty, ' '.join(ds), ' '.join(dump), src.draw(1000), src.draw(100000)), need=4, feats=['lists:%d' % min(n, 6)])
