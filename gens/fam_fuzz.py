"""Generators of hostile inputs: bytes, token soup, untyped syntax, mutated valid programs."""
import re

import fam_expr, fam_ctrl, fam_call, fam_data, fam_decl, fam_path, fam_tags
import harness

ALL = (fam_expr.EXPR + fam_expr.ASSIGN + fam_ctrl.CTRL + fam_call.CALL + fam_call.PRESS + fam_data.PTR + fam_data.STRUCT + fam_data.INIT +
       fam_decl.SCOPE + fam_tags.TAGSF + fam_decl.LIT + fam_decl.PREC + fam_path.PATHP + fam_path.PATHS)

KEYWORDS = 'break case char continue default else enum for if int long return sizeof struct switch typedef unsigned void while'.split()
PUNCT = ('[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ##'.split())
IDENTS = ['a', 'b', 'x', 'y', 'f', 'g', 'main', 'S', 'T', 'p', 'struct_', 'put_i', '_', 'x0']
LITS = ['0', '1', '2', '42', '0x7f', '017', '4294967296', '18446744073709551615', '9223372036854775808', '1u', '2l', '3ul', '5ll', '7ull', "'a'", "'\\n'", "'\\0'", "'\\xff'",
        '"abc"', '""', '"\\n"', '"\\x41"', '08', '0x', '1lul', "''", "'ab", '"abc', '99999999999999999999999', '"a\nb"', "'\\q'", '@', '$', '`', '\\', '/* c */', '// d', '1.5', '0b1']

HUGE = ['2147483647', '2147483646', '2147483648', '2147483632', '2147483580', '1073741824', '536870912', '268435456', '46341', '65536', '65537', '4294967295', '4294967296', '4294967297', '9223372036854775807', '0x7fffffff', '0x80000000']

TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d\w*|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&^|]=|\S', re.S)


def tokens(text):
    return TOKEN.findall(text)


def valid_program(src, maxcases=3, prelude=False):
    out = []
    for i in range(src.int(1, maxcases)):
        c = ALL[src.draw(len(ALL))][1](src)
        out.append(c.at(i))
    pre = harness.PRELUDE if prelude or src.bool(3, 4) else ''
    return pre + '\n'.join(out) + '\n'


def soup_token(src):
    k = src.draw(10)
    if k < 3:
        return src.choice(PUNCT)
    if k < 5:
        return src.choice(KEYWORDS)
    if k < 8:
        return src.choice(IDENTS)
    return src.choice(LITS)


def fuzz_bytes(src):
    n = src.choice([0, 1, 2, 3, 8, 40, 200])
    k = src.draw(4)
    if k == 0:
        return bytes(src.draw(256) for _ in range(n))
    if k == 1:
        return bytes(src.choice(b'(){}[];,*&+-=<>!~^|%/?:."\'\\0123456789abcdefxul_ \n\t') for _ in range(n))
    if k == 2:
        b = bytes(src.choice(b'"\'\\x0123abcnqz\n\xff\x80 \0') for _ in range(n))
        return b'int main(void) { ' + b + b' }'
    b = bytes(src.choice(b'0123456789abcdefxXuUlL_.') for _ in range(n))
    return b'int x = ' + b + b';'


def fuzz_soup(src):
    n = src.choice([1, 2, 3, 5, 10, 25, 60])
    t = ' '.join(soup_token(src) for _ in range(n))
    k = src.draw(5)
    if k == 0:
        return t.encode('latin1')
    if k == 1:
        return ('int main(void) { ' + t + ' }').encode('latin1')
    if k == 2:
        return ('int a; char* p; struct S { int x; struct S* y; }; int f(int x) { return x; } int main(void) { struct S b; int x; ' + t + '; return 0; }').encode('latin1')
    if k == 3:
        return ('typedef int T; int x = ' + t + ';').encode('latin1')
    return ('int ' + t + ';').encode('latin1')


class Untyped:
    """syntactically plausible, semantically arbitrary programs"""

    def __init__(self, src):
        self.src = src

    def name(self):
        return self.src.choice(['a', 'b', 'c', 'f', 'g', 'S', 'T', 'x'])

    def spec(self, d):
        s = self.src
        k = s.draw(16)
        if k < 8:
            return s.choice(['int', 'char', 'long', 'unsigned', 'unsigned int', 'void', 'long long', 'unsigned long'])
        if k == 8:
            return 'struct ' + self.name()
        if k == 9 and d > 0:
            return 'struct %s { %s }' % (s.choice(['', self.name()]), ' '.join(self.spec(d - 1) + ' ' + ', '.join(self.declr(d - 1) for _ in range(s.int(1, 2))) + ';' for _ in range(s.int(0, 3))))
        if k == 10:
            return 'enum %s { %s }' % (s.choice(['', self.name()]), ', '.join(self.name() + s.choice(['', '', ' = ' + self.expr(1), ' = 3']) for _ in range(s.int(1, 3))))
        if k == 11:
            return 'enum ' + self.name()
        if k == 12:
            return self.name()
        if k == 13:
            return s.choice(['long int', 'int long', 'unsigned char', 'int int', 'long long long', 'unsigned void', 'char int', 'struct', 'enum', 'short', 'const int', 'static int'])
        return 'int'

    def declr(self, d, abstract=False):
        s = self.src
        k = s.draw(10)
        nm = '' if abstract else self.name()
        if k < 4 or d <= 0:
            return nm
        if k < 6:
            return '*' + self.declr(d - 1, abstract)
        if k < 8:
            return self.declr(d - 1, abstract) + '[' + s.choice(['3', '0', '', '1', self.expr(1), '100']) + ']'
        if k < 9:
            return self.declr(d - 1, abstract) + '(' + self.params(d - 1) + ')'
        return '(' + self.declr(d - 1, abstract) + ')'

    def params(self, d):
        s = self.src
        k = s.draw(6)
        if k == 0:
            return 'void'
        if k == 1:
            return ''
        return ', '.join(self.spec(0) + ' ' + self.declr(d, s.bool(1, 3)) for _ in range(s.int(1, 3))) + s.choice(['', '', '', ', ...'])

    def init(self, d):
        s = self.src
        if s.bool(1, 3) and d > 0:
            return '{' + ', '.join(self.init(d - 1) for _ in range(s.int(0, 4))) + s.choice(['', '', ',']) + '}'
        return self.expr(d)

    def decl(self, d):
        s = self.src
        td = 'typedef ' if s.bool(1, 6) else ''
        ds = []
        for _ in range(s.choice([0, 1, 1, 1, 2])):
            x = self.declr(d)
            if s.bool(1, 3):
                x += ' = ' + self.init(2)
            ds.append(x)
        return td + self.spec(d) + ' ' + ', '.join(ds) + ';'

    def expr(self, d):
        s = self.src
        k = s.draw(24) if d > 0 else s.draw(6)
        if k < 3:
            return self.name()
        if k < 6:
            return s.choice(LITS[:20])
        e = lambda: self.expr(d - 1)
        if k < 11:
            return '%s %s %s' % (e(), s.choice(['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||']), e())
        if k < 13:
            return '%s %s' % (s.choice(['-', '~', '!', '*', '&', '++', '--', '+', 'sizeof']), e())
        if k < 14:
            return e() + s.choice(['++', '--'])
        if k < 15:
            return '(%s %s)%s' % (self.spec(1), self.declr(1, True), e())
        if k < 16:
            return 'sizeof(%s %s)' % (self.spec(1), self.declr(1, True))
        if k < 17:
            return '%s[%s]' % (e(), e())
        if k < 18:
            return '%s(%s)' % (e(), ', '.join(e() for _ in range(s.int(0, 3))))
        if k < 19:
            return '%s%s%s' % (e(), s.choice(['.', '->']), self.name())
        if k < 20:
            return '%s ? %s : %s' % (e(), e(), e())
        if k < 22:
            return '%s %s %s' % (e(), s.choice(['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=']), e())
        return '(' + e() + ')'

    def stmt(self, d):
        s = self.src
        k = s.draw(20) if d > 0 else s.draw(9)
        if k < 4:
            return self.expr(2) + ';'
        if k < 6:
            return self.decl(2)
        if k < 7:
            return s.choice(['break;', 'continue;', 'return;', ';', 'case 1: ;', 'default: ;'])
        if k < 9:
            return 'return %s;' % self.expr(2)
        b = lambda: self.stmt(d - 1)
        if k < 11:
            return 'if (%s) %s' % (self.expr(2), b()) + (' else ' + b() if s.bool() else '')
        if k < 13:
            return 'while (%s) %s' % (self.expr(2), b())
        if k < 15:
            return 'for (%s %s; %s) %s' % (s.choice([';', self.expr(1) + ';', self.decl(1)]), s.choice(['', self.expr(1)]), s.choice(['', self.expr(1)]), b())
        if k < 17:
            return 'switch (%s) { %s }' % (self.expr(1), ' '.join(s.choice(['case %s: ' % s.choice(['1', '2', self.expr(1)]), 'default: ', '']) + b() for _ in range(s.int(0, 3))))
        return '{ ' + ' '.join(b() for _ in range(s.int(0, 4))) + ' }'

    def program(self):
        s = self.src
        out = []
        for _ in range(s.int(1, 4)):
            if s.bool():
                out.append(self.decl(3))
            else:
                out.append('%s %s(%s) { %s }' % (self.spec(1), s.choice(['', '*']) + self.name(), self.params(2), ' '.join(self.stmt(3) for _ in range(s.int(0, 5)))))
        return '\n'.join(out)


def fuzz_untyped(src):
    u = Untyped(src)
    k = src.draw(3)
    if k == 0:
        return u.program().encode('latin1')
    body = ' '.join(u.stmt(2) for _ in range(src.int(1, 4)))
    return ('struct S { int a; char b[3]; struct S* c; }; typedef int T; int a; char* b; long c[4]; struct S x; int f(int a, char* b) { return a; } void g(void) { ; }\n'
            'int main(void) { %s return 0; }\n' % body).encode('latin1')


def fuzz_mutant(src):
    """a valid program with a few token-level edits"""
    toks = tokens(valid_program(src, 2))
    for _ in range(src.choice([1, 1, 2, 3])):
        if not toks:
            break
        i = src.draw(len(toks))
        k = src.draw(9)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            j = src.draw(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 3:
            toks[i] = soup_token(src)
        elif k == 4:
            toks.insert(i, soup_token(src))
        elif k == 5:
            toks[i] = toks[src.draw(len(toks))]
        elif k == 6:
            del toks[i:i + src.int(1, 8)]
        elif k == 7:
            j = src.draw(len(toks))
            n = src.int(1, 10)
            toks[i:i] = toks[j:j + n]
        else:
            del toks[i:]
    return ' '.join(toks).encode('latin1')


def fuzz_bytemut(src):
    """a valid program with byte-level edits or truncation"""
    b = bytearray(valid_program(src, 2).encode('latin1'))
    for _ in range(src.choice([1, 1, 2, 5])):
        if not b:
            break
        i = src.draw(len(b))
        k = src.draw(5)
        if k == 0:
            b[i] = src.draw(256)
        elif k == 1:
            del b[i]
        elif k == 2:
            b.insert(i, src.choice(b'"\'\\(){}[];,*&=0x\n#'))
        elif k == 3:
            del b[i:]
        else:
            b[i] ^= 1 << src.draw(8)
    return bytes(b)


BINOPS = {'+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||'}
ASOPS = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^='}
TYPEKW = ['int', 'char', 'long', 'unsigned', 'void']


def fuzz_swap(src):
    """a valid program in which tokens are replaced by tokens of the same kind: mostly well-formed syntax, arbitrary types"""
    toks = tokens(valid_program(src, 2))
    skip = len(tokens(harness.PRELUDE)) if toks[:2] == ['void', 'put_c'] else 0
    ids = sorted({t for t in toks if re.match(r'[A-Za-z_]', t) and t not in KEYWORDS})
    for _ in range(src.choice([1, 2, 3, 6])):
        i = skip + src.draw(max(1, len(toks) - skip))
        if i >= len(toks):
            break
        t = toks[i]
        if t in BINOPS:
            toks[i] = src.choice(sorted(BINOPS))
        elif t in ASOPS:
            toks[i] = src.choice(sorted(ASOPS))
        elif t in TYPEKW:
            toks[i] = src.choice(TYPEKW)
        elif t in KEYWORDS or t in ';,':
            continue
        elif re.match(r'[A-Za-z_]', t):
            k = src.draw(5)
            if k < 3:
                toks[i] = src.choice(ids)
            else:
                toks.insert(i, src.choice(['*', '&', '-', '!', '~', '++', '--', 'sizeof', '( char )', '( int * )', '( void )', '( long )']))
        elif t[0].isdigit() and i + 1 < len(toks) and toks[i - 1] == '[' and toks[i + 1] == ']' and src.bool(1, 2):
            # sizes and indices at the limits of int, but no gigantic object with an initialiser
            j = i + 1
            while j < len(toks) and toks[j] not in (';', ',', '=', '{', '}', ')'):
                j += 1
            toks[i] = src.choice(HUGE if j < len(toks) and toks[j] in ';,)' else ['65536', '0', '1'])
        elif t[0].isdigit() and i + 1 < len(toks) and toks[i - 1] == '=' and toks[i + 1] in (',', '}') and src.bool(1, 2):
            toks[i] = src.choice(HUGE)
        elif t[0].isdigit() or t[0] in '"\'':
            toks[i] = src.choice(LITS[:20] + ids[:3])
        elif t in ('.', '->'):
            toks[i] = src.choice(['.', '->'])
    if any(toks[i] == '=' and toks[i + 1][0] in '{"' for i in range(len(toks) - 1)):
        # the initialised object may have a member or element of any of the sizes: at most one of them is large
        room = 1
        for i in range(1, len(toks) - 1):
            if toks[i] in HUGE and toks[i - 1] == '[' and toks[i + 1] == ']':
                toks[i] = '300' if room else '1'
                room = 0
    return ' '.join(toks).encode('latin1')


def fuzz_collapse(src):
    """a valid program whose identifiers are merged into a few names, with struct/enum/typedef swapped now and then"""
    toks = tokens(valid_program(src, 2))
    ids = sorted({t for t in toks if re.match(r'[A-Za-z_]', t) and t not in KEYWORDS})
    pool = src.sample(ids, min(len(ids), src.int(1, 6))) if ids else []
    share = src.int(1, 8)
    ren = {i: (src.choice(pool) if src.bool(share, 8) else i) for i in ids}
    each = src.bool(1, 4)
    out = []
    for t in toks:
        if t in ren:
            t = ren[t] if not each else (src.choice(pool) if src.bool(1, 12) else t)
        elif t in ('struct', 'enum') and src.bool(1, 12):
            t = src.choice(['struct', 'enum'])
        out.append(t)
    return ' '.join(out).encode('latin1')


FUZZ = [('collapse', fuzz_collapse), ('swap', fuzz_swap), ('bytes', fuzz_bytes), ('soup', fuzz_soup), ('untyped', fuzz_untyped), ('mutant', fuzz_mutant), ('bytemut', fuzz_bytemut)]
