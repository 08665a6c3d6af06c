"""Families: pointers and arrays; struct layout and access; initialisers."""
from core import *
from batch import Case
from fam_call import protos, cval


def vals(src, t, n):
    return [interesting(src, t) for _ in range(n)]


# ---------------------------------------------------------------- pointers and arrays

def ptr_walk(src):
    """random walk of a pointer in an array with a model of its position, so every access is in bounds"""
    t = src.choice(ITYPES)
    n = src.int(2, 8)
    T_, P = NAME[t], PUT[t]
    glob = src.bool()
    a = '@a' if glob else 'a'
    pre = '%s @a[%d];\n' % (T_, n) if glob else ''
    body = [] if glob else ['%s a[%d];' % (T_, n)]
    body += ['%s* p; %s* q; %s** r; int i; long d; char c;' % (T_, T_, T_)]
    for i, v in enumerate(vals(src, t, n)):
        body.append('%s[%d] = %s;' % (a, i, value_node(src, v).text()))
    pos = src.draw(n)
    body.append(src.choice(['p = %s + %d;' % (a, pos), 'p = &%s[%d];' % (a, pos), 'p = %d + %s;' % (pos, a), 'p = %s; p += %d;' % (a, pos)]))
    body.append('q = p; r = &p;')
    for _ in range(src.int(2, 10)):
        k = src.draw(18)
        x = value_node(src, interesting(src, t)).text()
        if k == 0 and pos + 1 < n:
            body.append('%s(*p++);' % P); pos += 1
        elif k == 1 and pos > 0:
            body.append('%s(*p--);' % P); pos -= 1
        elif k == 2 and pos + 1 < n:
            body.append('%s(*++p);' % P); pos += 1
        elif k == 3 and pos > 0:
            body.append('%s(*--p);' % P); pos -= 1
        elif k == 4:
            body.append('*p = %s;' % x)
        elif k == 5:
            body.append('%s((*p)%s);' % (P, src.choice(['++', '--'])))
        elif k == 6:
            body.append('%s(%s*p);' % (P, src.choice(['++', '--'])))
        elif k == 7:
            j = src.draw(n)
            d = j - pos
            it = src.choice(['i', 'c', 'l', 'll'])
            v = {'i': 'i', 'c': 'c', 'l': 'd', 'll': 'd'}[it]
            body.append('%s = %d; %s;' % (v, d, src.choice(['%s(p[%s])' % (P, v), '%s(*(p + %s))' % (P, v), '%s(*(%s + p))' % (P, v), '%s(%s[p])' % (P, v), 'p[%s] = %s' % (v, x)])))
        elif k == 8:
            j = src.draw(n)
            d = pos - j
            body.append('i = %d; %s(*(p - i));' % (d, P))
        elif k == 9:
            j = src.draw(n)
            d = j - pos
            it = src.choice(['i', 'd', 'c'])
            body.append('%s = %d; p += %s;' % (it, d, it)); pos = j
        elif k == 10:
            j = src.draw(n)
            d = pos - j
            it = src.choice(['i', 'd', 'c'])
            body.append('%s = %d; p -= %s;' % (it, d, it)); pos = j
        elif k == 11:
            body.append('put_l(p - %s); i = p - q; put_i(i);' % a)
        elif k == 12:
            op = src.choice(COMPARE)
            body.append('put_i(p %s q); put_i(q %s p);' % (op, op))
        elif k == 13:
            body.append('q = p;')
        elif k == 14:
            body.append('%s(**r); **r = %s; %s((*r)[%d]);' % (P, x, P, src.draw(n) - pos))
        elif k == 15:
            body.append('if (p %s %s + %d) tr(1, 0); else tr(2, 0);' % (src.choice(COMPARE), a, src.draw(n + 1)))
        elif k == 16:
            body.append('%s(*&*p); %s(*&%s[%d]);' % (P, P, a, src.draw(n)))
        elif k == 17 and pos + 1 < n:
            op = src.choice(['*p++ = %s;', '*++p = %s;'])
            body.append(op % x); pos += 1
    body.append('for (i = 0; i < %d; i++) %s(%s[i]);' % (n, P, a))
    body.append('put_l(p - %s); put_l(q - %s); put_i(sizeof(%s)); put_i(sizeof(*p)); put_i(sizeof(p));' % (a, a, a))
    text = '\n'.join(body)
    return Case(pre + 'void @main(void) {\n' + text + '\n}\n', need=4, feats=['ptr:' + t])


def ptr_multi(src):
    """multi-dimensional arrays, pointers to arrays, arrays of pointers"""
    t = src.choice(ITYPES)
    T_, P = NAME[t], PUT[t]
    dims = [src.int(1, 4) for _ in range(src.int(2, 3))]
    glob = src.bool()
    a = '@a' if glob else 'a'
    d = '%s %s%s;' % (T_, a, ''.join('[%d]' % x for x in dims))
    tot = 1
    for x in dims:
        tot *= x
    body = [] if glob else [d]
    inner = ''.join('[%d]' % x for x in dims[1:])
    body.append('%s (*p)%s; %s* f; int i; int j; int k;' % (T_, inner, T_))
    body.append('f = (%s*)%s; for (i = 0; i < %d; i++) f[i] = i * %d + %d;' % (T_, a, tot, src.int(1, 40), src.draw(9)))
    body.append('p = %s;' % a)

    def ix():
        return [src.draw(x) for x in dims]
    for _ in range(src.int(2, 7)):
        I = ix()
        k = src.draw(8)
        x = value_node(src, interesting(src, t)).text()
        if k == 0:
            e = a + ''.join('[%d]' % v for v in I)
        elif k == 1:
            e = 'p' + ''.join('[%d]' % v for v in I)
        elif k == 2:
            e = '(*(p + %d))' % I[0] + ''.join('[%d]' % v for v in I[1:])
        elif k == 3:
            e = a
            for v in I:
                e = '*(%s + %d)' % (e, v)
        elif k == 4:
            body.append('i = %d; j = %d; k = %d;' % (I[0], I[1], I[-1]))
            e = a + '[i][j]' + ('[k]' if len(dims) == 3 else '')
        elif k == 5:
            body.append('p = %s + %d;' % (a, I[0]))
            e = '(*p)' + ''.join('[%d]' % v for v in I[1:])
            body.append('%s(%s); p = %s; put_l(p - %s);' % (P, e, a, a))
        elif k == 6:
            e = '(*(%s + %d))' % (a, I[0]) + ''.join('[%d]' % v for v in I[1:])
        else:
            body.append('f = %s[%d]%s; %s(*f);' % (a, I[0], ''.join('[%d]' % v for v in I[1:-1]), P))
            e = 'f[%d]' % I[-1]
        if src.bool():
            body.append('%s = %s;' % (e, x))
        else:
            body.append('%s(%s);' % (P, e))
    body.append('for (i = 0; i < %d; i++) %s(((%s*)%s)[i]);' % (tot, P, T_, a))
    body.append('put_i(sizeof(%s)); put_i(sizeof(%s[0])); put_i(sizeof(*p));' % (a, a))
    return Case((d + '\n' if glob else '') + 'void @main(void) {\n' + '\n'.join(body) + '\n}\n', need=4, feats=['dims:%d' % len(dims)])


def ptr_algo(src):
    """small array programs with random parameters: sort, reverse, prefix sums, string routines, linked lists"""
    k = src.draw(8)
    n = src.int(1, 9)
    t = src.choice(ITYPES)
    T_, P = NAME[t], PUT[t]
    data = ' '.join('a[%d] = %s;' % (i, value_node(src, v).text()) for i, v in enumerate(vals(src, t, n)))
    dump = 'for (int z = 0; z < %d; z++) %s(a[z]);' % (n, P)
    if k == 0:
        pre = ('void @swap(%s* x, %s* y) { %s z; z = *x; *x = *y; *y = z; }\n'
               'void @sort(%s* a, int n) { for (int i = 0; i < n; i++) for (int j = 0; j + 1 < n - i; j++) if (a[j] %s a[j + 1]) @swap(%s); }\n') % (
            T_, T_, T_, T_, src.choice(['<', '>']), src.choice(['a + j, a + j + 1', '&a[j], &a[j + 1]', '&*(a + j), a + (j + 1)']))
        body = '%s a[%d]; %s @sort(a, %d); %s' % (T_, n, data, n, dump)
    elif k == 1:
        pre = 'void @rev(%s* b, %s* e) { while (b < e) { %s t; t = *b; *b++ = *e; *e-- = t; } }\n' % (T_, T_, T_)
        body = '%s a[%d]; %s @rev(a, a + %d); %s' % (T_, n, data, n - 1, dump)
    elif k == 2:
        pre = '%s @sum(%s* p, %s* e) { %s s; s = 0; for (; p != e; p++) s = s %s *p; return s; }\n' % (T_, T_, T_, T_, src.choice(['+', '^', '-']))
        body = '%s a[%d]; %s %s(@sum(a, a + %d)); %s(@sum(&a[%d], a + %d));' % (T_, n, data, P, n, P, src.draw(n), n)
    elif k == 3:
        s = ''.join(src.choice('abcXYZ 09_') for _ in range(src.int(0, 12)))
        pre = ('int @len(char* s) { char* p; p = s; while (*p) p++; return p - s; }\n'
               'void @cpy(char* d, char* s) { while (*d++ = *s++) ; }\n'
               'int @cmp(char* a, char* b) { while (*a && *a == *b) { a++; b++; } return *a - *b; }\n')
        body = 'char b[20]; put_i(@len("%s")); @cpy(b, "%s"); put_s(b); put_i(@cmp(b, "%s"));' % (s, s, s[:src.draw(len(s) + 1)] + src.choice(['', 'a', 'z']))
    elif k == 4:
        pre = 'struct @N { %s v; struct @N* next; };\nstruct @N @pool[%d];\n' % (T_, n)
        pre += '%s @walk(struct @N* p, int k) { while (k-- > 0) p = p->next; return p->v; }\n' % T_
        perm = src.shuffle(range(n))
        body = ' '.join('@pool[%d].v = %s; @pool[%d].next = %s + %d;' % (i, value_node(src, v).text(), i, '@pool', perm[i]) for i, v in enumerate(vals(src, t, n)))
        body += ' for (int i = 0; i < %d; i++) %s(@walk(&@pool[%d], i));' % (n + 2, P, src.draw(n))
    elif k == 5:
        pre = 'struct @T { int k; struct @T* l; struct @T* r; int leaf; };\nstruct @T @n[%d]; int @used;\n' % (n + 1)
        pre += ('void @ins(struct @T* t, int k) { if (k < t->k) { if (t->leaf & 1) { @ins(t->l, k); return; } t->leaf |= 1; t->l = &@n[@used]; }\n'
                ' else { if (t->leaf & 2) { @ins(t->r, k); return; } t->leaf |= 2; t->r = &@n[@used]; }\n @n[@used].k = k; @n[@used].leaf = 0; @used++; }\n'
                'void @pr(struct @T* t) { if (t->leaf & 1) @pr(t->l); put_i(t->k); if (t->leaf & 2) @pr(t->r); }\n')
        body = '@used = 1; @n[0].k = %d; ' % src.draw(50) + ' '.join('@ins(@n, %d);' % src.draw(60) for _ in range(n)) + ' @pr(@n);'
    elif k == 6:
        w, h = src.int(1, 4), src.int(1, 4)
        pre = 'long @m[%d][%d]; long @b[%d][%d];\n' % (h, w, w, h)
        body = ('int i; int j; for (i = 0; i < %d; i++) for (j = 0; j < %d; j++) @m[i][j] = i * %d - j * %d; '
                'for (i = 0; i < %d; i++) for (j = 0; j < %d; j++) @b[i][j] = @m[j][i] + 1; '
                'for (i = 0; i < %d; i++) { long s; s = 0; for (j = 0; j < %d; j++) s += @m[i][j] * @b[j][i]; put_l(s); }') % (
            h, w, src.int(1, 99), src.int(1, 99), w, h, h, w)
    else:
        m = src.int(2, 60)
        pre = 'char @s[%d];\n' % (m + 1)
        body = 'int i; int j; int c; c = 0; for (i = 2; i <= %d; i++) { if (@s[i]) continue; c++; put_i(i); for (j = i + i; j <= %d; j += i) @s[j] = 1; } put_i(c);' % (m, m)
    return Case(pre + 'void @main(void) { ' + body + ' }\n', need=4, feats=['algo:%d' % k])


def ptr_cast(src):
    """the same bytes through pointers of different types; void* round trips; pointers as integers"""
    t1, t2 = src.choice(ITYPES), src.choice(ITYPES)
    n = src.int(1, 3)
    body = ['%s a[%d]; %s* p; void* v; char* c; int i; unsigned long u; long w;' % (NAME[t1], n * 2, NAME[t2])]
    body += ['a[%d] = %s;' % (i, value_node(src, x).text()) for i, x in enumerate(vals(src, t1, n * 2))]
    m = SIZE[t1] * n * 2 // SIZE[t2]
    if m:
        body.append('p = (%s*)a; for (i = 0; i < %d; i++) %s(p[i]);' % (NAME[t2], m, PUT[t2]))
        body.append('p[%d] = %s;' % (src.draw(m), value_node(src, interesting(src, t2)).text()))
    body.append('v = a; %s(*(%s*)v); c = (char*)v; put_mem(c, %d);' % (PUT[t1], NAME[t1], SIZE[t1] * n * 2))
    body.append('u = (unsigned long)&a[%d]; w = (long)a; put_l((long)u - w); put_i((%s*)u == a + %d);' % (n, NAME[t1], n))
    body.append('c = (char*)(a + 1) - (char*)a + (char*)a; put_i(c == (char*)&a[1]); put_l(c - (char*)a);')
    return Case('void @main(void) {\n' + '\n'.join(body) + '\n}\n', need=4)


# ---------------------------------------------------------------- structs

class SType:
    """random struct type; leaves() lists (path, integer type)"""

    def __init__(self, src, depth, name=None, counter=None):
        self.counter = counter if counter is not None else [0]
        self.counter[0] += 1
        self.id = self.counter[0]
        self.tag = '@S%d' % self.id
        self.members = []       # (name, kind, ...)
        self.defs = []
        n = src.choice([1, 2, 3, 4, 5, 7])
        for i in range(n):
            nm = 'm%d' % i
            k = src.draw(12)
            if k < 6 or depth == 0 and k >= 9:
                self.members.append((nm, 'i', src.choice(ITYPES)))
            elif k < 8:
                self.members.append((nm, 'arr', src.choice(ITYPES), [src.int(1, 5) for _ in range(src.weighted([(3, 1), (1, 2)]))]))
            elif k < 9:
                self.members.append((nm, 'ptr', src.choice(ITYPES)))
            else:
                s = SType(src, depth - 1, counter=self.counter)
                dims = [src.int(1, 3)] if src.bool(1, 3) else []
                inline = src.bool(1, 3)
                self.members.append((nm, 'st', s, dims, inline))

    def define(self, tagged=True):
        """text of all definitions, innermost first"""
        out = ''
        for m in self.members:
            if m[1] == 'st' and not m[4]:
                out += m[2].define()
        return out + 'struct %s %s;\n' % (self.tag, self.braces())

    def braces(self):
        ms = []
        for m in self.members:
            if m[1] == 'i':
                ms.append('%s %s;' % (NAME[m[2]], m[0]))
            elif m[1] == 'arr':
                ms.append('%s %s%s;' % (NAME[m[2]], m[0], ''.join('[%d]' % d for d in m[3])))
            elif m[1] == 'ptr':
                ms.append('%s* %s;' % (NAME[m[2]], m[0]))
            else:
                if m[4]:
                    # nested members of inline structs may need definitions of their own: they are emitted inline too
                    ms.append('struct %s %s%s;' % (m[2].inline_braces(), m[0], ''.join('[%d]' % d for d in m[3])))
                else:
                    ms.append('struct %s %s%s;' % (m[2].tag, m[0], ''.join('[%d]' % d for d in m[3])))
        return '{ ' + ' '.join(ms) + ' }'

    def inline_braces(self):
        for i, m in enumerate(self.members):
            if m[1] == 'st' and not m[4]:
                self.members[i] = m[:4] + (True,)
        return self.braces()

    def leaves(self):
        out = []
        for m in self.members:
            if m[1] == 'i':
                out.append((m[0], m[2]))
            elif m[1] == 'arr':
                for ix in indices(m[3]):
                    out.append((m[0] + ix, m[2]))
            elif m[1] == 'st':
                for ix in indices(m[3]):
                    for p, t in m[2].leaves():
                        out.append((m[0] + ix + '.' + p, t))
        return out


def indices(dims):
    r = ['']
    for d in dims:
        r = [p + '[%d]' % i for p in r for i in range(d)]
    return r


def st_layout(src):
    """sizes, member offsets and arrays of structs agree with gcc: objects filled on one side are read on the other"""
    s = SType(src, src.int(0, 2))
    d = s.define()
    n = src.int(1, 3)
    lv = s.leaves()
    if len(lv) > 40:
        lv = src.sample(lv, 40)
    glob = src.bool()
    o = '@o' if glob else 'o'
    which = src.draw(n)
    fill = ' '.join('p->%s = (%s)%s;' % (p, NAME[t], cval(interesting(src, t))) for p, t in lv)
    show = ' '.join('%s(p->%s);' % (PUT[t], p) for p, t in lv)
    extra = protos() + d + 'void @fill(struct %s* p) { %s }\nvoid @show(struct %s* p) { %s }\nvoid @size(void) { put_i(sizeof(struct %s)); put_i(_Alignof(struct %s) > 0); }\n' % (
        s.tag, fill, s.tag, show, s.tag, s.tag)
    body = [] if glob else ['struct %s o[%d];' % (s.tag, n)]
    body.append('struct %s* p; put_i(sizeof(struct %s)); @size(); put_i(sizeof(%s));' % (s.tag, s.tag, o))
    for i in range(n):
        body.append('@fill(&%s[%d]);' % (o, i))
    body.append('p = %s + %d;' % (o, which))
    acc = []
    for p, t in lv:
        k = src.draw(4)
        acc.append((['%s[%d].%s' % (o, which, p), 'p->%s' % p, '(*p).%s' % p, '(%s + %d)->%s' % (o, which, p)][k], t))
    body += ['%s(%s);' % (PUT[t], e) for e, t in acc]
    for e, t in src.sample(acc, src.int(0, len(acc))):
        k = src.draw(4)
        v = value_node(src, interesting(src, t)).text()
        body.append(['%s = %s;' % (e, v), '%s += %s;' % (e, v), '%s++;' % e, '%s = %s;' % (e, v)][k])
    body.append(' '.join('@show(%s + %d);' % (o, i) for i in range(n)))
    return Case(d + ('struct %s @o[%d];\n' % (s.tag, n) if glob else '') +
                'void @fill(struct %s* p);\nvoid @show(struct %s* p);\nvoid @size(void);\nvoid @main(void) {\n%s\n}\n' % (s.tag, s.tag, '\n'.join(body)),
                extra=extra, need=4, feats=['leaves:%d' % min(len(lv), 40)])


def st_canary(src):
    """structs between other objects: writing one member changes neither other members nor the neighbours"""
    s = SType(src, 1)
    lv = s.leaves()
    if not lv:
        return Case('void @main(void) { put_i(1); }', nontrivial=False)
    if len(lv) > 30:
        lv = lv[:30]
    glob = src.bool()
    g = '@' if glob else ''
    names = [g + 'a', g + 'b']
    decl = 'long %sx; struct %s %sa; char %sy[3]; struct %s %sb; int %sz;' % (g, s.tag, g, g, s.tag, g, g)
    body = [] if glob else [decl]
    body.append('%sx = 0x1122334455667788; %sy[0] = 1; %sy[1] = 2; %sy[2] = 3; %sz = 77;' % (g, g, g, g, g))
    for nm in names:
        body += ['%s.%s = %s;' % (nm, p, value_node(src, interesting(src, t)).text()) for p, t in lv]
    dump = 'put_l(%sx); put_c(%sy[0]); put_c(%sy[1]); put_c(%sy[2]); put_i(%sz);' % (g, g, g, g, g)
    for nm in names:
        dump += ' ' + ' '.join('%s(%s.%s);' % (PUT[t], nm, p) for p, t in lv)
    for _ in range(src.int(1, 3)):
        p, t = src.choice(lv)
        nm = src.choice(names)
        body.append('%s.%s %s %s;' % (nm, p, src.choice(['=', '+=', '^=']), value_node(src, interesting(src, t)).text()))
        body.append(dump)
    return Case(s.define() + (decl + '\n' if glob else '') + 'void @main(void) {\n%s\n}\n' % '\n'.join(body), need=4)


def st_ptrs(src):
    """pointer members, chains of -> and ., structs through functions and typedefs, self-referential types"""
    t = src.choice(ITYPES)
    T_, P = NAME[t], PUT[t]
    td = src.bool()
    pre = 'struct @N { char tag; %s v; struct @N* next; %s* p; struct { %s w; struct @N* up; } in; };\n' % (T_, T_, T_)
    nm = 'struct @N'
    if td:
        pre += 'typedef struct @N @T;\ntypedef @T* @PT;\n'
        nm = '@T'
    n = src.int(2, 4)
    pre += '%s @g[%d];\n' % (nm, n)
    pre += '%s* @step(%s* x) { x->tag++; return x->next; }\n' % (nm, nm)
    body = ['%s* q; %s loc;' % (nm, nm)]
    for i in range(n):
        body.append('@g[%d].tag = %d; @g[%d].v = %s; @g[%d].next = &@g[%d]; @g[%d].p = @vp; @g[%d].in.up = @g + %d; @g[%d].in.w = %s;' % (
            i, i, i, value_node(src, interesting(src, t)).text(), i, src.draw(n), i, i, src.draw(n), i, value_node(src, interesting(src, t)).text()))
    pre += '%s @vv;\n%s* @vp;\n' % (T_, T_)
    body.insert(1, '@vv = %s; @vp = &@vv;' % value_node(src, interesting(src, t)).text())
    body.append('q = &@g[%d];' % src.draw(n))
    for _ in range(src.int(2, 7)):
        ch = 'q'
        for _ in range(src.int(0, 4)):
            k = src.draw(4)
            ch = [ch + '->next', ch + '->in.up', '(*%s).next' % ch, '@step(%s)' % ch][k]
        m = src.draw(6)
        x = value_node(src, interesting(src, t)).text()
        body.append(['%s(%s->v);' % (P, ch), 'put_i(%s->tag);' % ch, '*%s->p = %s; %s(@vv);' % (ch, x, P), '%s(%s->in.w);' % (P, ch), '%s->in.w = %s;' % (ch, x), 'q = %s;' % ch][m])
    body.append(' '.join('put_c(@g[%d].tag); %s(@g[%d].v); %s(@g[%d].in.w);' % (i, P, i, P, i) for i in range(n)))
    body.append('put_l(q - @g);')
    return Case(pre + 'void @main(void) {\n%s\n}\n' % '\n'.join(body), need=4)


def st_wide(src):
    """members behind big array members: offsets around and beyond 127, 255, 32767, 65535; read, written and measured by name, arrow, subscript"""
    glob = src.bool()
    ms, tot = [], 0
    n = src.int(2, 5)
    for i in range(n):
        t = src.choice(ITYPES)
        if src.bool(1, 2) and tot < 200000:
            c = src.choice([120, 126, 127, 128, 129, 255, 256, 257, 32760, 32767, 32768, 32769, 40000, 65528, 65535, 65536, 65537, 100000]) // (SIZE[t] if src.bool() else 1)
            c = max(c, 1)
            if c * SIZE[t] > 150000:
                c //= SIZE[t]
            tot += c * SIZE[t]
            ms.append((t, 'm%d' % i, c))
        else:
            ms.append((t, 'm%d' % i, 0))
    ms.append((src.choice(ITYPES), 'z', 0))
    inner = src.bool(1, 3)
    d = 'struct @W { %s };\n' % ' '.join('%s %s%s;' % (NAME[t], m, '[%d]' % c if c else '') for t, m, c in ms)
    path = ''
    if inner:
        d += 'struct @V { char h[%d]; struct @W in; int e; };\n' % src.choice([3, 130, 300, 33000])
        path = 'in.'
    tag = '@V' if inner else '@W'
    cnt = src.int(1, 3)
    body = ['struct %s* p; int i;' % tag]
    o = '@o' if glob else 'o'
    decl = 'struct %s %s[%d];' % (tag, o, cnt)
    if not glob:
        body.insert(0, decl)
    body.append('put_i((int)sizeof(struct %s)); p = %s + %d;' % (tag, o, src.draw(cnt)))
    els = []
    for t, m, c in ms:
        if c:
            for j in sorted({0, c - 1, src.draw(c)}):
                els.append((t, path + m + '[%d]' % j))
        else:
            els.append((t, path + m))
    for t, e in els:
        body.append('put_l((char*)&p->%s - (char*)p);' % e if src.bool() else 'put_l((char*)&(*p).%s - (char*)%s);' % (e, o))
    show = ' '.join('%s(%s%s);' % (PUT[t], src.choice(['p->', '(*p).', 'p[0].']), e) for t, e in els)
    for t, e in els:
        v = value_node(src, interesting(src, t)).text()
        body.append('%s%s = %s;' % (src.choice(['p->', '(*p).', 'p[0].']), e, v))
    body.append(show)
    for t, e in src.sample(els, src.int(1, min(4, len(els)))):
        v = value_node(src, interesting(src, t)).text()
        body.append(src.choice(['p->%s += %s;', 'p->%s = %s;', 'p->%s ^= %s;']) % (e, v))
        if src.bool(1, 3):
            body.append('p->%s++;' % e)
    body.append(show)
    ex = protos() + d + 'void @show(struct %s* p) { %s }\n' % (tag, ' '.join('%s(p->%s);' % (PUT[t], e) for t, e in els))
    body.append('@show(p);')
    return Case(d + 'void @show(struct %s* p);\n' % tag + (decl + '\n' if glob else '') + 'void @main(void) {\n%s\n}\n' % '\n'.join(body), extra=ex, need=4)


# ---------------------------------------------------------------- initialisers

def ini_value(src, t, glob, env=None):
    v = interesting(src, t)
    if glob:
        if src.bool(1, 4):
            # casts of constants: each conversion of the chain has its own effect
            e = char_literal(src) if src.bool(1, 4) else int_literal(src, abs(interesting(src, src.choice(ITYPES))))
            for _ in range(src.int(1, 3)):
                e = cast('char*' if src.bool(1, 12) and SIZE.get(e.typ) == 8 else NAME[src.choice(ITYPES)], e.typ, e)
            tt = src.choice(ITYPES)
            return cast(NAME[tt], tt, e).text()
        return int_literal(src, abs(v) & (2 ** (8 * SIZE[t]) - 1)).text() if src.bool(3, 4) else char_literal(src).text()
    if env is not None and src.bool(1, 3):
        return _nocomma(ExprGen(src, env, max_need=3).expr(1))
    return value_node(src, v).text()


def _nocomma(e):
    return e.text() if e.prec >= P_ASSIGN else '(' + e.text() + ')'


STRCH = 'abcdefghijXYZ0123456789 !#%&*+,-./:;<=>?@[]^_{|}~'.replace('@', '')


def str_body(src, n):
    out = []
    for _ in range(n):
        k = src.draw(10)
        if k == 0:
            out.append(src.choice(['\\n', '\\t', '\\\\', '\\"', "\\'", '\\a', '\\b', '\\f', '\\r', '\\v', '\\?', '\\0', '\\7', '\\x1', '\\177', '\\xfe']))
        else:
            out.append(src.choice(STRCH))
    # an escape of variable length must not swallow the next character
    r = ''
    for i, x in enumerate(out):
        r += x
        if x[0] == '\\' and (x[1] == 'x' or x[1].isdigit()) and i + 1 < len(out) and out[i + 1][0] in '0123456789abcdefABCDEF':
            out[i + 1] = 'z'
    return r


def ini_list(src, dims, t, glob, env=None, trailing=True):
    n = dims[0]
    cnt = src.choice([n, n, src.int(1, n)])
    if t == 'c' and len(dims) == 1 and src.bool(1, 3):
        s = '"' + str_body(src, src.int(0, n - 1)) + '"'
        return '{' + s + '}'
    items = []
    for _ in range(cnt):
        items.append(ini_list(src, dims[1:], t, glob, env) if len(dims) > 1 else ini_value(src, t, glob, env))
    return '{' + ', '.join(items) + (',' if trailing and src.bool(1, 6) else '') + '}'


def ini_arr(src):
    """array initialisers: partial lists, nested lists, strings; rest zero, neighbours untouched, dirty stack below"""
    glob = src.bool()
    g = '@' if glob else ''
    env = None
    decl, dump = [], []
    if not glob:
        env = Env(src, n=2, kinds=['local', 'param'])
    for i in range(src.int(1, 4)):
        t = src.choice(ITYPES + ['c'])
        dims = [src.int(1, 6) for _ in range(src.weighted([(3, 1), (1, 2), (1, 3)]))]
        if len(dims) == 1 and src.bool(1, 5):
            dims = [src.int(7, 24)]
        nm = g + 'a%d' % i
        top = t == 'c' and len(dims) == 1 and src.bool(1, 3)
        ini = '"' + str_body(src, src.int(0, dims[0] - 1)) + '"' if top else ini_list(src, dims, t, glob, env)
        decl.append('%s %s%s = %s;' % (NAME[t], nm, ''.join('[%d]' % d for d in dims), ini))
        tot = 1
        for d in dims:
            tot *= d
        dump.append('for (int i = 0; i < %d; i++) %s(((%s*)%s)[i]);' % (tot, PUT[t], NAME[t], nm))
        dump.append('put_i(sizeof(%s));' % nm)
        if src.bool(1, 2):
            tt = src.choice(ITYPES)
            v = int_literal(src, src.draw(100), plain=True).text()
            decl.append('%s %sn%d = %s;' % (NAME[tt], g, i, v))
            dump.append('%s(%sn%d);' % (PUT[tt], g, i))
    if glob:
        return Case('\n'.join(decl) + '\nvoid @main(void) {\n%s\n}\n' % '\n'.join(dump), need=3, feats=['init:global'])
    return Case(env.wrap('\n'.join(decl + dump)), need=4, feats=['init:local'])


def ini_struct_list(src, s, glob, env):
    ms = s.members
    cnt = src.choice([len(ms), len(ms), src.int(1, len(ms))])
    out = []
    for m in ms[:cnt]:
        if m[1] == 'i':
            out.append(ini_value(src, m[2], glob, env))
        elif m[1] == 'arr':
            out.append(ini_list(src, m[3], m[2], glob, env))
        elif m[1] == 'ptr':
            break
        else:
            def nest(dims):
                if not dims:
                    return ini_struct_list(src, m[2], glob, env)
                k = src.int(1, dims[0])
                return '{' + ', '.join(nest(dims[1:]) for _ in range(k)) + '}'
            x = nest(m[3])
            if '{}' in x:
                break
            out.append(x)
    return '{' + ', '.join(out) + '}'


def ini_struct(src):
    """struct and array-of-struct initialisers, nested and partial"""
    s = SType(src, src.int(0, 2))
    glob = src.bool()
    g = '@' if glob else ''
    d = s.define()
    env = None if glob else Env(src, n=2, kinds=['local', 'param'])
    n = src.int(1, 3)
    arr = src.bool()
    if arr:
        k = src.int(1, n)
        items = [ini_struct_list(src, s, glob, env) for _ in range(k)]
        ini = '{' + ', '.join(items) + '}'
    else:
        ini = ini_struct_list(src, s, glob, env)
    if '{}' in ini:
        return Case(d + 'void @main(void) { put_i(sizeof(struct %s)); }\n' % s.tag, nontrivial=False)
    decl = ['long %sx = 12345678;' % g, 'struct %s %ss%s = %s;' % (s.tag, g, '[%d]' % n if arr else '', ini), 'long %sy = 87654321;' % g]
    lv = [(p, t) for p, t in s.leaves()][:40]
    dump = ['put_l(%sx);' % g]
    for i in range(n if arr else 1):
        o = g + 's' + ('[%d]' % i if arr else '')
        dump += ['%s(%s.%s);' % (PUT[t], o, p) for p, t in lv]
    dump.append('put_l(%sy);' % g)
    if glob:
        return Case(d + '\n'.join(decl) + '\nvoid @main(void) {\n%s\n}\n' % '\n'.join(dump), need=3, feats=['sinit:global'])
    return Case(d + env.wrap('\n'.join(decl + dump)), need=4, feats=['sinit:local'])


def ini_scalar(src):
    """scalar initialisers incl. pointers, several declarators per declaration, re-initialisation on every entry of a block"""
    env = Env(src, n=2, kinds=['local', 'global', 'param'])
    body = []
    k = 0
    for _ in range(src.int(1, 4)):
        t = src.choice(ITYPES)
        ds, after = [], []
        for _j in range(src.int(1, 3)):
            k += 1
            m = src.draw(4)
            if m < 2:
                e = ExprGen(src, env, max_need=3, calls=src.bool(1, 4)).expr(2)
                ds.append('y%d = %s' % (k, _nocomma(e)))
                after.append('%s(y%d);' % (PUT[t], k))
            elif m == 2:
                ds.append('z%d[%d] = {%s}' % (k, 3, ini_value(src, t, False, env)))
                after.append('%s(z%d[0]); %s(z%d[2]);' % (PUT[t], k, PUT[t], k))
            else:
                ds.append('w%d = %s, *p%d = &w%d' % (k, ini_value(src, t, False, None), k, k))
                after.append('%s(*p%d);' % (PUT[t], k))
        body.append('%s %s;' % (NAME[t], ', '.join(ds)))
        body += after
    rep = src.int(1, 3)
    # a block entered several times initialises its objects every time
    t = src.choice(ITYPES)
    n = src.int(1, 5)
    body.append('for (int i = 0; i < %d; i++) { %s q[%d] = {%s}; %s r = %s; q[%d] += i; r ^= i; for (int j = 0; j < %d; j++) %s(q[j]); %s(r); }' % (
        rep, NAME[t], n, ini_value(src, t, False, None), NAME[t], value_node(src, interesting(src, t)).text(), src.draw(n), n, PUT[t], PUT[t]))
    return Case(env.wrap('\n'.join(body)), need=4)


def ini_zero(src):
    """file-scope objects without initialiser are zero"""
    s = SType(src, 1)
    d = s.define()
    t = src.choice(ITYPES)
    n = src.int(1, 40)
    lv = s.leaves()[:30]
    pre = '%s @a[%d];\n%sstruct %s @s[2];\n%s* @p;\nlong @l;\nchar @c;\n' % (NAME[t], n, d, s.tag, NAME[t])
    body = 'for (int i = 0; i < %d; i++) %s(@a[i]); put_l(@l); put_c(@c); put_i(!@p);' % (n, PUT[t])
    body += ' '.join('%s(@s[%d].%s);' % (PUT[tt], i, p) for i in range(2) for p, tt in lv)
    body += ' put_mem((char*)@s, %d);' % 8
    return Case(pre + 'void @main(void) { %s }\n' % body, need=3)


def ptr_huge(src):
    """objects of several gigabytes: offsets that do not fit in 32 bits, reached by indices of 64 bits"""
    t = src.choice(ITYPES)
    T_, P = NAME[t], PUT[t]
    k = src.draw(3)
    pre = ''
    if k == 0:
        esz, et, acc = SIZE[t], T_, ''
    elif k == 1:
        n = src.choice([3, 7, 16, 100, 4096, 1 << 20])
        pre += 'struct @S { %s v[%d]; };\n' % (T_, n)
        esz, et, acc = SIZE[t] * n, 'struct @S', '.v[%d]' % src.choice([0, n - 1, src.draw(n)])
    else:
        n = src.choice([2, 5, 1000, 1 << 16])
        pre += 'struct @S { char c; %s v; char d[%d]; };\n' % (T_, n)
        al = SIZE[t]
        esz, et, acc = -(-(2 * al + n) // al) * al, 'struct @S', '.v'
    total = 12 << 30
    cnt = total // esz - 2
    it = src.choice(['l', 'll', 'ul', 'ull'])
    body = ['%s* p; %s* q; %s i; %s x; long d;' % (et, et, NAME[it], T_), 'p = (%s*)big_area();' % et]
    spots = []
    for _ in range(src.int(2, 5)):
        j = src.choice([(1 << src.int(30, 33)) // esz, src.draw(cnt), cnt - 1 - src.draw(3), (2 ** 31 - 1) // esz, (2 ** 32) // esz + 1])
        j = max(0, min(j, cnt - 1))
        v = value_node(src, interesting(src, t)).text()
        spots.append(j)
        suf = src.choice(['L', 'l', 'LL', 'UL'])
        form = src.draw(5)
        lv = ['p[%d%s]' % (j, suf), 'p[i]', '(*(p + i))', '(*(i + p))', '(*q)'][form]
        body.append('i = %d%s; q = p + i; %s%s = %s;' % (j, 'L', lv, acc, v))
        body.append('put_l(q - p); put_i(q == &p[%dL]); d = (char*)q - (char*)p; put_l(d);' % j)
    last = None
    for j in spots:
        body.append('i = %d; %s(p[i]%s); %s((*(p + i))%s);' % (j, P, acc, P, acc))
        if last is not None:
            body.append('q = &p[%dL]; d = %dL; %s(%s%s);' % (last, j - last if j >= last else last - j, P, '(*(q + d))' if j >= last else src.choice(['(*(q - d))', 'q[-d]']), acc))
            body.append('q = &p[%dL]; d = %dL; q %s d; put_i(q == p + %dL); put_i(q < p + %dL); put_i(p + %dL < q);' % (last, abs(j - last), '+=' if j >= last else '-=', j, j, j))
        last = j
    # neighbours of the elements keep their contents
    for j in spots[:3]:
        body.append('%s(p[%dL]%s);' % (P, j + 1, acc))
    return Case(pre + 'void @main(void) {\n%s\n}\n' % '\n'.join(body), need=4)


PTR = [('ptr_walk', ptr_walk), ('ptr_multi', ptr_multi), ('ptr_algo', ptr_algo), ('ptr_cast', ptr_cast), ('ptr_huge', ptr_huge)]
STRUCT = [('st_layout', st_layout), ('st_wide', st_wide), ('st_canary', st_canary), ('st_ptrs', st_ptrs)]
from fam_init import ini_elide

INIT = [('ini_elide', ini_elide), ('ini_arr', ini_arr), ('ini_struct', ini_struct), ('ini_scalar', ini_scalar), ('ini_zero', ini_zero)]
