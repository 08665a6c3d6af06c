"""Family: struct and enum tags reused in nested scopes, with objects of the outer types still in use."""
from core import *
from batch import Case

TAGS = ['S', 'T', 'U', 'a', 'x']


class Info:
    def __init__(self, ms):
        self.ms = ms            # [(name, 'i', itype) | (name, 'p', Info)]


class Gen:
    def __init__(self, src):
        self.src = src
        self.n = 0
        self.funs = []

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def tag_of(self, scopes, info, pre):
        """the spelling of a type that denotes info here, or None if it is hidden"""
        out = []
        seen = set()
        for sc in reversed(scopes):
            for nm, i in sc['tags'].items():
                if nm not in seen:
                    seen.add(nm)
                    if i is info:
                        out.append('struct ' + pre + nm)
        for sc in scopes:
            for nm, i in sc['tds'].items():
                if i is info:
                    out.append(nm)
        return self.src.choice(out) if out else None

    def visible(self, scopes):
        seen = {}
        for sc in reversed(scopes):
            for nm, i in sc['tags'].items():
                seen.setdefault(nm, i)
        return [i for i in seen.values() if i != 'enum'] + [i for sc in scopes for i in sc['tds'].values()]

    def define(self, scopes, out, pre):
        s = self.src
        free = [t for t in TAGS if t not in scopes[-1]['tags']]
        if not free:
            return
        tag = s.choice(free)
        if s.bool(1, 6):
            e = [self.fresh(pre + 'E') for _ in range(s.int(1, 3))]
            out.append('enum %s { %s };' % (pre + tag, ', '.join(e)))
            scopes[-1]['tags'][tag] = 'enum'
            out.append(('enum', e[-1], len(e) - 1, pre + tag))
            return
        info = Info([])
        names = s.shuffle(['a', 'b', 'c', 'd', 'S', 'T'])
        ms = []
        for nm in names[:s.int(1, 5)]:
            k = s.draw(6)
            if k == 4:
                info.ms.append((nm, 'p', info))
                ms.append('struct %s* %s;' % (pre + tag, nm))
            elif k == 5 and self.visible(scopes):
                i2 = s.choice(self.visible(scopes))
                # the new tag hides an outer one from its own beginning on
                sc2 = scopes[:-1] + [{'tags': dict(scopes[-1]['tags'], **{tag: info}), 'tds': scopes[-1]['tds'], 'vars': []}]
                t = self.tag_of(sc2, i2, pre)
                if t is None:
                    continue
                if s.bool():
                    info.ms.append((nm, 'p', i2))
                    ms.append('%s* %s;' % (t, nm))
                else:
                    info.ms.append((nm, 's', i2))
                    ms.append('%s %s;' % (t, nm))
            else:
                t = s.choice(ITYPES)
                info.ms.append((nm, 'i', t))
                ms.append('%s %s;' % (NAME[t], nm))
        if not ms:
            info.ms.append(('a', 'i', 'i'))
            ms.append('int a;')
        v = ''
        if s.bool(1, 3):
            v = self.fresh('v')
        out.append('struct %s { %s }%s;' % (pre + tag, ' '.join(ms), ' ' + pre + v if v else ''))
        scopes[-1]['tags'][tag] = info
        if v:
            scopes[-1]['vars'].append((pre + v, info))

    def var(self, scopes, out, pre):
        vis = self.visible(scopes)
        if not vis:
            return
        i = self.src.choice(vis)
        t = self.tag_of(scopes, i, pre or '@' if False else self.pre_for(scopes, i, pre))
        if t is None:
            return
        v = self.fresh(pre + 'v')
        out.append('%s %s;' % (t, v))
        scopes[-1]['vars'].append((v, i))

    def pre_for(self, scopes, i, pre):
        return pre

    def typedef(self, scopes, out, pre):
        vis = self.visible(scopes)
        if not vis:
            return
        i = self.src.choice(vis)
        t = self.tag_of(scopes, i, pre)
        if t is None:
            return
        nm = self.fresh(pre + 'D')
        out.append('typedef %s %s;' % (t, nm))
        scopes[-1]['tds'][nm] = i

    def use(self, scopes, out):
        s = self.src
        vs = [v for sc in scopes for v in sc['vars']]
        if not vs:
            return
        e, i = s.choice(vs)
        obj, hop = e, False
        for _ in range(4):
            nm, k, t = s.choice(i.ms)
            if k == 'i':
                e = self.member(e, nm)
                v = value_node(s, interesting(s, t)).text()
                out.append('%s = %s; %s(%s);' % (e, v, PUT[t], e))
                if s.bool():
                    out.append('put_l((char*)&%s - (char*)&%s);' % (e, obj))
                break
            if k == 's':
                e = self.member(e, nm)
                i = t
                out.append('put_i(sizeof(%s));' % e)
                continue
            tg = [x for x in vs if x[1] is t]
            e = self.member(e, nm)
            out.append('put_i(sizeof(*%s));' % e)
            if not tg or hop:
                break
            hop = True
            obj = s.choice(tg)[0]
            out.append('%s = &%s;' % (e, obj))
            e = s.choice(['(*%s)' % e, '%s[0]' % e, '(*(%s + 0))' % e, '(&%s[1])[-1]' % e])
            i = t
        v, i = s.choice(vs)
        out.append('put_i(sizeof(%s));' % v)

    def member(self, e, nm):
        return self.src.choice(['%s.%s' % (e, nm), '(&%s)->%s' % (e, nm)])

    def type_def(self, scopes):
        """a type definition to be written inside an expression -> (text, the scope it adds, statements that use it)"""
        sc = {'tags': {}, 'vars': [], 'tds': {}}
        out = []
        self.define(scopes + [sc], out, '')
        text = out[0][:out[0].rindex('}') + 1]
        sc['vars'] = []
        uses = []
        for x in out[1:]:
            uses.append('put_i(%s);' % x[1])
        for tag, i in sc['tags'].items():
            if i == 'enum':
                uses.append('put_i(sizeof(enum @%s));' % tag)
            else:
                uses.append('put_i(sizeof(struct @%s));' % tag)
        return text, sc, uses

    def inner(self, scopes, scs, uses, depth):
        return '{\n%s\n%s\n}' % ('\n'.join(uses), self.block(scopes + scs, depth - 1))

    def in_expression(self, scopes, depth):
        """a statement with types defined inside its expressions: each statement and each body is a scope"""
        s = self.src
        d, sc, us = self.type_def(scopes)
        d2, _, _ = self.type_def(scopes)
        q = self.fresh('q')
        k = s.draw(6)
        if k == 0:
            return 'if (sizeof(%s) > %s) %s else %s' % (d, s.choice(['0', '4000']), self.inner(scopes, [sc], us, depth), self.inner(scopes, [sc], us, depth))
        if k == 1:
            return '{ int %s; %s = 0; while (%s++ < %d && sizeof(%s)) %s }' % (q, q, q, s.int(1, 2), d, self.inner(scopes, [sc], us, depth))
        if k == 2:
            return 'switch (sizeof(%s) > 0) { case 1: %s }' % (d, self.inner(scopes, [sc], us, depth))
        if k == 3:
            clauses = ['%s = 0' % q, '%s < 2' % q, '%s++' % q]
            j = s.draw(3)
            clauses[j] = ['%s = (sizeof(%s) > 4000)' % (q, d), '%s < 1 + (sizeof(%s) > 0)' % (q, d), '%s += (sizeof(%s) > 0)' % (q, d)][j]
            return '{ int %s; for (%s; %s; %s) %s }' % (q, *clauses, self.inner(scopes, [sc], us, depth))
        if k == 4:
            return 'if (%s) put_i(sizeof(%s)); else put_i(sizeof(%s));' % (s.choice(['0', '1']), d, d2)
        return '{ int %s; for (%s = 0; %s < 2; %s++) put_i(sizeof(%s)); while (%s-- > 0) put_i(sizeof(%s)); }' % (q, q, q, q, d, q, d2)

    def block(self, scopes, depth, pre=''):
        s = self.src
        scopes = scopes + [{'tags': {}, 'vars': [], 'tds': {}}]
        out = []
        for _ in range(s.int(2, 9)):
            k = s.draw(11)
            if k < 2:
                self.define(scopes, out, '')
            elif k < 4:
                self.var(scopes, out, '')
            elif k < 5:
                self.typedef(scopes, out, '')
            elif k < 8 or depth <= 0:
                self.use(scopes, out)
            elif k == 10:
                if s.bool(1, 3):
                    d, sc, us = self.type_def(scopes)
                    if any(t in scopes[-1]['tags'] for t in sc['tags']):
                        continue
                    out.append('put_i(sizeof(%s));' % d)
                    scopes[-1]['tags'].update(sc['tags'])
                    out.extend(us)
                else:
                    out.append(self.in_expression(scopes, depth))
            elif k < 9:
                out.append('{\n' + self.block(scopes, depth - 1) + '\n}')
            else:
                out.append(s.choice(['if (1) {\n%s\n}', 'for (int i = 0; i < 1; i++) {\n%s\n}', 'switch (1) { case 1: {\n%s\n} }']) % self.block(scopes, depth - 1))
        self.use(scopes, out)
        return '\n'.join(self.flat(out))

    def flat(self, out):
        for x in out:
            if isinstance(x, tuple):
                nm = self.fresh('e')
                yield 'enum %s %s; %s = %s; put_i(%s);' % (x[3], nm, nm, x[1], nm)
            else:
                yield x


class GGen(Gen):
    """tags of the file scope carry the case prefix; inner scopes reuse the same spelling"""

    def tag_of(self, scopes, info, pre):
        return Gen.tag_of(self, scopes, info, '@')

    def define(self, scopes, out, pre):
        n = len(out)
        Gen.define(self, scopes, out, '@')
        if len(scopes) == 1:
            out[n:] = [x for x in out[n:] if not isinstance(x, tuple)]

    def var(self, scopes, out, pre):
        Gen.var(self, scopes, out, '@' if len(scopes) == 1 else '')

    def typedef(self, scopes, out, pre):
        Gen.typedef(self, scopes, out, '@' if len(scopes) == 1 else '')


def scope_tags(src):
    g = GGen(src)
    root = [{'tags': {}, 'vars': [], 'tds': {}}]
    top = []
    if src.bool(1, 4):
        # a pointer to a struct which is completed later
        i = Info([('a', 'i', src.choice(ITYPES)), ('b', 'i', src.choice(ITYPES)), ('c', 'i', src.choice(ITYPES))])
        top.append('struct @F { char c; struct @S* a; };')
        top.append('struct @S { %s };' % ' '.join('%s %s;' % (NAME[m[2]], m[0]) for m in i.ms))
        top.append('struct @F @vf;')
        root[0]['tags']['S'] = i
        root[0]['tags']['F'] = Info([('c', 'i', 'c'), ('a', 'p', i)])
        root[0]['vars'].append(('@vf', root[0]['tags']['F']))
        top.append('struct @S @vs; struct @S* @vp;')
        root[0]['vars'].append(('@vs', i))
    for _ in range(src.int(0, 5)):
        [g.define, g.var, g.typedef][src.draw(3)](root, top, '')
    fs = []
    if src.bool(1, 3) and root[0]['vars']:
        v, i = src.choice(root[0]['vars'])
        t = g.tag_of(root, i, '')
        if t:
            sc = root + [{'tags': {}, 'vars': [('(*p)', i)], 'tds': {}}]
            fs.append('void @fn(%s* p) {\n%s\n}\n' % (t, g.block(sc, 1)))
            fs.append('@fn(&%s);' % v)
    body = g.block(root, 2)
    return Case('\n'.join(top) + '\n' + (fs[0] if fs else '') + 'void @main(void) {\n%s\n%s\n}\n' % (fs[1] if fs else '', body), need=5,
                feats=['tags'])


TAGSF = [('scope_tags', scope_tags)]
