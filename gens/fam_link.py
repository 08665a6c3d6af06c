"""Families: objects made by umlcc linked with objects made by gcc and with other umlcc objects."""
import re

from core import *
from batch import Case
from fam_call import cval, protos
from fam_data import SType, ini_list, ini_struct_list


def gobj(src, i):
    """-> (definitions needed, declarator, initialiser or None, leaves [(path, type)])"""
    k = src.draw(6)
    nm = '@o%d' % i
    if k < 2:
        t = src.choice(ITYPES)
        ini = int_literal(src, abs(interesting(src, t)) & (2 ** (8 * SIZE[t]) - 1)).text() if src.bool() else None
        return '', '%s %s' % (NAME[t], nm), ini, [(nm, t)]
    if k < 4:
        t = src.choice(ITYPES)
        dims = [src.int(1, 6) for _ in range(src.weighted([(3, 1), (1, 2)]))]
        ini = ini_list(src, dims, t, True) if src.bool() else None
        lv = ['']
        for d in dims:
            lv = [x + '[%d]' % j for x in lv for j in range(d)]
        return '', '%s %s%s' % (NAME[t], nm, ''.join('[%d]' % d for d in dims)), ini, [(nm + x, t) for x in lv]
    if k < 5:
        t = src.choice(ITYPES)
        return '', '%s* %s' % (NAME[t], nm), None, [(nm, 'p')]
    s = SType(src, src.int(0, 1), counter=[10 * i])
    n = src.choice([0, 0, 2])
    ini = ini_struct_list(src, s, True, None) if n == 0 and src.bool() else None
    if ini and '{}' in ini:
        ini = None
    lv = []
    for j in range(n or 1):
        lv += [('%s%s.%s' % (nm, '[%d]' % j if n else '', p), t) for p, t in s.leaves()]
    return s.define(), 'struct %s %s%s' % (s.tag, nm, '[%d]' % n if n else ''), ini, lv[:24]


def link_data(src):
    """globals defined by umlcc are read, overwritten object by object and read again by gcc code"""
    objs = [gobj(src, i) for i in range(src.int(1, 6))]
    um = ''.join(o[0] for o in objs) + '\n'.join('%s%s;' % (o[1], ' = ' + o[2] if o[2] else '') for o in objs) + '\n'
    def dump(fn):
        out = []
        for o in objs:
            for p, t in o[3]:
                out.append('put_ul((unsigned long)%s);' % p if t == 'p' else '%s(%s);' % (PUT[t], p))
        return ' '.join(out)
    un = [o[1].split(' ')[-1].split('[')[0].lstrip('*') for o in objs]
    ext = protos() + ''.join(o[0] for o in objs) + '\n'.join('extern %s;' % o[1] for o in objs) + '\n'
    steps = []
    for j, i in enumerate(src.shuffle(range(len(objs)))):
        # every byte of the object belongs to it alone
        steps.append('{ unsigned char* b = (unsigned char*)&%s; for (unsigned k = 0; k < sizeof %s; k++) b[k] = (unsigned char)(k * 7 + %d); } @show();' % (un[i], un[i], 17 * j + 1))
    # the ABI's alignment, on which code made by other compilers relies (volatile: gcc must not assume it)
    al = ' '.join('{ volatile unsigned long a = (unsigned long)(void*)&%s; put_i(a %% %s == 0); }' % (
        u, '(sizeof %s >= 16 ? 16 : _Alignof(%s))' % (u, u) if '[' in o[1] else '_Alignof(%s)' % u) for u, o in zip(un, objs))
    ext += 'void @show(void);\nvoid @peek(void) { %s }\nvoid @poke(void) { %s }\n' % (dump(0) + ' ' + al, ' '.join(steps))
    um += 'void @peek(void);\nvoid @poke(void);\nvoid @show(void) { %s }\nvoid @main(void) { @peek(); @show(); @poke(); @peek(); }\n' % dump(1)
    return Case(um, extra=ext, need=3, feats=['objects:%d' % len(objs)])


def link_two(src):
    """two translation units compiled separately by umlcc, calling into each other"""
    n = src.int(1, 4)
    a, b, pa, pb = [], [], [], []
    fs = []
    for i in range(2 * n):
        ts = [src.choice(ITYPES) for _ in range(src.choice([0, 1, 2, 3, 5, 6, 7, 8]))]
        r = src.choice(ITYPES)
        fs.append((i, ts, r, src.bool()))
    sig = lambda f: '%s @f%d(%s)' % (NAME[f[2]], f[0], ', '.join('%s x%d' % (NAME[t], j) for j, t in enumerate(f[1])) or 'void')
    for f in fs:
        i, ts, r, second = f
        st = []
        # a static-like counter, a string, local labels: nothing of it may leak into the other unit
        st.append('@n%d++;' % i)
        st.append('put_s("unit %d");' % i)
        if src.bool():
            st.append('if (@n%d > 1) put_i(%d); else put_i(%d);' % (i, i, i + 100))
        if src.bool(1, 3):
            st.append('for (int k = 0; k < 2; k++) put_i(k + @n%d);' % i)
        if src.bool(1, 3):
            st.append('switch (@n%d) { case 1: put_i(1); break; default: put_i(2); }' % i)
        e = prim('@n%d' % i, 'i')
        for j, t in enumerate(ts):
            e = binary(src.choice(['+', '-', '^']), e, prim('x%d' % j, t))
        later = [g for g in fs if g[0] > i]
        if later and src.bool(2, 3):
            g = src.choice(later)
            st.append('%s(@f%d(%s));' % (PUT[g[2]], g[0], ', '.join(src.choice(['x%d' % j for j in range(len(ts))] + [str(src.draw(50))]) for _ in g[1])))
        body = 'int @n%d;\n%s { %s return %s; }' % (i, sig(f), ' '.join(st), e.text())
        (b if second else a).append((i, body))
    ua = ''.join(sig(f) + ';\n' for f in fs if f[3]) + '\n'.join(x for _, x in reversed(a)) + '\n'
    ub = ''.join(sig(f) + ';\n' for f in fs if not f[3]) + '\n'.join(x for _, x in reversed(b)) + '\n'
    calls = ' '.join('%s(@f%d(%s));' % (PUT[f[2]], f[0], ', '.join(value_node(src, interesting(src, t)).text() for t in f[1])) for f in src.sample(fs, min(3, len(fs))))
    ua += 'void @main(void) { %s %s }\n' % (calls, calls if src.bool() else '')
    return Case(ua, um2=ub, need=4, feats=['second unit: %d functions' % len(b)])


def link_share(src):
    """pointers to objects of one unit used by another unit and by gcc code"""
    t = src.choice(ITYPES)
    n = src.int(1, 6)
    vals = [value_node(src, interesting(src, t)).text() for _ in range(n)]
    T = NAME[t]
    ua = '%s @a[%d];\n%s* @get(int i) { return @a + i; }\nvoid @put(int i, %s v) { @a[i] = v; }\n' % (T, n, T, T)
    ua += '%s* @next(%s* p);\n%s @sum(%s* p, int n);\n%s @gsum(%s* p, int n);\nvoid @each(%s* p, int n, %s (*f)(%s));\n%s @dbl(%s x) { return x + x; }\n' % (T, T, T, T, T, T, T, T, T, T, T)
    ua += 'void @main(void) { %s for (int i = 0; i < %d; i++) %s(*@get(i)); %s(@sum(@a, %d)); %s(@gsum(@a, %d)); @each(@a, %d, @dbl); for (int i = 0; i < %d; i++) %s(@a[i]); %s* p; p = @a; %s %s(@sum(p, @a + %d - p)); }\n' % (
        ' '.join('@put(%d, %s);' % (i, v) for i, v in enumerate(vals)), n, PUT[t], PUT[t], n, PUT[t], n, n, n, PUT[t], T, 'p = @next(p);' if n > 1 else '', PUT[t], n)
    ub = '%s* @next(%s* p) { return p + 1; }\n%s @sum(%s* p, int n) { %s s; s = 0; for (int i = 0; i < n; i++) s += p[i]; return s; }\nvoid @each(%s* p, int n, %s (*f)(%s)) { while (n-- > 0) { *p = f(*p); p++; } }\n' % (T, T, T, T, T, T, T, T)
    ext = protos() + '%s @gsum(%s* p, int n) { %s s = 0; for (int i = 0; i < n; i++) s ^= p[i]; return s; }\n' % (T, T, T)
    return Case(ua, um2=ub, extra=ext, need=4, feats=['share:' + t])


def link_names(src):
    """file-scope names that mean something to the assembler; @{k} is the k-th such name of the case"""
    t = src.choice(ITYPES)
    v = abs(interesting(src, 'i')) & 0x7f
    forms = []
    forms.append('%s @{0} = %d;\nint @{1}(int x) { return x + @{0}; }\nvoid @main(void) { put_i(@{1}(3)); @{0} = 5; put_i(@{1}(4)); %s* p; p = &@{0}; *p = 7; %s(@{0}); }\n' % (NAME[t], v, NAME[t], PUT[t]))
    forms.append('int @{0}(int x) { if (x <= 0) return 1; return x * @{0}(x - 1); }\nint (*@{1})(int);\nvoid @main(void) { @{1} = @{0}; put_i(@{1}(5)); put_i((*@{1})(%d)); }\n' % src.draw(8))
    forms.append('struct @{2} { int @{0}; char @{1}; };\nstruct @{2} @{3}[2];\nvoid @main(void) { int @{0}; @{0} = %d; @{3}[1].@{0} = @{0}; @{3}[0].@{1} = 3; put_i(@{3}[1].@{0}); put_c(@{3}[0].@{1}); put_i(sizeof(@{3})); }\n' % src.draw(100))
    forms.append('char @{0}[8] = "%s";\nenum { @{1} = %d, @{2} };\nvoid @main(void) { put_s(@{0}); put_i(@{1} + @{2}); @{0}[0] = \'z\'; put_s(@{0}); put_s("@{3}"); }\n' % (src.choice(['abc', '', 'x y', '1234567']), src.draw(50)))
    return Case(src.choice(forms), need=3, feats=['names'])


EXT = re.compile(r'@[A-Za-z_]\w*')


def restyle(f):
    """the same units with their external names spelt in other shapes (leading underscores, capitals, long, one letter apart)"""
    def g(src):
        c = f(src)
        if src.bool(1, 3):
            return c
        texts = [x for x in (c.text, c.um2, c.extra) if x]
        ids = []
        for x in texts:
            for m in EXT.finditer(x):
                if m.group(0) not in ids and m.group(0) != '@main':
                    ids.append(m.group(0))
        long_ = 'n' * src.choice([1, 20, 60, 200])
        mp = {}
        for i, w in enumerate(ids):
            b = w[1:]
            mp[w] = src.choice(['_@' + b, '__@' + b, '_' + b.upper() + '_@', 'Z@' + b, 'z%d_@' % i, b + '_@', b.capitalize() + '@', '@' + b + '_', '@%d' % i, '@' + b.upper(), '@' + long_ + '%d' % i,
                                '_@_%d' % i, 'l_@' + b, 'L@' + b, 'main@%d' % i, 'str@' + b, 'func@' + b, 'global@' + b, '@' + b + 'local', 'a@a' + 'a' * i])
        if len(set(mp.values())) != len(mp):
            return c
        sub = lambda x: EXT.sub(lambda m: mp.get(m.group(0), m.group(0)), x) if x else x
        return Case(sub(c.text), um2=sub(c.um2), extra=sub(c.extra), need=c.need, feats=['restyled'])
    return g


LINK = [('link_data', restyle(link_data)), ('link_two', restyle(link_two)), ('link_share', restyle(link_share)), ('link_names', link_names)]
