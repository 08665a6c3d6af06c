"""P18: the maps, sets, vectors, pairs and scoped tables the compiler stands on, against plain Python models,
over random operation histories run under sanitizers."""
import os
import subprocess

import harness
import textcheck
from engine import Src, rng_for

PER = 40


def build():
    exe = os.path.join(harness.scratch(), 'containers')
    if os.path.exists(exe):
        return exe
    flags = ['-O1', '-g', *harness.SAN]
    objs = harness.build_objects('containers', flags, exclude_main=True)
    r = subprocess.run(['gcc', '-w', *flags, '-I', harness.REPO, os.path.join(harness.VERIF, 'lib', 'containers.c'), *objs, '-o', exe], capture_output=True)
    if r.returncode:
        raise harness.BuildError(r.stderr.decode(errors='replace')[-2000:])
    return exe


def history(src):
    """-> (kind, list of (operation line, check)); check is the expected answer or a predicate answer -> error text or None"""
    k = src.draw(4)
    return [('map', h_map), ('set', h_set), ('vector', h_vector), ('scopes', h_scopes)][k][0], [h_map, h_set, h_vector, h_scopes][k](src)


def braces(items):
    return '{' + ''.join(' ' + x for x in items) + ' }'


def keys(src):
    """a key generator: dense, strided, wide, negative"""
    r = src.choice([4, 8, 20, 60, 200])
    m = src.choice(['dense', 'dense', 'stride', 'wide', 'negative'])

    def f():
        v = src.draw(r)
        if m == 'stride':
            return v * 31
        if m == 'wide':
            return (v * 7919 * 104729) % (1 << 30)
        if m == 'negative':
            return -v
        return v
    return f


def length(src):
    return src.choice([5, 20, 60, 150, 400])


def htype(src):
    return src.draw(7)


def h_map(src):
    ops = []
    ms = {}
    t = htype(src)
    key = keys(src)
    if t == 6:
        k0 = key
        key = lambda: abs(k0())
    n = length(src)
    addw = src.choice([3, 6, 10])
    ops.append(('mnew 0 %d' % t, 'ok'))
    ms[0] = {}
    for _ in range(n):
        a = src.choice(sorted(ms))
        m = ms[a]
        o = src.weighted([(addw, 'add'), (4, 'get'), (5, 'rem'), (1, 'def'), (1, 'has'), (1, 'dump'), (1, 'copy')])
        if o == 'add':
            k, v = key(), src.draw(1000)
            m[k] = v
            ops.append(('madd %d %d %d' % (a, k, v), 'ok'))
        elif o == 'rem':
            k = src.choice(sorted(m)) if m and src.bool() else key()
            m.pop(k, None)
            ops.append(('mrem %d %d' % (a, k), 'ok'))
        elif o == 'get':
            k = key()
            ops.append(('mget %d %d' % (a, k), str(m[k]) if k in m else 'none'))
        elif o == 'def':
            k = key()
            ops.append(('mdef %d %d 77' % (a, k), '%d 0' % m[k] if k in m else '77 1'))
        elif o == 'has':
            k = key()
            ops.append(('mhas %d %d' % (a, k), '1' if k in m else '0'))
        elif o == 'dump':
            ops.append(('mdump %d' % a, braces('%d:%d' % i for i in sorted(m.items()))))
        else:
            b = src.draw(3)
            if b != a:
                ms[b] = dict(m)
                ops.append(('mcopy %d %d' % (a, b), 'ok'))
    for a in sorted(ms):
        ops.append(('mdump %d' % a, braces('%d:%d' % i for i in sorted(ms[a].items()))))
    return ops


def h_set(src):
    ops = []
    t = htype(src)
    key = keys(src)
    if t == 6:
        k0 = key
        key = lambda: abs(k0())
    ss = {}
    for i in range(3):
        ss[i] = set()
        ops.append(('snew %d %d' % (i, t), 'ok'))
    for _ in range(length(src)):
        a, b = src.draw(3), src.draw(3)
        s, r = ss[a], ss[b]
        o = src.weighted([(8, 'sadd'), (4, 'srem'), (3, 'shas'), (1, 'sand'), (1, 'sor'), (1, 'ssub'), (1, 'ssup'), (1, 'seq'), (1, 'scopy'), (1, 'sdump')])
        if o in ('sadd', 'srem', 'shas'):
            k = key()
            if o == 'srem' and s and src.bool():
                k = src.choice(sorted(s))
            exp = 'ok'
            if o == 'sadd':
                s.add(k)
            elif o == 'srem':
                s.discard(k)
            else:
                exp = '1' if k in s else '0'
            ops.append(('%s %d %d' % (o, a, k), exp))
        elif o == 'scopy':
            if a != b:
                ss[b] = set(s)
                ops.append(('scopy %d %d' % (a, b), 'ok'))
        elif o == 'sdump':
            ops.append(('sdump %d' % a, braces(map(str, sorted(s)))))
        elif o in ('ssup', 'seq'):
            ops.append(('%s %d %d' % (o, a, b), '1' if (s >= r if o == 'ssup' else s == r) else '0'))
        else:
            e = {'sand': s & r, 'sor': s | r, 'ssub': s - r}[o]
            ops.append(('%s %d %d' % (o, a, b), braces(map(str, sorted(e)))))
    for a in range(3):
        ops.append(('sdump %d' % a, braces(map(str, sorted(ss[a])))))
    return ops


def h_vector(src):
    ops = []
    vs = {0: [], 1: []}
    ops += [('vnew 0', 'ok'), ('vnew 1', 'ok')]
    grow = src.choice([3, 6, 12])
    for _ in range(length(src)):
        a = src.choice(sorted(vs))
        v = vs[a]
        x = src.draw(1000)
        i = src.draw(len(v) + 1) if src.bool(7, 8) else src.choice([-1, len(v), len(v) + 1, len(v) + 5, -100])
        o = src.weighted([(grow, 'vpush'), (4, 'vpop'), (2, 'vset'), (2, 'vins'), (2, 'vdel'), (2, 'vat'), (1, 'vlen'), (1, 'vdump'), (1, 'vfill'), (1, 'vext'), (1, 'vcopy'), (1, 'pair')])
        if o == 'vpush':
            v.append(x)
            ops.append(('vpush %d %d' % (a, x), 'ok'))
        elif o == 'vpop':
            if v:
                ops.append(('vpop %d' % a, str(v.pop())))
        elif o == 'vset':
            ok = 0 <= i < len(v)
            if ok:
                v[i] = x
            ops.append(('vset %d %d %d' % (a, i, x), '1' if ok else '0'))
        elif o == 'vins':
            if 0 <= i <= len(v):
                v.insert(i, x)
            ops.append(('vins %d %d %d' % (a, i, x), 'ok'))
        elif o == 'vdel':
            if 0 <= i < len(v):
                del v[i]
            ops.append(('vdel %d %d' % (a, i), 'ok'))
        elif o == 'vat':
            ops.append(('vat %d %d' % (a, i), str(v[i]) if 0 <= i < len(v) else 'none'))
        elif o == 'vlen':
            ops.append(('vlen %d' % a, str(len(v))))
        elif o == 'vdump':
            ops.append(('vdump %d' % a, '[' + ''.join(' %d' % y for y in v) + ' ]'))
        elif o == 'vfill':
            n = len(v) + src.choice([-2, -1, 0, 1, 2, 3, 7, 20])
            if n < 0:
                n = 0
            v.extend([x] * (n - len(v)))
            ops.append(('vfill %d %d %d' % (a, n, x), 'ok'))
        elif o == 'vext':
            b = src.choice(sorted(vs))
            if b != a:
                v.extend(vs[b])
                vs[b] = []
                ops.append(('vext %d %d' % (a, b), 'ok'))
        elif o == 'vcopy':
            b = src.draw(3)
            if b != a:
                vs[b] = list(v)
                ops.append(('vcopy %d %d' % (a, b), 'ok'))
        else:
            y, c = src.draw(1000), src.draw(8)
            p = [c if c & 1 else x, c if c & 2 else y]
            ops.append(('pair %d %d %d' % (x, y, c), '%d %d %d %d' % (*p, x, y) + ('' if c & 4 else '\n%d %d' % tuple(p))))
    for a in sorted(vs):
        ops.append(('vdump %d' % a, '[' + ''.join(' %d' % y for y in vs[a]) + ' ]'))
    return ops


def h_scopes(src):
    """names in nested scopes; storage of variables that are visible together must not overlap and lie in the frame"""
    ops = [('tnew', 'ok')]
    scopes = [({}, {})]
    top = [0]     # largest offset handed out, per scope nest
    r = src.choice([3, 8, 30, 120])
    for _ in range(length(src)):
        o = src.weighted([(6, 'tmem'), (4, 'tfind'), (2, 'gdef'), (2, 'gfind'), (2, 'tin'), (2, 'tout'), (1, 'tlab'), (1, 'tcopy')])
        k = src.draw(r)
        if o == 'tin':
            scopes.append(({}, {}))
            ops.append(('tin', 'ok'))
        elif o == 'tout':
            if len(scopes) > 1:
                scopes.pop()
                ops.append(('tout', ('frame',)))
        elif o == 'tmem':
            ty = src.draw(9)
            if k in scopes[-1][0]:
                ops.append(('tmem %d %d' % (k, ty), 'taken'))
            else:
                scopes[-1][0][k] = len(ops)
                others = [x for s in scopes for x in s[0].values() if x != len(ops)]
                ops.append(('tmem %d %d' % (k, ty), ('mem', others)))
        elif o == 'tlab':
            ty = src.draw(9)
            if k in scopes[-1][0]:
                ops.append(('tlab %d %d' % (k, ty), 'taken'))
            else:
                scopes[-1][0][k] = len(ops)
                ops.append(('tlab %d %d' % (k, ty), 'ok'))
        elif o == 'tfind':
            d = next((s[0][k] for s in reversed(scopes) if k in s[0]), None)
            ops.append(('tfind %d' % k, 'none' if d is None else ('find', d)))
        elif o == 'gdef':
            n = src.int(1, 5)
            if k in scopes[-1][1]:
                ops.append(('gdef %d %d' % (k, n), 'taken'))
            else:
                scopes[-1][1][k] = n
                ops.append(('gdef %d %d' % (k, n), 'ok'))
        elif o == 'gfind':
            d = next((s[1][k] for s in reversed(scopes) if k in s[1]), None)
            ops.append(('gfind %d' % k, 'none' if d is None else str(4 * d)))
        else:
            ops.append(('tcopy', 'ok'))
    return ops


SIZES = {0: 1, 1: 4, 2: 8, 3: 3, 4: 8}


def size_of(line):
    t = int(line.split()[2])
    return SIZES.get(t, 4 * t)


def judge(ops, answers, status):
    """answers: the lines printed for these operations -> None or what is wrong"""
    pos = 0
    got = {}
    top = 0
    for i, (line, exp) in enumerate(ops):
        n = exp.count('\n') + 1 if isinstance(exp, str) else 1
        a = '\n'.join(answers[pos:pos + n])
        if pos + n > len(answers):
            return 'operation %d (%s): no answer, the process ended with %s' % (i, line, status)
        pos += n
        got[i] = a
        if isinstance(exp, str):
            if a != exp:
                return 'operation %d (%s): answer %r, expected %r' % (i, line, a, exp)
        elif exp[0] == 'mem':
            w = a.split()
            if w[0] != 'mem':
                return 'operation %d (%s): a free name is refused' % (i, line)
            off, z, frame = int(w[1]), int(w[2]), int(w[3])
            if z != size_of(line):
                return 'operation %d (%s): size %d, expected %d' % (i, line, z, size_of(line))
            top = max(top, off)
            if off < z or frame < off:
                return 'operation %d (%s): offset %d of an object of %d bytes in a frame of %d bytes' % (i, line, off, z, frame)
            for j in exp[1]:
                if ops[j][0].startswith('tmem'):
                    o2, z2 = (int(x) for x in got[j].split()[1:3])
                    if off - z < o2 and o2 - z2 < off:
                        return 'operation %d (%s): bytes %d..%d overlap with operation %d (%s): %d..%d' % (i, line, off - z, off, j, ops[j][0], o2 - z2, o2)
        elif exp[0] == 'frame':
            if int(a.split()[1]) < top:
                return 'operation %d (%s): the frame of %d bytes has no room for an object at offset %d' % (i, line, int(a.split()[1]), top)
        elif exp[0] == 'find':
            d = ops[exp[1]][0]
            e = 'mem %d %s 1' % (size_of(d), got[exp[1]].split()[1]) if d.startswith('tmem') else 'label %d 0 1' % size_of(d)
            if a != e:
                return 'operation %d (%s): found %r, but the innermost declaration (operation %d, %s) is %r' % (i, line, a, exp[1], d, e)
    rest = answers[pos:]
    if not rest:
        return 'the process ended with %s when the objects were released' % status
    if rest[0] != 'alive 0':
        return '%s stored objects were not released exactly once' % rest[0].split()[-1]
    return None


def execute(exe, hs):
    """run histories one after another -> list of (answer lines, status)"""
    out = []
    i = 0
    while i < len(hs):
        script = ''.join(''.join(l + '\n' for l, _ in ops) + 'reset\n' for _, ops in hs[i:])
        try:
            r = subprocess.run([exe], input=script.encode(), capture_output=True, timeout=300, env={'PATH': '/bin', **harness.SAN_ENV})
            so, st = r.stdout, 'status %d %s' % (r.returncode, b' / '.join(l for l in r.stderr.split(b'\n') if b'ERROR: ' in l or b'runtime error' in l).decode(errors='replace')[:300])
        except subprocess.TimeoutExpired as e:
            so, st = e.stdout or b'', 'no end within 300 s'
        lines = so.decode('latin1').split('\n')[:-1]
        cur = []
        for l in lines:
            cur.append(l)
            if l.startswith('alive '):
                out.append((cur, ''))
                cur = []
                i += 1
        if i < len(hs):
            out.append((cur, st))
            i += 1
    return out


def fails(exe, h):
    a, st = execute(exe, [h])[0]
    return judge(h[1], a, st)


def run(ck, scale):
    exe = build()
    n = int(3200 * scale)
    ck.rule = ('random histories of up to 400 operations on maps, sets, vectors, pairs and scoped symbol/tag tables, with hash functions from constant to spread, '
               'against Python models, under address and undefined-behaviour sanitizers; non-trivial: distinct history of at least 5 operations')

    def work(b):
        hs = [history(Src(rng_for(ck.prop, ck.seed, b, j))) for j in range(PER)]
        rs = execute(exe, hs)
        return [(h[0], '\n'.join(l for l, _ in h[1]), judge(h[1], *r)) for h, r in zip(hs, rs)]

    for b, rs in textcheck.pmap(ck, work, n, 300 if ck.tier == 'quick' else 3600):
        for j, (kind, text, bad) in enumerate(rs):
            ck.count(text, text.count('\n') >= 4, feat=kind)
            ck.extra['operations'] = ck.extra.get('operations', 0) + text.count('\n') + 1
            if len(ck.samples) < 4 and text.count('\n') < 12:
                ck.samples.append({'kind': kind, 'history': text.split('\n')})
            if bad is None:
                continue
            h, log = textcheck.gen(ck.prop, ck.seed, b, j, history)
            if not all(fails(exe, h) for _ in range(3)):
                ck.note('did not reproduce and was dropped: ' + bad)
                continue
            h = textcheck.shrink(history, log, lambda x: fails(exe, x) is not None, ck.shrink_s)
            bad = fails(exe, h)
            print('\n'.join(l for l, _ in h[1]))
            ck.violation(bad, {'kind': 'history', 'module': 'containers', 'ops': h[1]})
            return


def replay(r):
    return fails(build(), ('', [(l, tuple(e) if isinstance(e, list) else e) for l, e in r['ops']]))
