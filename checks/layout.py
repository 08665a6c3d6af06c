"""P13: the output depends on the token sequence alone: white space, file name, directory, environment do not matter."""
import os
import re
import shutil
import subprocess
import tempfile

import fam_fuzz
import harness
import textcheck
from engine import Src, rng_for
from fam_fuzz import TOKEN

PER = 24
WS = [' ', '\t', '\n', '\v', '\f']


def glue_ok(a, b):
    """a and b may be written without white space between them"""
    if re.match(r'\w', a[-1]) and re.match(r'\w|\.|"|\'', b[0]):
        return False
    if a[-1] in '."\'' and (b[0].isalnum() or b[0] in '._"\''):
        return False
    return TOKEN.findall(a + b) == [a, b] and a + b not in ('//', '/*') and not (a[-1] == '/' and b[0] in '/*')


def render(src, toks, style):
    out = []
    if style == 'pretty' and src.bool():
        out.append(src.choice(WS) * src.int(1, 3))
    for i, t in enumerate(toks):
        if i:
            g = glue_ok(toks[i - 1], t)
            if style == 'min':
                w = '' if g else ' '
            elif style == 'line':
                w = '\n'
            elif style == 'tight':
                w = '' if g and src.bool(3, 4) else src.choice(WS)
            else:
                w = ''.join(src.choice(WS) for _ in range(src.small(6)))
                if not w and not g:
                    w = src.choice(WS)
            out.append(w)
        out.append(t)
    if style == 'pretty' or src.bool():
        out.append(src.choice(WS) * src.draw(3))
    return ''.join(out)


def make(src):
    base = fam_fuzz.valid_program(src, 3)
    toks = fam_fuzz.tokens(base)
    vs = [base]
    for st in ('min', 'line', 'tight', 'pretty'):
        vs.append(render(src, toks, st))
    return vs


STYLES = ['original', 'minimal', 'one token per line', 'tight', 'random']


def judge(exe, vs):
    res = harness.fork_many(exe, [v.encode('latin1') for v in vs])
    st0, _, err0, asm0 = res[0]
    for k in range(1, len(vs)):
        st, _, err, asm = res[k]
        if 'lost' in (st, st0) or 'timeout' in (st, st0):
            continue
        if st != st0:
            return k, 'the %s layout makes umlcc exit with %s instead of %s: %s' % (STYLES[k], st, st0, (err or err0).decode(errors='replace')[-300:])
        if asm != asm0:
            return k, 'the %s layout changes the generated assembly' % STYLES[k]
        if err != err0:
            return k, 'the %s layout changes the diagnostics' % STYLES[k]
    return None


NAMES = ['p.c', 'a b.c', 'x.y.c', '-o.c', 'UPPER.c', 'long' * 40 + '.c', 'd1/d2/p.c', './q.c', 'd1/../r.c', 'ü.c']


def judge_env(exe, src):
    """same text under another file name, directory, environment, memory contents -> same output, second run the same"""
    text = fam_fuzz.valid_program(src, 2).encode('latin1')
    d = tempfile.mkdtemp(prefix='env', dir=harness.scratch())
    try:
        os.makedirs(d + '/d1/d2')
        ref = None
        what = []
        for k in range(4):
            name = NAMES[src.draw(len(NAMES))] if k else 'p.c'
            p = os.path.join(d, name)
            with open(p, 'wb') as f:
                f.write(text)
            env = {'MALLOC_PERTURB_': str(src.choice([0, 1, 85, 165, 255])), 'PATH': '/bin'}
            if src.bool():
                env.update({'LC_ALL': src.choice(['C', 'C.UTF-8', 'tr_TR.UTF-8']), 'HOME': '/nonexistent', 'JUNK': 'x' * src.draw(5000), 'TZ': 'Asia/Tokyo'})
            rel = src.bool()
            r = subprocess.run([exe, ('./' + name if name[0] == '-' else name) if rel else p], cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
            s = p[:-2] + '.s'
            asm = None
            if os.path.exists(s):
                with open(s, 'rb') as f:
                    asm = f.read()
                os.unlink(s)
            cur = (r.returncode, r.stderr, asm)
            what.append((name, rel, sorted(env.items())))
            if ref is None:
                ref = cur
            elif cur[0] != ref[0]:
                return 'exit status %s under %r, %s under %r' % (cur[0], what[-1], ref[0], what[0]), text
            elif cur[2] != ref[2]:
                return 'the generated assembly differs between %r and %r' % (what[-1], what[0]), text
        return None, text
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck, scale):
    exe = harness.build_forkrun(False)
    plain = harness.build_umlcc()
    n = int(400 * scale)
    ck.rule = ('random valid programs rendered with four other layouts (minimal, one token per line, tight, random blanks of every kind), and run '
               'under other names, directories, environments; compared byte by byte; non-trivial: distinct program accepted by umlcc')

    def work(b):
        out = []
        for j in range(PER):
            src = Src(rng_for(ck.prop, ck.seed, b, j))
            if j % 6 == 5:
                bad, text = judge_env(plain, src)
                out.append((text, 'env', bad, j))
            else:
                vs = make(src)
                r = judge(exe, vs)
                out.append((vs[0].encode('latin1'), 'layout', r and r[1], j))
        return out

    for b, rs in textcheck.pmap(ck, work, n, 300 if ck.tier == 'quick' else 3600):
        for text, kind, bad, j in rs:
            ck.count(text, True, feat=kind)
            if len(ck.samples) < 4:
                ck.samples.append({'kind': kind, 'program': text.decode('latin1')[:1200]})
            if bad is None:
                continue
            if kind == 'env':
                if all(judge_env(plain, Src(rng_for(ck.prop, ck.seed, b, j)))[0] for _ in range(3)):
                    ck.violation(bad, {'kind': 'text', 'module': 'layout', 'what': 'env', 'key': [ck.prop, ck.seed, b, j], 'text': text.decode('latin1')})
                    return
            else:
                g = make
                vs, log = textcheck.gen(ck.prop, ck.seed, b, j, g)
                if all(judge(exe, vs) for _ in range(3)):
                    vs = textcheck.shrink(g, log, lambda v: judge(exe, v) is not None, ck.shrink_s)
                    k, bad = judge(exe, vs)
                    print('layout A:\n%s\nlayout B:\n%s' % (vs[0][-1500:], vs[k][-1500:]))
                    ck.violation(bad, {'kind': 'text', 'module': 'layout', 'what': 'layout', 'variants': [vs[0], vs[k]]})
                    return
            ck.note('did not reproduce and was dropped: ' + bad)


def replay(r):
    if r['what'] == 'env':
        return judge_env(harness.build_umlcc(), Src(rng_for(*r['key'])))[0]
    x = judge(harness.build_forkrun(False), r['variants'])
    return x and x[1]
