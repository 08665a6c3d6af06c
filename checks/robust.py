"""P14: no input makes umlcc crash, corrupt memory, hang, or end without either an output or a diagnostic."""
import os
import resource
import subprocess
import tempfile
import threading

import fam_deep
import fam_fuzz
import harness
import textcheck
from engine import Src, rng_for

PER = 100
DEEP_PER = 8
DEEP_CPU = 90           # seconds; the slowest well-formed inputs below umlcc's nesting limit take about 20
STACK = 8 << 20         # the usual limit
MEM_NEAR = 1500000      # kB; a run that used less was not stopped by the limit of memory (3 GB)


def judge(st, err, asm):
    if st == 'lost':
        return None
    if st == 'timeout':
        return 'umlcc did not terminate within its time limit'
    if st not in ('0', '1'):
        info = [l for l in err.decode(errors='replace').split('\n') if 'SUMMARY' in l or 'runtime error' in l or 'ERROR: ' in l]
        return 'umlcc ended with status %s: %s' % (st, ' / '.join(info)[:400] or err.decode(errors='replace')[-300:])
    if st == '1' and not err.strip():
        return 'umlcc exited with status 1 without a diagnostic'
    if st == '1' and asm is not None:
        return 'umlcc exited with status 1 but wrote an output file'
    if st == '0' and asm is None:
        return 'umlcc exited with status 0 but wrote no output file'
    if st == '0' and b'error' in err:
        return 'umlcc exited with status 0 although it reported: ' + err.decode(errors='replace')[-200:]
    return None


def _deep_limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (STACK, STACK))
    resource.setrlimit(resource.RLIMIT_CPU, (DEEP_CPU, DEEP_CPU + 1))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def plain_run(exe, text):
    """umlcc without sanitizers, with the usual stack -> as one element of harness.fork_many"""
    with tempfile.TemporaryDirectory(dir=harness.scratch()) as d:
        p = os.path.join(d, 'f.c')
        with open(p, 'wb') as f:
            f.write(text)
        with open(os.path.join(d, 'err'), 'w+b') as ef:
            c = subprocess.Popen([exe, p], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=_deep_limits,
                                 env={'PATH': '/usr/bin:/bin', 'MALLOC_PERTURB_': '165'})
            late = threading.Timer(20 * DEEP_CPU, c.kill)
            late.start()
            _, ws, ru = os.wait4(c.pid, 0)
            late.cancel()
            rc = c.returncode = os.waitstatus_to_exitcode(ws)
            ef.seek(0)
            err = ef.read()
        asm = None
        if os.path.exists(p[:-1] + 's'):
            with open(p[:-1] + 's', 'rb') as f:
                asm = f.read(16)
        st = str(rc)
        if rc in (-24, -9):
            st = 'timeout' if ru.ru_utime + ru.ru_stime >= DEEP_CPU - 1 else 'lost'
        elif rc < 0 and ru.ru_maxrss > MEM_NEAR:
            # stopped by the limit of memory of this check, which some long inputs below the nesting limit legitimately exceed
            st = 'lost'
        return st, 0, err, asm


def run_deep(ck, scale):
    """deeply nested programs, by the program as it is usually built: the sanitizers' large frames would hide its real limits"""
    exe = harness.build_umlcc(False)
    fams = fam_deep.DEEP

    def work(b):
        g = fams[b % len(fams)]
        texts = [g[1](Src(rng_for(ck.prop + 'deep', ck.seed, b, j))).encode() for j in range(DEEP_PER)]
        return g[0], texts, [plain_run(exe, t) for t in texts]

    for b, (fam, texts, res) in textcheck.pmap(ck, work, int(64 * scale), 120 if ck.tier == 'quick' else 1200):
        for j, (t, (st, ms, err, asm)) in enumerate(zip(texts, res)):
            ck.count(t, True, feat='%s:exit %s' % (fam, st))
            bad = judge(st, err, asm)
            if bad is None:
                continue

            def fails(x):
                return judge_run(exe, x) is not None
            if not fails(t):
                ck.note('did not reproduce and was dropped: ' + bad)
                continue
            _, log = textcheck.gen(ck.prop + 'deep', ck.seed, b, j, fams[b % len(fams)][1])
            small = t if st == 'timeout' else textcheck.shrink(lambda s: fams[b % len(fams)][1](s).encode(), log, fails, ck.shrink_s / 2)
            bad = judge_run(exe, small) or bad
            print('input (%d bytes):' % len(small), small[:400], '...', small[-200:])
            ck.violation(bad, {'kind': 'text', 'module': 'robust', 'text': small.decode('latin1'), 'family': fam})
            return False
    return True


def judge_run(exe, text):
    st, ms, err, asm = plain_run(exe, text)
    return judge(st, err, asm)


def run(ck, scale):
    if not run_deep(ck, scale):
        return
    exe = harness.build_forkrun(True)
    fams = fam_fuzz.FUZZ
    n = int(480 * scale)
    ck.rule = ('random bytes, token soup, untyped syntax, and token- and byte-level mutants of valid programs, run by a '
               'build of umlcc with address and undefined-behaviour sanitizers; deeply nested programs and chains of types, run by a '
               'build without sanitizers under the usual limit of the stack; non-trivial: the input has at least 3 bytes and is distinct')

    def work(b):
        g = fams[b % len(fams)]
        texts = [g[1](Src(rng_for(ck.prop, ck.seed, b, j))) for j in range(PER)]
        return g[0], texts, harness.fork_many(exe, texts)

    for b, (fam, texts, res) in textcheck.pmap(ck, work, n, 300 if ck.tier == 'quick' else 3600):
        for j, (t, (st, ms, err, asm)) in enumerate(zip(texts, res)):
            ck.count(t, len(t) >= 3, feat='%s:exit %s' % (fam, st))
            bad = judge(st, err, asm)
            if bad is None:
                continue

            def fails(x, lim=10000):
                r = harness.fork_many(exe, [x], lim)[0]
                return judge(r[0], r[2], r[3]) is not None
            if not all(fails(t, l) for l in (10000, 20000, 40000)):
                ck.note('did not reproduce and was dropped: ' + bad)
                continue
            _, log = textcheck.gen(ck.prop, ck.seed, b, j, fams[b % len(fams)][1])
            small = t if st == 'timeout' else textcheck.shrink_bytes(
                textcheck.shrink(fams[b % len(fams)][1], log, fails, ck.shrink_s / 2), fails, ck.shrink_s / 2)
            r = harness.fork_many(exe, [small])[0]
            bad = judge(r[0], r[2], r[3]) or bad
            print('input:', small[:1500])
            ck.violation(bad, {'kind': 'text', 'module': 'robust', 'text': small.decode('latin1'), 'family': fam})
            return
        if len(ck.samples) < 6:
            ck.samples.append({'family': fam, 'input': texts[0].decode('latin1')[:600], 'status': res[0][0]})


def replay(r):
    if r.get('family') in [n for n, _ in fam_deep.DEEP]:
        return judge_run(harness.build_umlcc(False), r['text'].encode('latin1'))
    exe = harness.build_forkrun(True)
    st, ms, err, asm = harness.fork_many(exe, [r['text'].encode('latin1')])[0]
    return judge(st, err, asm)
