"""P16: the command line contract, as a stateful model of a directory: after every invocation the directory must be exactly
what the model says, and exit status and streams must match."""
import os
import resource
import shutil
import signal
import stat
import subprocess
import tempfile

import fam_fault
import fam_fuzz
import harness
import textcheck
from engine import Src, rng_for

PER = 12
NAMES = ['p.c', 'q.c', 'main.c', 'a.b.c', 'x y.c', 'sub/p.c', 'sub/deep/z.c', '.c', '.hid.c', 'p.c.c', 'C.c', 'c.c', 's.c', 'n' * 100 + '.c', 'sub.d/p.c', '-p.c', 'p..c', 'sub/c.c', 'p.s.c']
BADNAMES = ['p.h', 'p', 'pc', 'p.C', 'p.cc', 'p.s', 'p.c.txt', 'sub.c/p', 'sub/p.o', 'p.', '.h', 'p.c ', 'x.cpp']
EMPTYISH = [b'', ]


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(r, x)
            st = os.lstat(p)
            rel = os.path.relpath(p, d)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    out[rel] = ('file', f.read())
    return out


class Session:
    def __init__(self, src, exe, fork):
        self.src, self.exe, self.fork = src, exe, fork
        self.trace = []
        self.d = tempfile.mkdtemp(prefix='cli', dir=harness.scratch())

    def path(self, n):
        return os.path.join(self.d, n)

    def write(self, n, data):
        p = self.path(n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, 'wb') as f:
            f.write(data)

    def expected(self, text):
        """assembly for the text, compiled alone elsewhere"""
        st, _, err, asm = harness.fork_many(self.fork, [text])[0]
        return st, asm

    def text(self):
        src = self.src
        k = src.draw(8)
        if k < 4:
            return fam_fuzz.valid_program(src, 2, True).encode('latin1')
        if k < 6:
            g = fam_fault.FAULTS[src.draw(len(fam_fault.FAULTS))][1]
            return g(src).bad.encode('latin1')
        if k == 6:
            return src.choice([b'int main(void) { return 0; }\n', b'int x;', b'int main(void) { return 0; }', b'\n\n', b' ', b'int', b'"', b'int main(void) { return 0; \n'])
        return fam_fuzz.FUZZ[src.draw(len(fam_fuzz.FUZZ))][1](src)

    def run(self, args, **kw):
        env = {'PATH': '/usr/bin:/bin', 'MALLOC_PERTURB_': '165'}
        r = subprocess.run([self.exe, *args], cwd=self.d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, **kw)
        return r.returncode, r.stdout, r.stderr

    def arg(self, n):
        """a spelling of the path of n that does not start with '-'"""
        k = self.src.draw(4)
        if k == 0:
            return self.path(n)
        if k == 1:
            return './' + n
        if k == 2 and os.path.dirname(n):
            return os.path.dirname(n) + '/../' * (n.count('/')) + n if n.count('/') == 1 else n
        return n

    def step(self):
        src = self.src
        k = src.draw(16)
        if k < 7:
            return self.op_compile()
        return [self.op_argc, self.op_missing, self.op_badext, self.op_dirinput, self.op_output_blocked, self.op_disk_full, self.op_parallel, self.op_closed, self.op_twice][(k - 7) % 9]()

    def prepare(self):
        src = self.src
        n = src.choice(NAMES)
        t = self.text()
        self.write(n, t)
        out = n[:-1] + 's'
        if src.bool():
            self.write(out, src.choice([b'stale\n', b'', b'x' * 50000]))
        if src.bool(1, 4):
            self.write(src.choice(['other.txt', 'p.o', 'a.out', 'sub/notes', 'p.i']), b'keep me')
        for f in (n, out):
            # the times of the files tell nothing about their contents
            if src.bool() and os.path.isfile(self.path(f)):
                w = src.choice([0, 1, 10 ** 9, 1700000000, 1700000001, 4 * 10 ** 9])
                os.utime(self.path(f), (w, w))
        return n, t, out

    def after(self, before, rc, so, se, n, t, out):
        """what one compilation of n may have done"""
        st, asm = self.expected(t)
        now = snapshot(self.d)
        exp = dict(before)
        if st in ('lost', 'timeout') or st.startswith('signal') or st == '99':
            return None     # judged by the robustness property
        if rc != int(st):
            return 'exit status %d, but %s for the same text elsewhere' % (rc, st)
        if st == '0':
            exp[out] = ('file', asm)
            if se.strip() or so.strip():
                return 'a successful run printed %r' % (so + se)[:200]
        else:
            if not se.strip():
                return 'no diagnostic on the standard error stream (exit status %d)' % rc
            if so:
                return 'a failed run printed %r on the standard output' % so[:200]
        return self.diff(exp, now)

    def diff(self, exp, now):
        for p in sorted(set(exp) | set(now)):
            a, b = exp.get(p), now.get(p)
            if a != b:
                if a is None:
                    return 'a file %r appeared' % p
                if b is None:
                    return 'the file %r is gone' % p
                return 'the file %r is not what it should be (%d bytes, expected %d)' % (p, len(b[-1]), len(a[-1]))
        return None

    def failing(self, args, why, ok=(1,)):
        before = snapshot(self.d)
        rc, so, se = self.run(args)
        self.trace.append('umlcc %s -> %s' % (args, rc))
        if rc != 1:
            return '%s: exit status %d instead of 1' % (why, rc)
        if not se.strip():
            return '%s: no diagnostic' % why
        d = self.diff(before, snapshot(self.d))
        return d and '%s: %s' % (why, d)

    def op_compile(self):
        n, t, out = self.prepare()
        before = snapshot(self.d)
        a = self.arg(n)
        rc, so, se = self.run([a])
        self.trace.append('compile %r -> %d' % (a, rc))
        e = self.after(before, rc, so, se, n, t, out)
        return e and 'compiling %r: %s' % (a, e)

    def op_argc(self):
        n, t, out = self.prepare()
        return self.failing(self.src.choice([[], [n, n], [n, 'q.c'], ['-o', 'x.s', n], [n, ''], ['', '', '']]), 'wrong number of arguments')

    def op_missing(self):
        n = self.src.choice(['nope.c', 'nodir/p.c', '', 'nope', 'p.c/x.c'])
        return self.failing([n], 'input %r does not exist' % n)

    def op_badext(self):
        n = self.src.choice(BADNAMES)
        self.write(n, fam_fuzz.valid_program(self.src, 1, True).encode('latin1'))
        if self.src.bool():
            for o in (n[:-1] + 's', n + '.s', n.rsplit('.', 1)[0] + '.s'):
                if o != n and o not in ('.s',) and not os.path.isdir(self.path(o)) and self.src.bool(1, 2):
                    self.write(o, b'stale\n')
        e = self.failing([n], 'input %r is not a .c file' % n)
        p = self.path(n)
        if os.path.isfile(p):
            os.unlink(p)
        if 'sub.c/p' == n:
            shutil.rmtree(self.path('sub.c'), ignore_errors=True)
        return e

    def op_dirinput(self):
        n = self.src.choice(['dd.c', 'sub/ee.c'])
        os.makedirs(self.path(n), exist_ok=True)
        return self.failing([n], 'input %r is a directory' % n)

    def op_output_blocked(self):
        """the output cannot be opened or written: a diagnostic and exit status 1 (whatever the text)"""
        n, t, out = self.prepare()
        p = self.path(out)
        if os.path.lexists(p):
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        k = self.src.draw(3)
        if k == 0:
            os.makedirs(p)
        elif k == 1:
            os.symlink('/dev/full', p)
        else:
            os.symlink('no-such-dir/x.s', p)
        st, asm = self.expected(t)
        if k == 1 and st == '0' and not asm:
            st = None
        e = self.failing([n], 'the output %r cannot be written' % out) if st else None
        if os.path.islink(p):
            os.unlink(p)
        else:
            shutil.rmtree(p, ignore_errors=True)
        return e

    def op_disk_full(self):
        """the file system fills up after k bytes: exit status 0 exactly if everything was written"""
        n, t, out = self.prepare()
        st, asm = self.expected(t)
        p = self.path(out)
        if os.path.isfile(p):
            os.unlink(p)
        if st != '0' or not asm:
            return None
        k = self.src.choice([0, 1, len(asm) - 1, len(asm) // 2, len(asm), len(asm) + 1, 4096, 4095, 4097, len(asm) // 4096 * 4096])
        if k < 0:
            k = 0

        def lim():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        rc, so, se = self.run([n], preexec_fn=lim)
        self.trace.append('compile %r with room for %d of %d bytes -> %d' % (n, k, len(asm), rc))
        full = k < len(asm)
        if full and rc != 1:
            return 'room for %d of %d bytes of output: exit status %d instead of 1' % (k, len(asm), rc)
        if full and not se.strip():
            return 'room for %d of %d bytes of output: no diagnostic' % (k, len(asm))
        if not full and rc != 0:
            return 'room for all %d bytes of output: exit status %d' % (len(asm), rc)
        if not full:
            with open(p, 'rb') as f:
                if f.read() != asm:
                    return 'the output is incomplete'
        if os.path.isfile(p):
            os.unlink(p)
        return None

    def op_parallel(self):
        """several compilers at work in one directory do not disturb each other"""
        src = self.src
        ns = src.sample(NAMES, src.int(2, 5))
        ts = [self.text() for _ in ns]
        for n, t in zip(ns, ts):
            self.write(n, t)
        before = snapshot(self.d)
        ps = [subprocess.Popen([self.exe, './' + n], cwd=self.d, env={'PATH': '/bin'}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for n in ns]
        rcs = [p.wait(60) for p in ps]
        exp = dict(before)
        for n, t, rc in zip(ns, ts, rcs):
            st, asm = self.expected(t)
            if st not in ('0', '1'):
                return None
            if rc != int(st):
                return 'in parallel %r ended with %d, alone with %s' % (n, rc, st)
            if st == '0':
                exp[n[:-1] + 's'] = ('file', asm)
        e = self.diff(exp, snapshot(self.d))
        return e and 'compilers running at the same time: ' + e

    def op_closed(self):
        """standard input and output closed"""
        n, t, out = self.prepare()
        before = snapshot(self.d)
        r = subprocess.run(['/bin/sh', '-c', 'exec "$0" "$1" <&- >&-', self.exe, './' + n], cwd=self.d, stderr=subprocess.PIPE, timeout=60)
        e = self.after(before, r.returncode, b'', r.stderr, n, t, out)
        return e and 'with closed input and output, %r: %s' % (n, e)

    def op_twice(self):
        """edit and compile again: the second output owes nothing to the first"""
        e = self.op_compile()
        return e or self.op_compile()

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def session(src, exe, fork):
    s = Session(src, exe, fork)
    try:
        for _ in range(src.int(1, 5)):
            e = s.step()
            if e:
                return e, s.trace
        return None, s.trace
    finally:
        s.close()


def run(ck, scale):
    exe = harness.build_umlcc()
    fork = harness.build_forkrun(False)
    n = int(160 * scale)
    ck.rule = ('random sessions of up to five operations (compilations of valid and invalid files under many names, wrong arguments, missing files, directories, blocked or full '
               'output, parallel runs, edit-and-recompile) against a model of the directory; non-trivial: distinct session')

    def work(b):
        out = []
        for j in range(PER):
            src = Src(rng_for(ck.prop, ck.seed, b, j))
            e, tr = session(src, exe, fork)
            out.append((e, tr, repr(src.log)))
        return out

    for b, rs in textcheck.pmap(ck, work, n, 300 if ck.tier == 'quick' else 3600):
        for j, (e, tr, key) in enumerate(rs):
            ck.count(key, bool(tr), feat='session of %d traced operations' % len(tr))
            if len(ck.samples) < 6 and len(tr) > 1:
                ck.samples.append(tr)
            if e is None:
                continue
            src = Src(rng_for(ck.prop, ck.seed, b, j))
            if not all(session(Src(rng_for(ck.prop, ck.seed, b, j)), exe, fork)[0] for _ in range(3)):
                ck.note('did not reproduce and was dropped: ' + e)
                continue
            session(src, exe, fork)
            import engine
            import time
            log = engine.shrink_choices(src.log, lambda c: session(Src(replay=c), exe, fork)[0] is not None, time.time() + ck.shrink_s, time.time)
            e2, tr = session(Src(replay=log), exe, fork)
            print('\n'.join(tr))
            ck.violation(e2 or e, {'kind': 'session', 'module': 'cli', 'choices': log if e2 else src.log, 'trace': tr})
            return


def replay(r):
    return session(Src(replay=r['choices']), harness.build_umlcc(), harness.build_forkrun(False))[0]
