"""Building umlcc from /repo's working tree, compiling and running generated programs, comparing with gcc."""
import atexit
import ctypes
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UMLCC_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) \
            and shutil.disk_usage('/dev/shm').free > (1 << 29) else None
        SCRATCH = tempfile.mkdtemp(prefix='umlcc-verif-', dir=base)
        os.chmod(SCRATCH, 0o755)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


def worker_process():
    """Called first in every pool process: the process leads a group, and takes all it started with it when it is ended."""
    def end(*_):
        os.killpg(0, signal.SIGKILL)
    os.setpgid(0, 0)
    signal.signal(signal.SIGTERM, end)
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGTERM)      # PR_SET_PDEATHSIG
    except Exception:
        pass


class BuildError(Exception):
    pass


def repo_sources(exclude_main=False):
    r = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if f.endswith('.c'):
                p = os.path.join(d, f)
                if exclude_main and os.path.relpath(p, os.path.join(REPO, 'src')) == 'main.c':
                    continue
                r.append(p)
    return r


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def build_objects(tag, flags, exclude_main=False, cc='gcc'):
    out = os.path.join(scratch(), 'obj-' + tag)
    os.makedirs(out, exist_ok=True)
    srcs = repo_sources(exclude_main)

    def one(p):
        o = os.path.join(out, os.path.relpath(p, REPO).replace('/', '_')[:-2] + '.o')
        r = subprocess.run([cc, '-std=c99', '-w', *flags, '-c', p, '-o', o], capture_output=True)
        if r.returncode:
            raise BuildError(r.stderr.decode(errors='replace')[-2000:])
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, srcs))


def build_umlcc(san=False):
    """Compile umlcc from the working tree; returns the path of the executable."""
    tag = 'san' if san else 'plain'
    flags = ['-O1', '-g', *SAN] if san else ['-O1']
    exe = os.path.join(scratch(), 'umlcc-' + tag)
    if os.path.exists(exe):
        return exe
    objs = build_objects(tag, flags)
    r = subprocess.run(['gcc', *(SAN if san else []), *objs, '-o', exe], capture_output=True)
    if r.returncode:
        raise BuildError(r.stderr.decode(errors='replace')[-2000:])
    return exe


def build_driver():
    o = os.path.join(scratch(), 'driver.o')
    if not os.path.exists(o):
        r = subprocess.run(['gcc', '-O1', '-fno-omit-frame-pointer', '-fno-stack-protector', '-w', '-c',
                            os.path.join(VERIF, 'lib', 'driver.c'), '-o', o], capture_output=True)
        if r.returncode:
            raise BuildError(r.stderr.decode(errors='replace')[-2000:])
    return o


def _limits():
    # contained compiler process: bounded memory (address space is unlimited for sanitizers), cpu and file size
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99',
           'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'}


def run_umlcc(exe, path, timeout=20, env=None, cwd=None):
    """-> (rc, stderr bytes); rc is None after a timeout."""
    e = {'PATH': '/usr/bin:/bin', 'MALLOC_PERTURB_': '165', **SAN_ENV, **(env or {})}
    e['ASAN_OPTIONS'] += ':hard_rss_limit_mb=4000'
    try:
        r = subprocess.run([exe, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e, preexec_fn=_limits, cwd=cwd)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        return None, b''


PRELUDE = """void put_c(char x);
void put_i(int x);
void put_u(unsigned int x);
void put_l(long x);
void put_ul(unsigned long x);
void put_ll(long long x);
void put_ull(unsigned long long x);
void put_s(char* x);
void put_mem(char* x, int n);
void put_fill(char* x, int n, int k);
char* big_area(void);
int tr(int k, int v);
long trl(int k, long v);
char trc(int k, char v);
char id_c(char x);
int id_i(int x);
unsigned int id_u(unsigned int x);
long id_l(long x);
unsigned long id_ul(unsigned long x);
long long id_ll(long long x);
unsigned long long id_ull(unsigned long long x);
int call_i(int (*f)(int), int a);
long call_l(long (*f)(long), long a);
"""

# -fwrapv: umlcc's arithmetic wraps; the trapping checks let the reference mark undefined cases, which are discarded
REF_FLAGS = ['-std=gnu99', '-O0', '-w', '-fwrapv', '-fno-stack-protector', '-fsigned-char', '-fno-builtin',
             '-fsanitize=shift-exponent,integer-divide-by-zero,bounds,null,vla-bound',
             '-fsanitize-undefined-trap-on-error']


def parse_out(data):
    """driver output -> {case: (status, text)}"""
    res = {}
    cur, buf = None, []
    for line in data.split(b'\n'):
        if line.startswith(b'@@'):
            cur, buf = int(line[2:]), []
        elif line.startswith(b'@='):
            # a case cut off in the middle of a line has its status glued to it
            res[cur] = (line[2:].decode(), b'\n'.join(buf).decode('latin1'))
            cur = None
        elif cur is not None:
            k = line.find(b'@=')
            if k >= 0:
                res[cur] = (line[k + 2:].decode(), (b'\n'.join(buf + [line[:k]])).decode('latin1'))
                cur = None
            else:
                buf.append(line)
    return res


def sh(cmd, timeout=120):
    try:
        return subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


class Result:
    """Outcome of running one program through umlcc and through the reference."""
    __slots__ = ('kind', 'detail', 'um', 'ref')

    def __init__(self, kind, detail='', um=None, ref=None):
        self.kind, self.detail, self.um, self.ref = kind, detail, um, ref


class Tools:
    def __init__(self, san=False):
        self.umlcc = build_umlcc(san)
        self.driver = build_driver()


TOO_COMPLEX = b'too complex'


def run_program(tools, text, name='p', case_ms=1500, extra_c=None, ref_text=None, keep=None, um2=None):
    """Compile text with umlcc and gcc, run both.  extra_c: C text compiled by gcc into both executables.
    um2: a second translation unit, compiled by the compiler under test (by gcc for the reference).
    ref_text: program for the reference when it differs (metamorphic variants).
    kinds: ok (um/ref maps filled), refgcc (gcc rejected: not judged), reject, crash, hang, asm, link, internal."""
    d = tempfile.mkdtemp(prefix=name, dir=scratch())
    try:
        cpath = os.path.join(d, 'p.c')
        with open(cpath, 'w', encoding='latin1') as f:
            f.write(text)
        rpath = cpath
        if ref_text is not None:
            rpath = os.path.join(d, 'r.c')
            with open(rpath, 'w', encoding='latin1') as f:
                f.write(ref_text)
        extra = []
        if extra_c is not None:
            epath = os.path.join(d, 'x.c')
            with open(epath, 'w', encoding='latin1') as f:
                f.write(extra_c)
            eo = os.path.join(d, 'x.o')
            r = sh(['gcc', '-std=gnu99', '-O1', '-w', '-fwrapv', '-fno-stack-protector', '-fno-omit-frame-pointer',
                    '-c', epath, '-o', eo])
            if r is None or r.returncode:
                return Result('refgcc', (r.stderr if r else b'timeout').decode(errors='replace')[-600:])
            extra = [eo]
        # reference
        p2 = os.path.join(d, 'p2.c')
        if um2 is not None:
            with open(p2, 'w', encoding='latin1') as f:
                f.write(um2)
        r = sh(['gcc', *REF_FLAGS, rpath, *([p2] if um2 is not None else []), *extra, tools.driver, '-o', os.path.join(d, 'r')])
        if r is None or r.returncode:
            return Result('refgcc', (r.stderr if r else b'timeout').decode(errors='replace')[-600:])
        r = sh([os.path.join(d, 'r'), str(case_ms)], 600)
        if r is None or r.returncode:
            return Result('internal', 'reference driver failed')
        ref = parse_out(r.stdout)
        # umlcc
        objs = []
        for path in [cpath] + ([p2] if um2 is not None else []):
            rc, err = run_umlcc(tools.umlcc, path)
            if rc is None:
                return Result('hang', 'umlcc did not terminate within 20 s', ref=ref)
            spath = path[:-1] + 's'
            if rc != 0:
                k = 'reject' if rc == 1 else 'crash'
                return Result(k, 'umlcc exit status %d: %s' % (rc, err.decode(errors='replace')[-600:]), ref=ref)
            if not os.path.exists(spath):
                return Result('reject', 'umlcc exit status 0 but no output file', ref=ref)
            if keep:
                shutil.copy(spath, keep)
            r = sh(['gcc', '-c', spath, '-o', path[:-1] + 'o'])
            if r is None or r.returncode:
                return Result('asm', 'assembler: ' + (r.stderr if r else b'timeout').decode(errors='replace')[-600:], ref=ref)
            objs.append(path[:-1] + 'o')
        r = sh(['gcc', '-Wl,-z,noexecstack', *objs, *extra, tools.driver, '-o', os.path.join(d, 'u')])
        if r is None or r.returncode:
            return Result('link', 'linker: ' + (r.stderr if r else b'timeout').decode(errors='replace')[-600:], ref=ref)
        r = sh([os.path.join(d, 'u'), str(case_ms)], 600)
        if r is None or r.returncode:
            return Result('internal', 'driver failed with umlcc program: %r' % (r and r.returncode), ref=ref)
        return Result('ok', um=parse_out(r.stdout), ref=ref)
    finally:
        shutil.rmtree(d, ignore_errors=True)


STRICT = ['-std=gnu99', '-fwrapv', '-fno-builtin', '-fsigned-char', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=implicit-function-declaration', '-Werror=return-type', '-Werror=shift-count-overflow', '-Werror=shift-count-negative', '-Werror=div-by-zero']
BUILDS = [['gcc', '-O2'], ['clang', '-O0'], ['clang', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment'], ['clang', '-O0', '-fsanitize=memory', '-fno-sanitize-recover=all']]


def well_defined(text, expected):
    """does every build of the one-case program (other compiler, other optimisation, sanitizers) end normally with this output?"""
    if expected is None or expected[0] != 'exit 0':
        return False
    expected = expected[1]
    d = tempfile.mkdtemp(prefix='wd', dir=scratch())
    try:
        c = os.path.join(d, 'p.c')
        with open(c, 'w', encoding='latin1') as f:
            f.write(text)
        for i, b in enumerate(BUILDS):
            exe = os.path.join(d, 'b%d' % i)
            r = sh([*b, *STRICT, '-Werror=sequence-point' if b[0] == 'gcc' else '-Werror=unsequenced', '-c', c, '-o', exe + '.o'])
            if r is None or r.returncode:
                return False
            r = sh([*b, '-w', exe + '.o', os.path.join(VERIF, 'lib', 'plain.c'), '-o', exe])
            if r is None or r.returncode:
                return False
            try:
                r = subprocess.run([exe], stdin=subprocess.DEVNULL, capture_output=True, timeout=30, preexec_fn=_limits, env={'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1'})
            except subprocess.TimeoutExpired:
                return False
            if r.returncode or r.stdout.decode('latin1').rstrip('\n') != expected.rstrip('\n'):
                return False
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build_forkrun(san=True):
    """The in-process runner: umlcc's sources with main renamed, plus lib/forkrun.c."""
    tag = 'fork-san' if san else 'fork'
    exe = os.path.join(scratch(), tag)
    if os.path.exists(exe):
        return exe
    flags = ['-O1', '-g', *SAN] if san else ['-O1']
    objs = build_objects(tag, [*flags, '-Dmain=umlcc_main'])
    r = subprocess.run(['gcc', '-w', *flags, os.path.join(VERIF, 'lib', 'forkrun.c'), *objs, '-o', exe], capture_output=True)
    if r.returncode:
        raise BuildError(r.stderr.decode(errors='replace')[-2000:])
    return exe


def fork_many(exe, texts, limit_ms=10000, suffix='.c'):
    """Run umlcc on each text (bytes); -> list of (status, cpu ms, stderr bytes, assembly bytes or None)."""
    d = tempfile.mkdtemp(prefix='fz', dir=scratch())
    try:
        paths = []
        for i, t in enumerate(texts):
            p = os.path.join(d, 'f%d%s' % (i, suffix))
            with open(p, 'wb') as f:
                f.write(t)
            paths.append(p)
        env = {'PATH': '/usr/bin:/bin', 'MALLOC_PERTURB_': '165', **SAN_ENV}
        r = subprocess.run([exe, str(limit_ms)], input=('\n'.join(paths) + '\n').encode(), capture_output=True, env=env, timeout=900)
        lines = r.stdout.decode().split('\n')
        out = []
        for i, p in enumerate(paths):
            if i >= len(lines) or not lines[i]:
                out.append(('lost', 0, r.stderr[-500:], None))
                continue
            st, ms, h = lines[i].split(' ')
            s = p[:-2] + '.s'
            asm = None
            if os.path.exists(s):
                with open(s, 'rb') as f:
                    asm = f.read()
            out.append((st, int(ms), b'' if h == '-' else bytes.fromhex(h), asm))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
