"""Differential batches: many independent generated cases per translation unit, judged case by case against gcc;
bisection, confirmation, shrinking and evidence."""
import contextlib
import hashlib
import json
import os
import re
import sys
import time
import traceback

import engine
import harness
import workers
from engine import Src, rng_for

VERIF = harness.VERIF
REG_BOUND = 5   # an expression whose estimated register need is at most this must be accepted


class Case:
    """text: declarations/definitions with '@' for the case prefix, defining @main(void).
    ref: text for the reference compiler, if different.  extra: C helper code compiled by gcc for both sides.
    um2: second translation unit compiled separately by umlcc.
    need: estimated registers needed.  nontrivial/feats: for evidence."""

    def __init__(self, text, ref=None, extra=None, need=0, nontrivial=True, feats=(), um2=None):
        self.text, self.ref, self.extra, self.um2 = text, ref, extra, um2
        self.need, self.nontrivial, self.feats = need, nontrivial, tuple(feats)

    def at(self, i, which='text'):
        t = getattr(self, which)
        if t is None:
            return None
        if '@{' in t:
            t = re.sub(r'@\{(\d)\}', lambda m: ODD[(4 * i + int(m.group(1))) % len(ODD)], t)
        return t.replace('@', 'c%d_' % i)


REGS = ['%s%s' % (p, r) for r in ('ax', 'bx', 'cx', 'dx', 'si', 'di', 'sp', 'bp', 'ip') for p in ('r', 'e', '')] + ['al', 'bl', 'cl', 'dl', 'ah', 'bh', 'ch', 'dh', 'sil', 'dil', 'spl', 'bpl'] + [
    'r%d%s' % (n, x) for n in range(8, 16) for x in ('', 'd', 'w', 'b')] + ['xmm%d' % n for n in range(16)] + ['cs', 'ds', 'es', 'fs', 'gs', 'ss', 'st', 'mm0', 'cr0', 'k1', 'flat', 'ptr', 'byte', 'word', 'dword', 'qword', 'offset']
MNEM = [m + x for m in ('mov', 'add', 'sub', 'imul', 'idiv', 'div', 'mul', 'neg', 'not', 'and', 'or', 'xor', 'sal', 'sar', 'shr', 'shl', 'cmp', 'test', 'lea', 'push', 'pop', 'inc', 'dec') for x in ('', 'b', 'w', 'l', 'q')] + [
    'movsbl', 'movslq', 'movzbl', 'cltd', 'cqto', 'cdqe', 'sete', 'setne', 'setl', 'setg', 'setle', 'setge', 'seta', 'setb', 'jmp', 'je', 'jne', 'call', 'ret', 'leave', 'nop', 'rep', 'lock', 'text', 'data', 'bss', 'globl', 'global',
    'section', 'zero', 'ascii', 'asciz', 'quad', 'align', 'size', 'type', 'PLT', 'GOTPCREL', 'rodata', 'mod', 'shl1', 'class', 'new', 'namespace', 'template', 'this', 'public', 'true', 'false', 'nullptr', 'bool']
ODD = [n for n in REGS + MNEM if n not in ('div', 'not', 'and', 'or', 'xor')]
ODD += ['L%d' % i for i in range(120)] + ['LC%d' % i for i in range(120)] + ['_L%d' % i for i in range(80)] + ['f%d' % i for i in range(100)]
ODD = list(dict.fromkeys(ODD))


def assemble(cases, prelude=harness.PRELUDE):
    """-> (umlcc text, reference text or None, extra or None, second unit or None)"""
    um = prelude + '\n'.join(c.at(i) for i, c in enumerate(cases)) + '\n'
    ref = None
    if any(c.ref is not None for c in cases):
        ref = prelude + '\n'.join(c.at(i, 'ref') if c.ref is not None else c.at(i) for i, c in enumerate(cases)) + '\n'
    extra = None
    if any(c.extra is not None for c in cases):
        extra = '\n'.join(c.at(i, 'extra') for i, c in enumerate(cases) if c.extra is not None) + '\n'
    um2 = None
    if any(c.um2 is not None for c in cases):
        um2 = prelude + '\n'.join(c.at(i, 'um2') for i, c in enumerate(cases) if c.um2 is not None) + '\n'
    return um, ref, extra, um2


def outcome(tools, cases, case_ms=1500):
    """Run a list of cases as one program; -> (Result, {index: (verdict, detail)}) with verdict ok/discard/diff."""
    um, ref, extra, um2 = assemble(cases)
    r = harness.run_program(tools, um, ref_text=ref, extra_c=extra, case_ms=case_ms, um2=um2)
    v = {}
    if r.kind == 'ok':
        for i in range(len(cases)):
            a, b = r.um.get(i), r.ref.get(i)
            if b is None or b[0] != 'exit 0':
                v[i] = ('discard', 'reference: %s' % (b,))
            elif a == b:
                v[i] = ('ok', '')
            else:
                v[i] = ('diff', explain(a, b))
    return r, v


def explain(a, b):
    if a is None:
        return 'no output of the umlcc program for this case; expected %r' % (b,)
    al, bl = a[1].split('\n'), b[1].split('\n')
    for k in range(max(len(al), len(bl))):
        x = al[k] if k < len(al) else '<end>'
        y = bl[k] if k < len(bl) else '<end>'
        if x != y:
            return 'output line %d: umlcc program %r, expected %r (umlcc program ended with %s, expected %s)' % (
                k + 1, x, y, a[0], b[0])
    return 'umlcc program ended with %s, expected %s' % (a[0], b[0])


def single_bad(tools, cases, case_ms=1500):
    """None if the program built of these cases is fine (or not judged), else a description of the violation.
    All cases are part of one program; any differing case counts."""
    r, v = outcome(tools, cases, case_ms)
    if r.kind in ('refgcc', 'internal'):
        return None
    if r.kind == 'reject' and harness.TOO_COMPLEX.decode() in r.detail and any(c.need > REG_BOUND for c in cases):
        return None
    if r.kind != 'ok':
        if r.ref is not None and any(r.ref.get(i, ('x',))[0] != 'exit 0' for i in range(len(cases))) and r.kind not in (
                'crash', 'hang'):
            # undefined cases may still be compiled; rejecting them is not judged
            if r.kind in ('reject', 'asm'):
                return None
        return '%s: %s' % (r.kind, r.detail)
    for i in sorted(v):
        if v[i][0] == 'diff':
            return 'case %d: %s' % (i, v[i][1])
    return None


def gen_cases(families, prop, seed, b, k):
    """Deterministic cases of batch b: list of (family index, choices, case)."""
    out = []
    fi = b % len(families)
    for j in range(k):
        src = Src(rng_for(prop, seed, b, j))
        c = families[fi][1](src)
        out.append((fi, src.log, c))
    return out


_T = _F = None


def _init(tools, families):
    global _T, _F
    _T, _F = tools, families


def work(arg):
    prop, seed, b, k = arg
    families = _F
    st = {'b': b, 'family': None, 'judged': 0, 'discard': 0, 'complex': 0, 'refgcc': 0, 'nontrivial': [], 'feats': {},
          'samples': [], 'bad': None, 'error': None}
    try:
        gc = gen_cases(families, prop, seed, b, k)
        st['family'] = families[gc[0][0]][0]
        cases = [g[2] for g in gc]
        idx = list(range(len(cases)))
        for _ in range(4):
            r, v = outcome(_T, [cases[i] for i in idx])
            if r.kind == 'ok':
                break
            if r.kind == 'internal':
                st['error'] = r.detail
                return st
            # find the culprits one by one
            keep = []
            for i in idx:
                r1, v1 = outcome(_T, [cases[i]])
                if r1.kind == 'refgcc':
                    st['refgcc'] += 1
                    st['error_sample'] = r1.detail + '\n' + cases[i].text
                elif r1.kind == 'reject' and harness.TOO_COMPLEX.decode() in r1.detail and cases[i].need > REG_BOUND:
                    st['complex'] += 1
                elif r1.kind in ('reject', 'asm') and r1.ref and r1.ref.get(0, ('x',))[0] != 'exit 0':
                    st['discard'] += 1
                elif r1.kind not in ('ok', 'internal'):
                    st['bad'] = {'cases': [i], 'detail': '%s: %s' % (r1.kind, r1.detail), 'family': gc[i][0]}
                    return st
                else:
                    keep.append(i)
            if len(keep) == len(idx):
                # every case is fine alone: the combination is at fault
                st['bad'] = {'cases': idx, 'detail': '%s: %s' % (r.kind, r.detail), 'family': gc[0][0]}
                return st
            idx = keep
            if not idx:
                return st
        else:
            st['error'] = 'batch did not settle'
            return st
        for n, i in enumerate(idx):
            verdict, detail = v[n]
            if verdict == 'discard':
                st['discard'] += 1
                continue
            st['judged'] += 1
            if cases[i].nontrivial:
                st['nontrivial'].append(hashlib.md5(cases[i].text.encode('latin1')).hexdigest()[:16])
            for f in cases[i].feats:
                st['feats'][f] = st['feats'].get(f, 0) + 1
            if verdict == 'diff' and st['bad'] is None:
                st['bad'] = {'cases': [i], 'detail': detail, 'family': gc[i][0], 'batch': idx}
        if b < 40 and st['judged']:
            st['samples'] = [cases[idx[0]].text]
    except Exception:
        st['error'] = traceback.format_exc()
    return st


def run_families(ck, tools, families, nbatches, batch=100, cap=300):
    """Explore nbatches batches (fewer if the time cap is reached); a confirmed violation ends the exploration."""
    t0 = time.time()

    def items():
        for b in range(nbatches):
            if time.time() - t0 >= cap:
                return
            yield ck.prop, ck.seed, b, batch
    found = False
    with contextlib.closing(workers.run(work, items(), lambda: _init(tools, families))) as results:
        for _, st, err in results:
            if err:
                ck.errors.append(err)
                continue
            ck.absorb(st)
            if st['bad'] is not None:
                found = report(ck, tools, families, st, batch)
                if found:
                    break
    ck.extra['batches_planned'] = ck.extra.get('batches_planned', 0) + nbatches
    return found


def report(ck, tools, families, st, batch):
    """Confirm, shrink and report one failing batch."""
    gc = gen_cases(families, ck.prop, ck.seed, st['b'], batch)
    sel = st['bad']['cases']
    now = time.time
    deadline = now() + ck.shrink_s

    def fails_cases(cs):
        return single_bad(tools, cs) is not None
    cases = [gc[i][2] for i in sel]
    # confirmation: three runs with a generous time limit must all fail
    for ms in (1500, 4000, 10000):
        if single_bad(tools, cases, ms) is None:
            if len(sel) == 1 and 'batch' in st['bad']:
                whole = [gc[i][2] for i in st['bad']['batch']]
                if all(single_bad(tools, whole, 4000) is not None for _ in range(3)):
                    sel = st['bad']['batch']
                    cases = whole
                    break
            ck.note('a difference did not reproduce and was dropped: ' + st['bad']['detail'])
            return False
    if len(cases) > 1:
        keep = engine.ddmin(list(range(len(cases))), lambda ix: fails_cases([cases[i] for i in ix]), deadline, now)
        sel = [sel[i] for i in keep]
        cases = [cases[i] for i in keep]
    elif len(cases) == 1:
        gen = families[gc[sel[0]][0]][1]

        def fails(ch):
            try:
                c = gen(Src(replay=ch))
            except Exception:
                return False
            return fails_cases([c])
        choices = engine.shrink_choices(gc[sel[0]][1], fails, deadline, now)
        c = gen(Src(replay=choices))
        if single_bad(tools, [c]) is not None:
            cases = [c]
    detail = single_bad(tools, cases) or st['bad']['detail']
    um, ref, extra, um2 = assemble(cases)
    ck.violation(detail, {'kind': 'program', 'program': um, 'ref': ref, 'extra': extra, 'um2': um2, 'ncases': len(cases),
                          'family': families[st['b'] % len(families)][0], 'batch': st['b']})
    return True


class Check:
    """One run of one property's check: accumulates evidence, prints the verdict."""

    def __init__(self, prop, tier, seed, level='exploration'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.feats = {}
        self.samples = []
        self.extra = {}
        self.notes = []
        self.violations = []
        self.known = []
        self.errors = []
        self.rule = ''
        self.counts = {'discarded_undefined': 0, 'discarded_too_complex': 0, 'rejected_by_gcc': 0}
        self.shrink_s = 45 if tier == 'quick' else 150

    def note(self, s):
        self.notes.append(s)
        print('note:', s, flush=True)

    def absorb(self, st):
        self.evaluations += st['judged']
        self.counts['discarded_undefined'] += st['discard']
        self.counts['discarded_too_complex'] += st['complex']
        self.counts['rejected_by_gcc'] += st['refgcc']
        self.nontrivial.update(st['nontrivial'])
        if st['refgcc'] and len(self.errors) < 3:
            self.errors.append('generated program rejected by gcc: ' + st.get('error_sample', '')[:1500])
        for k, n in st['feats'].items():
            self.feats[k] = self.feats.get(k, 0) + n
        if st['family']:
            k = 'family:' + st['family']
            self.feats[k] = self.feats.get(k, 0) + st['judged']
        if st['samples'] and len(self.samples) < 6:
            self.samples.append({'family': st['family'], 'case': st['samples'][0][:3000]})
        if st['error']:
            self.errors.append(st['error'])

    def count(self, key=None, nontrivial=True, n=1, feat=None):
        self.evaluations += n
        if nontrivial and key is not None:
            self.nontrivial.add(hashlib.md5(key if isinstance(key, bytes) else key.encode('latin1', 'replace')).hexdigest()[:16])
        if feat:
            self.feats[feat] = self.feats.get(feat, 0) + n

    def violation(self, detail, replay):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        replay = dict(replay, property=self.prop, detail=detail, seed=self.seed, tier=self.tier)
        blob = json.dumps(replay, indent=1)
        path = os.path.join(d, '%s-%s.json' % (self.prop, hashlib.md5(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob + '\n')
        self.violations.append((detail, path))
        print('violated:', detail[:1500])
        if replay.get('program'):
            t = replay['program']
            t = t[len(harness.PRELUDE):] if t.startswith(harness.PRELUDE) else t
            print('--- minimal program ---\n' + t[:4000] + '\n---', flush=True)

    def known_finding(self, text):
        self.known.append(text)
        print('KNOWN-FINDING: property=%s %s' % (self.prop, text), flush=True)

    def finish(self):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial), 'rule': self.rule,
               'samples': self.samples[:6] or ['(none)'], 'features': dict(sorted(self.feats.items())), **self.counts,
               **self.extra}
        if self.notes:
            cov['notes'] = self.notes[:20]
        if self.errors:
            cov['internal_errors'] = self.errors[:5]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations),
              'assumptions': ['gcc 13, the GNU assembler and linker of the sandbox are the reference'],
              }
        if self.known:
            cov['known_findings'] = self.known
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(p + '.tmp', p)
        if self.violations:
            for _, path in self.violations:
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('property %s held: %d cases, %d distinct non-trivial, %.0f s' % (
            self.prop, self.evaluations, len(self.nontrivial), time.time() - self.t0))
        if self.errors:
            print('internal errors: %d; first: %s' % (len(self.errors), self.errors[0][:2000]), file=sys.stderr)
        return 0
