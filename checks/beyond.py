"""P20: a program outside the supported subset is refused with a diagnostic or compiled correctly, never miscompiled."""
import batch
import fam_beyond
import harness
import textcheck
from engine import Src, rng_for

PER = 60


def prejudge(exe, cases):
    """-> list of None (refused), 'accepted' or a violation"""
    rs = harness.fork_many(exe, [(harness.PRELUDE + c.at(0)).encode('latin1', 'replace') for c in cases])
    out = []
    for st, ms, err, asm in rs:
        if st == '0':
            out.append('accepted')
        elif st == '1':
            out.append(None if err.strip() and asm is None else 'refused without a diagnostic, or with an output file')
        elif st in ('lost', 'timeout'):
            out.append(None)
        else:
            out.append('umlcc ended with status %s' % st)
    return out


def judge_accepted(tools, c):
    """the program is accepted: gcc must accept it too (else it is judged elsewhere) and agree"""
    r, v = batch.outcome(tools, [c])
    if r.kind in ('refgcc', 'internal', 'reject'):
        return None
    if r.kind in ('crash', 'hang'):
        return '%s: %s' % (r.kind, r.detail)
    if r.kind == 'ok' and v[0][0] != 'diff':
        return None
    if not harness.well_defined(harness.PRELUDE + c.at(0), (r.ref or {}).get(0)):
        return None
    return v[0][1] if r.kind == 'ok' else '%s: %s' % (r.kind, r.detail)


def bad_of(exe, tools, c):
    p = prejudge(exe, [c])[0]
    return judge_accepted(tools, c) if p == 'accepted' else p


def run(ck, scale):
    exe = harness.build_forkrun(False)
    tools = harness.Tools()
    n = int(1200 * scale)
    ck.rule = ('valid random programs decorated with one thing outside the subset (directives, comments, splices, digraphs, qualifiers, other types, other statements), and one of %d program shapes at and beyond the border of the supported language, with random numbers, in a random context and sometimes below a whole random program: refused, or '
               'the same output as gcc; non-trivial: distinct program') % len(fam_beyond.SH)

    def work(b):
        cs = [fam_beyond.case(Src(rng_for(ck.prop, ck.seed, b, j))) for j in range(PER)]
        pre = prejudge(exe, cs)
        acc = [j for j in range(PER) if pre[j] == 'accepted']
        out = [[c.text, p if p != 'accepted' else None, p is not None] for c, p in zip(cs, pre)]
        r, v = batch.outcome(tools, [cs[j] for j in acc]) if acc else (None, {})
        if acc and r.kind == 'ok':
            for k, j in enumerate(acc):
                if v[k][0] == 'diff':
                    out[j][1] = judge_accepted(tools, cs[j])
        else:
            for j in acc:
                out[j][1] = judge_accepted(tools, cs[j])
        return out

    for b, rs in textcheck.pmap(ck, work, n, 300 if ck.tier == 'quick' else 3600):
        for j, (text, bad, acc) in enumerate(rs):
            ck.count(text, True, feat='accepted' if acc else 'refused')
            if bad is None:
                continue
            c, log = textcheck.gen(ck.prop, ck.seed, b, j, fam_beyond.case)
            if not all(bad_of(exe, tools, c) for _ in range(2)):
                ck.note('did not reproduce and was dropped: ' + bad)
                continue
            c = textcheck.shrink(fam_beyond.case, log, lambda x: bad_of(exe, tools, x) is not None, ck.shrink_s)
            bad = bad_of(exe, tools, c)
            ck.violation(bad, {'kind': 'text', 'module': 'beyond', 'program': c.text})
            return
        if len(ck.samples) < 6:
            ck.samples.append({'program': rs[0][0][-900:], 'accepted': rs[0][2]})


def replay(r):
    return bad_of(harness.build_forkrun(False), harness.Tools(), batch.Case(r['program']))
