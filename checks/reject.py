"""P15: an ill-formed program is diagnosed (exit status 1, a message, no output); the same program without the fault is accepted."""
import fam_fault
import harness
import textcheck
from engine import Src, rng_for

PER = 60


def judge(exe, f, many=None):
    rb, rg = many or harness.fork_many(exe, [f.bad.encode('latin1'), f.good.encode('latin1')])
    if rb[0] in ('lost', 'timeout') or rg[0] in ('lost', 'timeout'):
        return None
    if rb[0] == '0':
        return 'an ill-formed program (%s) is accepted' % f.cat
    if rb[0] != '1':
        return 'an ill-formed program (%s) makes umlcc end with status %s' % (f.cat, rb[0])
    if not rb[2].strip():
        return 'an ill-formed program (%s) is rejected without a diagnostic' % f.cat
    if rb[3] is not None:
        return 'an ill-formed program (%s) is rejected but an output file is written' % f.cat
    if rg[0] != '0' and harness.TOO_COMPLEX not in rg[2]:
        return 'the well-formed counterpart (%s) is not accepted: status %s, %s' % (f.cat, rg[0], rg[2].decode(errors='replace')[-200:])
    return None


def run(ck, scale):
    exe = harness.build_forkrun(False)
    fams = fam_fault.FAULTS
    n = int(16 * 100 * scale)
    ck.rule = ('valid program with exactly one injected violation of a syntax rule or constraint, in a random position, plus its counterpart without the fault; '
               'non-trivial: distinct ill-formed program whose counterpart is accepted')

    def work(b):
        g = fams[b % len(fams)]
        fs = [g[1](Src(rng_for(ck.prop, ck.seed, b, j))) for j in range(PER)]
        rs = harness.fork_many(exe, [x.encode('latin1') for f in fs for x in (f.bad, f.good)])
        return [(f.cat, f.bad, judge(exe, f, (rs[2 * j], rs[2 * j + 1]))) for j, f in enumerate(fs)]

    for b, rs in textcheck.pmap(ck, work, n, 300 if ck.tier == 'quick' else 3600):
        g = fams[b % len(fams)][1]
        for j, (cat, bad, verdict) in enumerate(rs):
            ck.count(bad, True, feat=cat)
            if verdict is None:
                continue
            f, log = textcheck.gen(ck.prop, ck.seed, b, j, g)
            if not all(judge(exe, f) for _ in range(3)):
                ck.note('did not reproduce and was dropped: ' + verdict)
                continue
            f = textcheck.shrink(g, log, lambda x: judge(exe, x) is not None, ck.shrink_s)
            verdict = judge(exe, f)
            print('--- ill-formed:\n%s\n--- counterpart:\n%s\n---' % (f.bad[-2500:], f.good[-2500:]))
            ck.violation(verdict, {'kind': 'text', 'module': 'reject', 'cat': f.cat, 'bad': f.bad, 'good': f.good})
            return
        if len(ck.samples) < 6:
            ck.samples.append({'category': rs[0][0], 'ill-formed program': rs[0][1][-900:]})


def replay(r):
    return judge(harness.build_forkrun(False), fam_fault.Fault(r['cat'], r['bad'], r['good']))
