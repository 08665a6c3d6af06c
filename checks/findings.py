"""Known findings: defects of umlcc that are recorded, not repaired.  known_findings.txt lists them, one specific program
each (findings/*.c, with the '@' prefix convention of the generated cases); the generators leave these shapes out."""
import os

import batch
import harness

LIST = os.path.join(harness.VERIF, 'known_findings.txt')


def entries():
    out = []
    if os.path.exists(LIST):
        with open(LIST) as f:
            for line in f:
                if line.startswith('known: '):
                    _, prop, path, what = line.rstrip('\n').split(' ', 3)
                    out.append((prop.split('=', 1)[1], path.split('=', 1)[1], what))
    return out


def run(ck):
    todo = [e for e in entries() if e[0] == ck.prop]
    if not todo:
        return
    tools = harness.Tools()
    for _, path, what in todo:
        with open(os.path.join(harness.VERIF, path)) as f:
            text = f.read()
        bad = batch.single_bad(tools, [batch.Case(text)])
        if bad is not None:
            ck.known_finding('%s (%s)' % (what, path))
        else:
            ck.note('the recorded finding %s does not fail on this tree' % path)
