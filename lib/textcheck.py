"""Checks that feed texts to umlcc in bulk (no reference program): parallel map over generated groups of inputs,
confirmation and shrinking."""
import contextlib
import time

import engine
import workers
from engine import Src, rng_for

def pmap(ck, fn, n, cap):
    """Yield (b, fn(b)) for b < n from a process pool until the time cap."""
    t0 = time.time()

    def items():
        for b in range(n):
            if time.time() - t0 >= cap:
                return
            yield b
    with contextlib.closing(workers.run(fn, items())) as results:
        for b, r, err in results:
            if err:
                ck.errors.append(err)
                continue
            yield b, r


def gen(prop, seed, b, j, g):
    src = Src(rng_for(prop, seed, b, j))
    return g(src), src.log


def shrink(g, log, fails, seconds):
    """-> the generated value of the smallest failing choice list found"""
    deadline = time.time() + seconds

    def f(ch):
        try:
            return fails(g(Src(replay=ch)))
        except Exception:
            return False
    ch = engine.shrink_choices(log, f, deadline, time.time)
    return g(Src(replay=ch))


def shrink_bytes(text, fails, seconds):
    """ddmin over lines, then tokens, then bytes"""
    deadline = time.time() + seconds
    for split, join in ((lambda t: t.splitlines(True), b''.join), (lambda t: [t[i:i + 1] for i in range(len(t))], b''.join)):
        parts = split(text)
        if len(parts) > 1:
            parts = engine.ddmin(parts, lambda ps: fails(join(ps)), deadline, time.time)
            text = join(parts)
    return text
