"""Choice-sequence property-based testing engine: every random decision of a generator is one recorded
integer, so a failing case is shrunk by editing the recorded integers and re-running the generator."""
import random


class Src:
    """Source of choices.  draw(n) is uniform in [0, n); 0 is by convention the simplest choice."""

    def __init__(self, rng=None, replay=None, limit=60000):
        self.rng = rng
        self.replay = replay
        self.log = []
        self.limit = limit

    def draw(self, n):
        if n <= 1:
            return 0
        i = len(self.log)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = v if v < n else v % n
        else:
            v = self.rng.randrange(n) if i < self.limit else 0
        self.log.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def bool(self, num=1, den=2):
        """True with probability num/den; False is simplest."""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)], the first is simplest."""
        t = sum(w for w, _ in pairs)
        k = self.draw(t)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def small(self, hi):
        """0..hi skewed to small values, with the extremes reachable."""
        k = self.draw(8)
        if k < 5:
            return self.draw(min(hi, 3) + 1)
        if k < 7:
            return self.draw(hi + 1)
        return hi - self.draw(min(hi, 2) + 1)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


def rng_for(*key):
    return random.Random('/'.join(str(k) for k in key))


def shrink_choices(choices, fails, deadline, now):
    """Greedy minimisation of a choice list under predicate fails(choices) -> bool."""
    cur = list(choices)

    def attempt(c):
        nonlocal cur
        if c == cur or now() > deadline:
            return False
        if fails(c):
            cur = c
            return True
        return False

    # truncate
    n = len(cur)
    while n > 0 and now() < deadline:
        n //= 2
        if not attempt(cur[:n]):
            break
    changed = True
    while changed and now() < deadline:
        changed = False
        size = max(1, len(cur) // 2)
        while size >= 1 and now() < deadline:
            i = 0
            while i < len(cur) and now() < deadline:
                if attempt(cur[:i] + cur[i + size:]):
                    changed = True
                    continue
                if any(cur[i:i + size]) and attempt(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                    changed = True
                i += size
            size //= 2
        for i in range(len(cur)):
            if now() > deadline:
                break
            v = cur[i]
            while v > 0:
                nv = v // 2
                if attempt(cur[:i] + [nv] + cur[i + 1:]):
                    v = nv
                    changed = True
                elif attempt(cur[:i] + [v - 1] + cur[i + 1:]):
                    v -= 1
                    changed = True
                else:
                    break
    return cur


def ddmin(items, fails, deadline, now):
    """Smallest sublist (greedy) for which fails(sublist) still holds."""
    cur = list(items)
    n = 2
    while len(cur) > 1 and now() < deadline:
        size = max(1, len(cur) // n)
        hit = False
        for i in range(0, len(cur), size):
            if now() > deadline:
                break
            part = cur[:i] + cur[i + size:]
            if part and fails(part):
                cur = part
                n = max(2, n - 1)
                hit = True
                break
        if not hit:
            if size == 1:
                break
            n = min(len(cur), n * 2)
    return cur
