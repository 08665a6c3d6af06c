"""Metamorphic family: consistent renaming of every identifier of a generated program."""
import re

import fam_prog
from batch import Case
from fam_fuzz import ALL, KEYWORDS

WORD = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|@?[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d\w*', re.S)
DRIVER = re.compile(r'(put|id|call)_\w+$|tr[lc]?$|big_area$')
BASES = ['x', 'foo', 'int_', 'If', 'whil', 'whilee', 'sizeof_', 'returned', 'breaks', 'case1', 'chars', 'structure', 'enumeration', 'voids', 'longs', 'typedefs', 'fore', 'elses', 'defaults', '_',
         '__', 'O0', 'lI1', 'switch_', 'unsigned_', 'in', 'INT', 'Int', 'eax', 'rax', 'L', 'L0', 'SL0', 'continue_', 'i', 'ii', 'iii', 'u', 'l', 'ul', 'x0', '_0', 'NULL_', 'e', 'E', 'string', 'main_', 'a', 'b', 'Z9']


def names(src, n):
    """n distinct identifiers of one odd style"""
    k = src.draw(6)
    out = []
    if k == 0:
        out = src.shuffle(BASES)
    elif k == 1:      # long common prefix
        p = src.choice(['p', 'q_', 'Verylong', '_']) * src.choice([1, 7, 8, 15, 31, 32, 63, 64, 100])
        out = [p + '%d' % i for i in range(n)]
    elif k == 2:      # long common suffix
        p = src.choice(['p', 'Name', '_0']) * src.choice([1, 8, 31, 64])
        out = ['%s%s' % (chr(97 + i % 26) * (1 + i // 26), p) for i in range(n)]
    elif k == 3:      # anagrams (equal sums of characters), case variants
        w = src.choice(['abcdef', 'xyzzy0', 'AbCdE1', 'lmnopq'])
        seen = set()
        i = 0
        while len(seen) < n:
            i += 1
            c = ''.join(src.shuffle(w)) if i < 4 * n + 50 else w + '_%d' % i
            if c[0].isdigit() or c in seen:
                continue
            seen.add(c)
            out.append(c)
    elif k == 4:      # each a prefix of the next
        out = [src.choice(['a', 'b', '_'])]
        while len(out) < n:
            out.append(out[-1] + 'a_0Z9'[len(out) % 5])
    else:
        out = ['%s%s' % (src.choice(BASES), i) for i in range(n)]
    i = 0
    res = []
    for x in out:
        if x not in res and x not in KEYWORDS:
            res.append(x)
    while len(res) < n:
        i += 1
        res.append('n%d_%d' % (src.draw(9), i))
    return res[:n]


def rename(src, text):
    ids = []
    for m in WORD.finditer(text):
        w = m.group(0)
        if w[0] in '"\'' or w[0].isdigit() or w in KEYWORDS or w == '@main' or DRIVER.match(w):
            continue
        if w not in ids:
            ids.append(w)
    new = names(src, len(ids))
    # names with the case prefix are external: they keep it, in front or at the end
    mp = {}
    for w, x in zip(ids, new):
        mp[w] = ('@' + x if src.bool() else 'x' + x + '_@z') if w[0] == '@' else x
    if len(set(mp.values())) != len(mp):
        return text
    return WORD.sub(lambda m: mp.get(m.group(0), m.group(0)), text)


def scope_rename(src):
    k = src.draw(len(ALL) + 8)
    c = ALL[k][1](src) if k < len(ALL) else fam_prog.prog_mixed(src)
    if c.extra is not None or c.um2 is not None or c.ref is not None or '@{' in c.text:
        return c
    return Case(rename(src, c.text), ref=c.text, need=c.need, nontrivial=c.nontrivial, feats=['renamed'])
