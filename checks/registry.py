"""Which families and oracles decide which property."""
import importlib
import json
import os

import batch
import findings
import harness
import fam_rename, fam_fuzz, fam_prog, fam_call, fam_ctrl, fam_data, fam_decl, fam_expr, fam_link, fam_big, fam_path, fam_tags

THOROUGH = 12.0

# property -> (families, batches of 100 cases at quick, rule)
DIFF = {
    'P01': ([f for g in fam_fuzz.ALL for f in (fam_prog.PROG[0], g)], 500, 'random whole programs mixing every supported feature (types, globals, functions, structs, arrays, pointers, nested control flow, calls), alternating with every focused family; all state is dumped; non-trivial: defined result'),
    'P02': (fam_expr.EXPR, 440, 'random typed expression trees over variables of every integer type and storage form; non-trivial: at least one operator applied and a defined result'),
    'P03': (fam_expr.ASSIGN, 400, 'random simple/compound assignments and ++/-- on every lvalue form, all objects dumped afterwards; non-trivial: at least one store and a defined result'),
    'P04': (fam_ctrl.CTRL, 400, 'random structured statement nests with trace points; non-trivial: terminates within its fuel with a defined result'),
    'P05': (fam_call.CALL, 380, 'random functions and call graphs, in both directions across the umlcc/gcc boundary; non-trivial: at least one call with a defined result'),
    'P06': (fam_call.PRESS, 360, 'expressions and calls that keep many values live; non-trivial: defined result'),
    'P07': (fam_data.PTR + fam_path.PATHP * 2, 500, 'random pointer and array walks, algorithms, casts, and access paths through random derived types; non-trivial: defined result'),
    'P08': (fam_data.STRUCT + fam_path.PATHS, 440, 'random struct types compared member by member with gcc and across the gcc boundary; non-trivial: defined result'),
    'P09': (fam_data.INIT, 400, 'random initialisers of scalars, arrays and structs, local and global; non-trivial: defined result'),
    'P10': (fam_decl.SCOPE + fam_tags.TAGSF + [('scope_rename', fam_rename.scope_rename)] * 2, 380, 'random nests of scopes reusing a small pool of names, and consistent renamings of random programs of every family to odd names, compared with the original program; non-trivial: defined result'),
    'P11': (fam_decl.LIT, 360, 'random spellings of integer, character and string constants; non-trivial: defined result'),
    'P12': (fam_decl.PREC, 380, 'random operator trees printed with minimal parentheses and random declarators; non-trivial: defined result'),
    'P17': (fam_link.LINK, 400, 'random pairs of translation units: globals, functions and strings shared between two umlcc objects and a gcc object, and file-scope names that mean something to the assembler; non-trivial: defined result'),
    'P19': (fam_big.BIG, 1700, 'programs that are large in one dimension (locals, frames, globals, functions, names, strings, enumerators, members, cases, operands, nesting, arguments, initialisers, typedef chains, statements), sizes around powers of two up to a few thousand; non-trivial: defined result'),
}
SIZE = {'P01': 50, 'P19': 4}

OTHER = {'P13': 'layout', 'P14': 'robust', 'P15': 'reject', 'P16': 'cli', 'P18': 'containers', 'P20': 'beyond'}


def run(ck, scale):
    findings.run(ck)
    if ck.prop in DIFF:
        fams, n, rule = DIFF[ck.prop]
        ck.rule = rule
        tools = harness.Tools()
        batch.run_families(ck, tools, fams, int(n * scale), SIZE.get(ck.prop, 100), cap=300 if ck.tier == 'quick' else 3600)
        return
    if ck.prop in OTHER:
        importlib.import_module(OTHER[ck.prop]).run(ck, scale)
        return
    raise SystemExit('unknown property ' + str(ck.prop))


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if r['kind'] == 'program':
        tools = harness.Tools()
        res = harness.run_program(tools, r['program'], ref_text=r.get('ref'), extra_c=r.get('extra'), um2=r.get('um2'))
        bad = None
        if res.kind not in ('ok', 'refgcc', 'internal'):
            bad = '%s: %s' % (res.kind, res.detail)
        elif res.kind == 'ok':
            for i in sorted(res.ref):
                if res.ref[i][0] == 'exit 0' and res.um.get(i) != res.ref[i]:
                    bad = 'case %d: %s' % (i, batch.explain(res.um.get(i), res.ref[i]))
                    break
    else:
        bad = importlib.import_module(r['module']).replay(r)
    if bad:
        print(bad)
        print('VIOLATION property=%s replay=%s' % (r['property'], os.path.abspath(path)))
        return 1
    print('the recorded case does not fail on this tree')
    return 0
