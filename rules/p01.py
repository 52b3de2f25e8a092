"""A script with static errors, or one only being checked, never starts running."""
from driver import *

TECHNIQUE = 'typestate analysis (load, parse, analyse, evaluate) along every path of the entry point and of std.import, with call-graph confinement of evaluation'
RULE = ('On every path of main and of std.import, a program is evaluated only after the syntax analysis of its source is known to have no errors and its semantic analysis '
        'succeeded, each stage working on the outcome of the one before, and in main only when --check is known to be off; with static errors the process exits with status 2 (an import raises a panic), with --check and no errors with 0. '
        'Semantic analysis succeeds only with an empty list of errors and the block it analysed. No other function evaluates a program.')
ASSUMPTIONS = ['clap reports the presence of a flag faithfully']

def check(P, R, tier):
    S = Stages(P); E = Eval(P)
    I, res, mainf = explore_main(P, S, 2 if tier == 'quick' else 3)
    ran = checked = 0
    for st in res:
        r = records(P, S, I, st)
        R.count('main_paths')
        def bad(k, m): R.bad('main:' + k, '%s; exit %s; %s' % (m, code, fmt_path(I, st)))
        code = exit_code(I, st)
        linked(P, S, I, st, r, bad)
        if code and code[0] == 'crash': continue
        if r['eval'] is not None:
            ran += 1
            if r['syntax'] is not True: bad('syntax', 'a script is run although its syntax analysis is not known to be free of errors')
            if r['semantic'] != 'ok': bad('semantic', 'a script is run although its semantic analysis did not succeed')
            if flag(P, I, st, 'check') != 0: bad('check', 'a script is run although it was only to be checked')
        elif r['syntax'] is not None or r['semantic'] is not None:
            if r['syntax'] is False or r['semantic'] == 'err':
                R.count('static_error_paths')
                if code != ('exit', 2): bad('status', 'a script with static errors does not end with the static error status')
            elif r['semantic'] == 'ok' and r['syntax'] is True and flag(P, I, st, 'check') == 1:
                checked += 1
                if code != ('exit', 0): bad('checkok', 'checking a script without errors does not end with success')
            elif r['semantic'] == 'ok' and r['syntax'] is True: bad('notrun', 'a script without errors is not run')
            elif r['semantic'] is None and r['syntax'] is True: bad('nosemantic', 'a script is not analysed semantically')
    if not ran: R.bad('main:never', 'no path of main runs a script')
    if not checked: R.bad('main:nocheck', 'no path of main only checks a script')
    R.floor('main_paths', 40); R.floor('static_error_paths', 10)
    I, res, imp = explore_import(P, S, E)
    n = 0
    for st in res:
        r = records(P, S, I, st)
        R.count('import_paths')
        def bad(k, m): R.bad('import:' + k, 'std.import: %s; %s' % (m, fmt_path(I, st)))
        if st.end != 'return': continue
        linked(P, S, I, st, r, bad)
        o = result_of(I, st)
        if r['eval'] is not None:
            n += 1
            if r['syntax'] is not True: bad('syntax', 'a module is run although its syntax analysis is not known to be free of errors')
            if r['semantic'] != 'ok': bad('semantic', 'a module is run although its semantic analysis did not succeed')
        elif r['syntax'] is False or r['semantic'] == 'err':
            R.count('failed_imports')
            if o[0] != 'panic': bad('status', 'importing a module with static errors does not raise a panic')
    if not n: R.bad('import:never', 'std.import never evaluates a module')
    R.floor('failed_imports', 2)
    # nobody else evaluates programs
    cs = callers(P)
    for i in S.ids['eval']:
        for c in cs.get(i, ()):
            f = P.fns[c]
            if not f.get('local'): continue
            R.count('evaluation_call_sites')
            if not only_from(P, c, {mainf['id'], imp['id']}) and c not in (mainf['id'], imp['id']):
                R.bad('other:%s' % f['n'], '%s evaluates a program outside of main and std.import' % f['n'])
    semantic_ok(P, R, S)
    flags(P, R, S)

def semantic_ok(P, R, S):
    """semantic analysis yields a program only without errors"""
    for fid in S.ids['semantic']:
        f = P.fns[fid]
        # the analysis of statements, by its type
        T = lambda i: tnorm(P.types[i]['s'])
        inner = {g['id'] for g in P.fns if g.get('local') and g['kind'] == 'item' and g['args'] == 2 and T(g['locals'][1]).startswith('&mut semantic::Analyzer') and 'Option<' in T(g['locals'][0])}
        need(inner, 'analysis of a block')
        I = Interp(P, opaque=lambda g: '::fmt' in g['n'] or g['id'] in inner, max_visits=3)
        res = [s for s in I.run(f, [I.sym(f['locals'][i], 'arg', ('n', i)) for i in range(1, f['args'] + 1)]) if s.end == 'return']
        errs = set()
        for st in res:
            R.count('semantic_paths')
            if is_variant(I, st.ret, 'Err'):
                v = st.ret[3][0]
                while v[0] == 'a' and isinstance(v[2], int) and len(v[3]) == 1: v = v[3][0]
                if v[0] == 'a' and v[2] == 'vec': continue
                errs.add(I.term(st, v))
        oks = 0
        for st in res:
            if not is_variant(I, st.ret, 'Ok'): continue
            oks += 1
            known = any(empty_of(I, st, e) for e in errs) or any(empty_of(I, st, I.mk('f', e, ('n', 0))) for e in errs)
            if not known: R.bad('semantic:errors', 'semantic analysis gives a program although its list of errors is not known to be empty: %s' % fmt_path(I, st))
            calls = [e for e in st.events() if e[0] == 'call' and e[7].get('id') in inner]
            if not any(mentions(I, I.term(st, st.ret, 14), e[4]) for e in calls): R.bad('semantic:block', 'the program given by semantic analysis is not the one analysed: %s' % fmt_path(I, st))
        if not oks: R.bad('semantic:never', 'semantic analysis never gives a program')
        if not errs: R.bad('semantic:none', 'semantic analysis never gives its errors')

def flags(P, R, S):
    """the check flag is the command line's"""
    at = ty(P, 'args::Args')
    names = [f[0] for f in P.types[at]['v'][0]['f']]
    for fid in S.ids['args']:
        f = P.fns[fid]
        I = Interp(P, opaque=lambda g: g.get('krate') not in (None, 'hush'), max_visits=2)
        n = 0
        for st in I.run(f, [I.sym(f['locals'][i], 'arg', ('n', i)) for i in range(1, f['args'] + 1)]):
            if st.end != 'return' or not is_variant(I, st.ret, 'Ok') or vname(I, st.ret[3][0]) != 'Run': continue
            a = st.ret[3][0][3][0]
            if a[0] != 'a' or a[1] != at: continue
            n += 1
            b = find_bytes(I, I.term(st, a[3][names.index('check')], 10), 10)
            R.count('flag_paths')
            if b'check' not in b: R.bad('flag:check', 'the check flag does not come from --check: %s' % I.show(I.term(st, a[3][names.index('check')]), 8)[:300])
        if not n: R.notes.append('command line parsing not resolved')
