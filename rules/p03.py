"""Process exit status contract."""
from driver import *

TECHNIQUE = 'typestate analysis along every path of the entry point and of std.exit (abstract interpretation of compiler MIR), and a call-site scan for process termination'
RULE = ('Every path of main ends by exiting with the status of its history: 1 when the command line could not be parsed, 0 for help and version, 127 when the source could not be loaded, '
        '2 with static errors, 0 when the script was only checked or its evaluation succeeded, 127 when the evaluation panicked. std.exit exits with exactly its argument and only where the path '
        'knows it to be from 0 to 255; otherwise it raises a panic. No other function of the interpreter ends the process.')
ASSUMPTIONS = ['a crash of the interpreter itself is not an exit']

ENDERS = ('std::process::exit', 'std::process::abort', 'libc::exit', 'libc::_exit', 'libc::abort', 'nix::unistd::_exit')

def check(P, R, tier):
    S = Stages(P); E = Eval(P)
    I, res, mainf = explore_main(P, S, 2 if tier == 'quick' else 3)
    seen = set()
    for st in res:
        r = records(P, S, I, st)
        code = exit_code(I, st)
        R.count('main_paths')
        if code and code[0] == 'crash': continue
        cmd = command(P, I, st)
        def bad(k, m): R.bad('main:' + k, '%s, but the process ends with %s; %s' % (m, code, fmt_path(I, st)))
        if cmd is None: bad('args', 'the command line is not parsed'); continue
        if cmd == 'error': want, why = 1, 'the command line is invalid'
        elif cmd != 'Run':
            want, why = 0, 'help or version was asked for'
            if 'Run' in cmd: bad('command', 'the kind of command is not looked at')
        elif r['load'] == 'err': want, why = 127, 'the script could not be loaded'
        elif r['load'] is None: want, why = None, 'nothing was loaded'
        elif r['syntax'] is False or r['semantic'] == 'err': want, why = 2, 'the script has static errors'
        elif r['eval'] == 'ok': want, why = 0, 'the script finished normally'
        elif r['eval'] == 'err': want, why = 127, 'the script panicked'
        elif r['eval'] is None and flag(P, I, st, 'check') == 1 and r['syntax'] is True: want, why = 0, 'the script was checked without errors'
        else: want, why = None, 'the script was %s' % ('evaluated, its outcome ignored' if r['eval'] else 'not evaluated')
        seen.add(why)
        R.count('exit_paths')
        if code != ('exit', want): bad(why, why)
    for why in ('the command line is invalid', 'help or version was asked for', 'the script could not be loaded', 'the script has static errors', 'the script finished normally', 'the script panicked', 'the script was checked without errors'):
        if why not in seen: R.bad('main:never:' + why, 'no path of main handles the case that ' + why)
    R.floor('exit_paths', 60)
    std_exit(P, R, E)
    ends(P, R, mainf)
    help_(P, R, S)

def std_exit(P, R, E):
    fn = need(natives(P).get('std.exit'), 'std.exit')
    n = 0; rejected = []
    I, res = explore_native(E, fn, lambda V: [V.sym('Int', 'a0')])
    pay = I.term(State(), I.given[0][3][0])
    i64 = P.ty_by_s['i64']
    for st in res:
        R.count('exit_function_paths')
        lo, hi = I.bounds(st, ('s', pay, i64), i64)
        if pay in st.facts: lo = hi = I.signed(st.facts[pay], i64)
        ex = [e for e in st.events() if e[0] == 'noreturn']
        def bad(k, m): R.bad('exit:' + k, 'std.exit %s; %s' % (m, fmt_path(I, st)))
        if ex:
            if ex[0][1] != 'std::process::exit': bad('crash', 'crashes (%s)' % ex[0][1]); continue
            n += 1
            if not (0 <= lo and hi <= 255): bad('range', 'exits for numbers from %d to %d, which are not all valid statuses' % (lo, hi))
            t = ex[0][2][0]
            if lo == hi and I.T.t[t][0] == 'k':
                if I.T.t[t][1][1] != lo: bad('status', 'exits with %s for %d' % (I.T.t[t][1][1], lo))
            elif not same_number(I, t, pay): bad('status', 'exits with something else than its argument (%s)' % I.show(t, 8)[:200])
        else:
            r = result_of(I, st)
            if r[0] != 'panic': bad('return', 'returns (%s)' % r[0])
            elif not (hi < 0 or lo > 255): bad('reject', 'raises a panic for numbers from %d to %d' % (lo, hi))
            rejected.append((lo, hi))
    if not n: R.bad('exit:never', 'std.exit never ends the process')
    if not rejected: R.bad('exit:accepts', 'std.exit rejects no number')

def same_number(I, t, pay, d=8):
    """conversions only"""
    if t == pay: return True
    if d <= 0: return False
    k = I.T.t[t]
    if k[0] == 'as': return same_number(I, k[1], pay, d - 1)
    if k[0] == 'call' and k[1].endswith(('::try_from', '::from', '::into', '::try_into')) and len(k[2]) == 1: return same_number(I, k[2][0], pay, d - 1)
    if k[0] in ('f', 'd', '*', '&'): return same_number(I, k[1], pay, d - 1)
    return False

def ends(P, R, mainf):
    ex = need(natives(P).get('std.exit'), 'std.exit')
    for f in P.fns:
        if not f.get('local'): continue
        for b in f['bb']:
            t = b[1]
            if t[0] != 'call' or not isinstance(t[1], dict): continue
            n = t[1].get('p') or ''
            if n.startswith(ENDERS) or n in ENDERS:
                R.count('process_ends')
                if not (f['id'] in (mainf['id'], ex['id']) or only_from(P, f['id'], {mainf['id'], ex['id']})):
                    R.bad('ends:%s' % f['n'], '%s (line %s) ends the process (%s)' % (f['n'], b[2], n))
    R.floor('process_ends', 2)

def help_(P, R, S):
    """help and version are not errors; everything else clap rejects is"""
    for fid in S.ids['args']:
        f = P.fns[fid]
        I = Interp(P, opaque=lambda g: g.get('krate') not in (None, 'hush'), max_visits=2)
        for st in I.run(f, [I.sym(f['locals'][i], 'arg', ('n', i)) for i in range(1, f['args'] + 1)]):
            if st.end != 'return': continue
            R.count('command_line_paths')
            parsed = None
            for k, v in st.facts.items():
                x = I.T.t[k]
                if x[0] == 'disc' and I.T.t[x[1]][0] == 'call' and 'get_matches' in I.T.t[x[1]][1]: parsed = v
            if parsed == 1 and is_variant(I, st.ret, 'Ok') and vname(I, st.ret[3][0]) == 'Run': R.bad('args:run', 'a rejected command line runs a script: %s' % fmt_path(I, st))
            if parsed == 0 and is_variant(I, st.ret, 'Err'): R.bad('args:err', 'an accepted command line is rejected: %s' % fmt_path(I, st))
            if parsed == 0 and is_variant(I, st.ret, 'Ok') and vname(I, st.ret[3][0]) != 'Run': R.bad('args:norun', 'an accepted command line does not run a script: %s' % fmt_path(I, st))
