"""Panics are never swallowed."""
from linear import *
from evalspec import *

TECHNIQUE = 'linear-use (ownership) analysis of panic values, with path-sensitive dataflow for std.catch and the evaluator'
RULE = ('Ownership analysis of every function that handles a panic value (of the script or of a command): on no path is a panic that was '
        'received from elsewhere dropped, consumed by foreign code, unwrapped or flattened away; the only functions allowed to consume one '
        'are std.catch, which must turn exactly a panic into an error value, and the entry point of the process. In the evaluator, a panic of '
        'a sub-expression is the outcome of the node.')
ASSUMPTIONS = ['unwinding paths (a crash of the interpreter itself) are not followed']

PANICS = ('runtime::panic::Panic', 'runtime::command::exec::error::Panic')

def check(P, R, tier):
    for n in PANICS: need(ty(P, n), n)
    L = Linear(P, PANICS)
    nat = natives(P)
    catch = need(nat.get('std.catch'), 'std.catch')
    mains = [f for f in P.fns if f.get('local') and f['n'] in ('main', 'run')]
    need(mains, 'entry point')
    allowed = {catch['id']} | {f['id'] for f in mains}
    fns = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and (f.get('trait') or '') not in ('std::fmt::Debug', 'std::fmt::Display') and any(L.mentions(l) for l in f['locals'])]
    def sw(f, I, st, v, ti, fr, line, how):
        if only_from(P, f['id'], allowed): return
        w = 'discards' if isinstance(how, str) else 'hands to %s' % how.name
        R.bad('swallow:%s' % f['n'], '%s %s a panic it received (a %s, at %s:%s); %s' % (f['n'], w, P.types[ti]['s'], f['file'] if fr.get('local') else fr['n'], line, fmt_path(I, st)))
    analyse(P, L, fns, sw, R, max_visits=2 if tier == 'quick' else 3)
    R.floor('functions_analysed', 150)
    R.floor('paths', 1000)
    # results iterated over or flattened lose their error
    for f in P.fns:
        for l in f['locals']:
            t = P.types[l]
            s = (t.get('p') or t['s'].split('<')[0]) if t else ''
            if s.endswith(('result::IntoIter', 'result::Iter', 'adapters::Flatten', 'adapters::FlatMap', 'iter::Flatten', 'iter::FlatMap')):
                R.count('flattening_adapters')
                if any(p in t['s'] for p in PANICS) and ('result::' in s or re_result(P, t)):
                    R.bad('flatten:%s' % f['n'], '%s iterates over results, dropping their panics: %s' % (f['n'], t['s'][:200]))
    catching(P, R, catch)
    evaluator(P, R)

def re_result(P, t):
    """does the adapter flatten results holding a panic (as opposed to yielding them)?"""
    for a in t.get('a') or []:
        if not isinstance(a, int): continue
        x = P.types[a]
        if x and x['s'].startswith('std::result::Result<') and any(p in x['s'] for p in PANICS): return True
        if x and re_result(P, x): return True
    return False

def catching(P, R, fn):
    E = Eval(P)
    def step(I, st, c):
        if c.info.get('id') in E.call_fns: return E.step_result(I, st, c, 'call', I.term(st, c.args[2]))
        return ident_copy(I, st, c)
    I = Interp(P, hooks=[step], opaque=lambda f: '::fmt' in f['n'])
    res = I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)])
    caught = passed = 0
    for st in res:
        if st.end in ('infeasible', 'cut'): continue
        R.count('catch_paths')
        ev = [e for e in st.events() if e[0] == 'eval']
        if not ev: continue
        if len(ev) > 1: R.bad('catch:twice', 'std.catch can call the function more than once: %s' % fmt_path(I, st)); continue
        tm = ev[0][3]
        oc = E.step_outcome(I, st, tm, 'call')
        if st.end != 'return': R.bad('catch:crash', 'std.catch ends with %s after the call: %s' % (st.end, fmt_path(I, st))); continue
        r = st.ret
        if oc == 'panic':
            caught += 1
            if not is_variant(I, r, 'Ok') or vname(I, r[3][0]) != 'Error': R.bad('catch:error', 'std.catch does not turn a panic into an error: %s' % fmt_path(I, st))
        elif oc == 'ok':
            passed += 1
            okt = I.mk('f', I.mk('d', tm, ('n', 0)), ('n', 0))
            if not (is_variant(I, r, 'Ok') and I.term(st, r[3][0]) == okt): R.bad('catch:value', 'std.catch does not give the result of a function that returns: %s' % fmt_path(I, st))
        elif oc is None and r[0] == 's' and r[1] == tm: R.bad('catch:error', 'std.catch hands on the panic of the function')
    if not caught: R.bad('catch:none', 'std.catch catches no panic')
    if not passed: R.bad('catch:nothrough', 'std.catch does not pass a result on')

def evaluator(P, R):
    E = Eval(P)
    for s in scenarios(E):
        I, res = explore(E, s)
        for st in res:
            if st.end in ('infeasible', 'cut'): continue
            for nm, kind, tm, oc in history(E, I, s, st):
                if oc != 'panic': continue
                R.count('panicking_steps')
                o = E.outcome(I, st, s.kind)
                if o[0] == 'result' and o[1][0] == 's' and o[1][1] == tm: continue
                if o[0] != 'panic' or I.term(st, o[1]) != I.mk('f', I.mk('d', tm, ('n', 1)), ('n', 0)):
                    R.bad('eval:%s:%s' % (s.label, nm), 'evaluating %s: a panic of %s is not the panic of the whole: %s' % (s.label, nm, fmt_path(I, st)))
    R.floor('panicking_steps', 40)
