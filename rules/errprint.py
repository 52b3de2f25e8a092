"""Errors found are also shown: the lists of errors are printed whole, and the entry point prints them."""
from driver import *
from p34 import Printing, based, printed, failed
from values import *

def lists(P, R, tier):
    X = Printing(P, R)
    tis = [t for (t, mode) in X.fns if mode == 'context' and P.types[t]['s'] in ('syntax::error::Errors', 'semantic::error::Errors')]
    if len(tis) != 2: R.bad('print:types', 'the printing of the lists of errors was not found'); return
    for ti in tis:
        fn = X.fns[(ti, 'context')]
        nm = P.types[ti]['s']; el = nm[:-1]
        ct = fn['locals'][3]
        fs = P.types[ct]['v'][0]['f']
        for n, mx in ((0, 20), (1, 20), (2, 20), (4, 20), (3, None), (3, 2), (4, 2), (2, 2)):
            n += 2 if tier == 'thorough' and n == 4 and mx == 20 else 0
            def build(V):
                V.els = tuple(('s', V.I.mk('error', ('n', i)), ty(P, el)) for i in range(n))
                return V.chain(ti, 'errs', lambda t: ('a', t, 'vec', V.els))
            pr_ctx = []
            def ctx(I):
                vals = []
                for fname, fti in fs:
                    if fname == 'max_errors': vals.append(('a', fti, 0, ()) if mx is None else ('a', fti, 1, (('k', mx, P.ty_by_s['usize']),)))
                    else: vals.append(('s', I.mk('ctx', fname), fti))
                return ('a', ct, 0, tuple(vals))
            I, res = run(X, ti, build, (el,), ctx)
            want = [I.mk('error', ('n', i)) for i in range(n)]
            for st in res:
                if st.end in ('cut', 'infeasible') or failed(I, st): continue
                def bad(k, m): R.bad('print:%s:%s' % (k, nm), 'printing %d errors of %s%s: %s; %s' % (n, nm, ' with at most %d' % mx if mx is not None else '', m, fmt_path(I, st)))
                if st.end != 'return': bad('crash', 'the interpreter crashes'); continue
                R.count('error_lists')
                ps = printed(P, st)
                got = []; last = -1
                for j, p in enumerate(ps):
                    if isinstance(p, bytes): continue
                    for i, w in enumerate(want):
                        if p[0].lstrip('&') == el and based(I, I.term(st, p[-1]), w): got.append(i); last = j
                least = n if mx is None else min(n, mx)
                if got != list(range(len(got))) or len(got) < least: bad('lost', 'those printed are %s' % (', '.join('number %d' % (i + 1) for i in got) or 'none'))
                elif len(got) < n and not any((not isinstance(p, bytes)) or p.strip() for p in ps[last + 1:]): bad('silent', 'the others are left out without notice')
    R.floor('error_lists', 16)

def X_peel(P, t):
    while P.types[t]['k'] == 'ref': t = P.types[t]['to']
    return t

def run(X, ti, build, leaf, ctx):
    P = X.P
    from fmtlib import Printer
    import maps
    fn = X.fns[(ti, 'context')]
    pr = Printer(P)
    pr.leaf = lambda t, I, st: P.types[t]['s'] in leaf
    I = Interp(P, hooks=[pr.hook, maps.maps, ident_copy], max_visits=9, max_depth=30)
    v = build(Vals(P, I)); t = fn['locals'][1]; n = 0
    while P.types[t]['k'] == 'ref':
        I.const_mem[('n', 'obj%d' % n)] = v; v = ('r', ('n', 'obj%d' % n), ()); n += 1; t = P.types[t]['to']
    return I, I.run(fn, [v, ('s', I.mk('arg', ('n', 2)), fn['locals'][2]), ctx(I)])

def shown(P, R):
    S = Stages(P)
    I, res, _ = explore_main(P, S, 2)
    seen = set()
    for st in res:
        r = records(P, S, I, st)
        syn = [t for k, t, ts, e in r['stages'] if k == 'syntax']
        sem = [t for k, t, ts, e in r['stages'] if k == 'semantic']
        outs = [e for e in st.events() if e[0] == 'call' and any(w in e[1] for w in ('_eprint', '_print', 'write_fmt', 'write_all'))]
        def has(x): return any(mentions(I, a, x, 24) for e in outs for y in e[2:] if isinstance(y, tuple) for a in y if isinstance(a, int))
        if syn and r['syntax'] is False:
            R.count('shown_lists')
            if not has(I.mk('f', syn[0], ('n', S.err_ix[0]))): R.bad('main:syntax-errors', 'the script has syntax errors, but they are not printed; ' + fmt_path(I, st))
        if sem and r['semantic'] == 'err':
            R.count('shown_lists')
            if not has(I.mk('f', I.mk('d', sem[0], ('n', 1)), ('n', 0))): R.bad('main:semantic-errors', 'the script has semantic errors, but they are not printed; ' + fmt_path(I, st))
    R.floor('shown_lists', 4)

def check(P, R, tier):
    lists(P, R, tier)
    shown(P, R)
