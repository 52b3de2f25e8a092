"""Operator typing and results."""
from lib import *

RULE = ('Path-sensitive dataflow over the evaluator: for each of the unary and binary operators, every path of the '
        'evaluator on that operator node with both operands evaluated to a value is classified by the operand type '
        'combinations it covers; each combination must have the documented outcome (exact operation on both operands in '
        'written order, the documented comparison of the two, or a type error naming the offending operand).')
ASSUMPTIONS = ['f64 operators and i64::checked_* behave as documented by std',
               'comparison of values itself (Ord/PartialEq of Value) is decided by P23']

ARITH = {'Plus': 'Add', 'Minus': 'Sub', 'Times': 'Mul', 'Div': 'Div', 'Mod': 'Rem'}
ORD = {'Lower': {-1}, 'LowerEquals': {-1, 0}, 'Greater': {1}, 'GreaterEquals': {0, 1}}
ORDKINDS = ('Int', 'Float', 'Byte', 'String')

def accepted(op, l, r):
    if op in ARITH: return l == r and l in ('Int', 'Float')
    if op in ORD: return l == r and l in ORDKINDS
    if op in ('Equals', 'NotEquals'): return True
    if op == 'Concat': return l == r == 'String'
    if op in ('And', 'Or'): return l == r == 'Bool'
    raise KeyError(op)

def left_ok(op, l): return any(accepted(op, l, r) for r in ('Nil', 'Bool', 'Byte', 'Int', 'Float', 'String'))

def payload(I, E, vt, kind):
    """term of the payload of a value known to be `kind`"""
    i = E.kinds.index(kind)
    t = I.mk('f', I.mk('d', vt, ('n', i)), ('n', 0))
    if kind == 'Float': t = I.mk('f', t, ('n', 0))
    return t

def result_payload(I, E, st, v, kind):
    """payload term of a result value of the given kind, None when it is not of that kind"""
    if v[0] == 's':
        vs = vnames(I, st, v, E.value_ti)
        if vs != {kind}: return None
        v = I.expand(st, v, E.kinds.index(kind))
    if vname(I, v) != kind: return None
    p = v[3][0]
    if kind == 'Float':
        if p[0] == 's': p = I.expand(st, p)
        p = p[3][0]
    return I.term(st, p)

def check(P, R, tier):
    E = Eval(P)
    bop = need(ty(P, 'semantic::program::BinaryOp'), 'BinaryOp')
    uop = need(ty(P, 'semantic::program::UnaryOp'), 'UnaryOp')
    names = [v['n'] for v in P.types[bop]['v']]
    want = list(ARITH) + list(ORD) + ['Equals', 'NotEquals', 'Concat', 'And', 'Or']
    for n in want:
        if n not in names: R.bad('op:' + n, 'operator %s does not exist in the program representation' % n)
    for i, op in enumerate(names):
        if op not in want:
            R.bad('op:' + op, 'operator %s has no documented typing' % op); continue
        I, res = E.explore('expr', 'BinaryOp', presets={'op': lambda I, o: ('a', bop, i, ())})
        binary(E, R, I, res, op)
    for i, v in enumerate(P.types[uop]['v']):
        I, res = E.explore('expr', 'UnaryOp', presets={'op': lambda I, o: ('a', uop, i, ())})
        unary(E, R, I, res, v['n'])
    R.floor('type_combinations', 900)
    R.floor('operators', 17)

def operand_steps(E, I, st, names):
    out = {}
    for e in st.events():
        if e[0] == 'eval' and e[1] == 'expr':
            for n in names:
                if e[2] == E.node_term(I, n): out[n] = e[3]
    return out

def fits(I, st, E, vt, kind):
    return kind in vnames(I, st, ('s', vt, E.value_ti), E.value_ti)

def binary(E, R, I, res, op):
    R.count('operators')
    cov = {}
    for st in res:
        if st.end == 'infeasible': continue
        R.count('paths')
        steps = operand_steps(E, I, st, ('left', 'right'))
        if 'left' not in steps:
            if st.end == 'return': R.bad('binary:%s:left-not-evaluated' % op, 'a path of %s ends without evaluating its left operand: %s' % (op, fmt_path(I, st)))
            continue
        if E.step_outcome(I, st, steps['left'], 'expr') != 'Regular': continue
        LT = E.regular_value(I, steps['left'], 'expr')[1]
        if 'right' in steps:
            if E.step_outcome(I, st, steps['right'], 'expr') != 'Regular': continue
            RT = E.regular_value(I, steps['right'], 'expr')[1]
        else: RT = None
        o = E.outcome(I, st, 'expr')
        for l in E.kinds:
            if not fits(I, st, E, LT, l): continue
            for r in (E.kinds if RT is not None else [None]):
                if r and not fits(I, st, E, RT, r): continue
                cov.setdefault((l, r), []).append(st)
                R.count('type_combinations')
                judge(E, R, I, st, op, l, r, LT, RT, o)
    for l in E.kinds:
        for r in E.kinds:
            if (l, r) not in cov and (l, None) not in cov:
                R.bad('binary:%s:%s:%s:none' % (op, l, r), 'no path of %s handles operands of types %s and %s' % (op, l, r))
            if accepted(op, l, r) and (l, r) in cov and not any(E.outcome(I, s, 'expr')[0] == 'flow' for s in cov[(l, r)]):
                R.bad('binary:%s:%s:%s:never' % (op, l, r), '%s on %s and %s never yields a value' % (op, l, r))

def judge(E, R, I, st, op, l, r, LT, RT, o):
    key = 'binary:%s:%s:%s' % (op, l, r)
    where = '%s on (%s, %s)' % (op, l, r or 'unevaluated')
    def bad(m): R.bad(key, '%s %s; %s' % (where, m, fmt_path(I, st)))
    if st.end in ('rpanic', 'diverge', 'unreachable'):
        return bad('crashes the interpreter')
    if st.end == 'cut': return bad('could not be followed to its end')
    # --- short-circuit: result decided by the left operand
    if r is None:
        if op in ('And', 'Or'):
            if l == 'Bool':
                lb = st.facts.get(payload(I, E, LT, 'Bool'))
                decided = {'And': 0, 'Or': 1}[op]
                if lb != decided: return bad('ends without evaluating the right operand although the left one does not decide the result')
                if o[0] != 'flow' or o[1] != 'Regular': return bad('does not yield a value')
                rp = result_payload(I, E, st, o[2], 'Bool')
                if rp is None or beval(I, st, rp, lambda k, t: None) != decided: return bad('short-circuits to a result other than %s' % bool(decided))
                return
        elif left_ok(op, l): return bad('ends without evaluating the right operand')
        return type_error(I, st, E, o, LT, RT, op, l, r, bad)
    if not accepted(op, l, r):
        return type_error(I, st, E, o, LT, RT, op, l, r, bad)
    if op in ARITH:
        a, b = payload(I, E, LT, l), payload(I, E, RT, r)
        base = ARITH[op]
        if o[0] == 'panic':
            n = panic_name(I, o[1])
            if l == 'Float': return bad('raises %s' % n)
            if n not in ('IntegerOverflow', 'DivisionByZero'): return bad('raises %s' % n)
            if not overflow_known(I, st, base, a, b): return bad('raises %s although the operation may be defined there' % n)
            if n == 'DivisionByZero':
                if base not in ('Div', 'Rem'): return bad('raises DivisionByZero')
                if not zero_known(I, st, b): return bad('raises DivisionByZero although the divisor may be non-zero (overflow)')
            if n == 'IntegerOverflow' and base in ('Div', 'Rem') and not nonzero_known(I, st, b):
                return bad('raises IntegerOverflow although the divisor may be zero')
            return
        if o[0] != 'flow' or o[1] != 'Regular': return bad('does not yield a value')
        rp = result_payload(I, E, st, o[2], l)
        if rp is None: return bad('yields %s, not a value of type %s' % (I.show(o[2], 4), l))
        form = arith_form(I, st, rp)
        if form is None: return bad('yields something that is not the exact %s of its operands: %s' % (base, I.show(rp, 5)))
        if l == 'Float' and form[0].startswith('f'): form = (form[0][1:], form[1])
        ca, cb = canon(I, st, a), canon(I, st, b)
        form = (form[0], tuple(canon(I, st, x) for x in form[1]))
        exp = [(base, (ca, cb))] + ([(base, (cb, ca))] if base in ('Add', 'Mul') else [])
        if form not in exp: return bad('yields %s of operands %s, expected %s(left, right)' % (form[0], [I.show(x, 3) for x in form[1]], base))
        if l == 'Int' and any(e[0] == 'assert' for e in st.events()): return bad('relies on an arithmetic check that aborts the interpreter')
        return
    if o[0] == 'panic': return bad('raises %s' % panic_name(I, o[1]))
    if o[0] != 'flow' or o[1] != 'Regular': return bad('does not yield a value')
    if op in ORD:
        rp = result_payload(I, E, st, o[2], 'Bool')
        if rp is None: return bad('does not yield a bool')
        a, b = payload(I, E, LT, l), payload(I, E, RT, r)
        for c in (-1, 0, 1):
            leaf = ordleaf(I, LT, RT, a, b, c)
            if not consistent(I, st, leaf): continue
            R.count('ordering_cases')
            t = beval(I, st, rp, leaf)
            if t is None: return bad('yields something that is not decided by the order of its operands: %s' % I.show(rp, 7))
            if bool(t) != (c in ORD[op]): return bad('yields %s when left is %s right' % (bool(t), {-1: 'lower than', 0: 'equal to', 1: 'greater than'}[c]))
        return
    if op in ('Equals', 'NotEquals'):
        rp = result_payload(I, E, st, o[2], 'Bool')
        if rp is None: return bad('does not yield a bool')
        for c in (0, 1):
            leaf = eqleaf(I, LT, RT, c)
            if not consistent(I, st, leaf): continue
            t = beval(I, st, rp, leaf)
            if t is None:
                # values of different constructors are never equal
                if l != r and not c: continue
                return bad('yields something that is not decided by the equality of its operands: %s' % I.show(rp, 7))
            if l != r and c: continue
            if bool(t) != (bool(c) == (op == 'Equals')): return bad('yields %s for %s operands' % (bool(t), 'equal' if c else 'different'))
        return
    if op == 'Concat':
        v = o[2]
        if v[0] != 'a' or vname(I, v) != 'String': return bad('does not yield a string')
        t = I.term(st, v, 12)
        if leaves(I, t, {LT, RT}) != [LT, RT]: return bad('yields %s, which is not left followed by right' % I.show(t, 9))
        return
    if op in ('And', 'Or'):
        lb = st.facts.get(payload(I, E, LT, 'Bool'))
        und = {'And': 1, 'Or': 0}[op]
        if lb != und: return bad('evaluates the right operand although the left one decides')
        if o[2] == ('s', RT, E.value_ti): return
        rp = result_payload(I, E, st, o[2], 'Bool')
        if rp is None: return bad('does not yield a bool')
        pr = payload(I, E, RT, 'Bool')
        for c in (0, 1):
            leaf = lambda k, t: c if t == pr else None
            if not consistent(I, st, leaf): continue
            t = beval(I, st, rp, leaf)
            if t is None or bool(t) != bool(c): return bad('does not yield the right operand')
        return

def type_error(I, st, E, o, LT, RT, op, l, r, bad):
    if o[0] != 'panic': return bad('yields %s instead of a type error' % (I.show(o[2], 5) if len(o) > 2 and o[2] else o[:2],))
    n = panic_name(I, o[1])
    if n != 'TypeError': return bad('raises %s instead of a type error' % n)
    vt = I.term(st, o[1][3][0])
    wantv = RT if left_ok(op, l) else LT
    if vt != wantv and not (wantv == LT and vt == RT and not any(accepted(op, x, r) for x in E.kinds)):
        return bad('raises a type error that blames the wrong operand')

def overflow_known(I, st, base, a, b):
    """the path knows that the exact operation has no result"""
    if base in ('Div', 'Rem') and zero_known(I, st, b): return True
    if base in ('Div', 'Rem') and st.facts.get(b) == (1 << 64) - 1 and st.facts.get(a) == 1 << 63: return True
    a, b = canon(I, st, a), canon(I, st, b)
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] == 'disc' and v == 0:
            c = I.T.t[kk[1]]
            if c[0] == 'call' and c[1].split('::')[-1] == 'checked_' + base.lower() and tuple(canon(I, st, strip_ref(I, x)) for x in c[2]) in ((a, b), (b, a) if base in ('Add', 'Mul') else (a, b)): return True
        if kk[0] == 'f' and kk[2] == ('n', 1) and v == 1:
            c = I.T.t[kk[1]]
            if c[0] == 'call' and c[1].split('::')[-1] == 'overflowing_' + base.lower(): return True
    return False

def zero_known(I, st, b): return st.facts.get(b) == 0
def nonzero_known(I, st, b):
    return 0 in st.nots.get(b, ()) or st.facts.get(b, 0) != 0

def ordleaf(I, LT, RT, a, b, c):
    def leaf(k, t):
        if k[0] == 'disc':
            q = I.T.t[k[1]]
            if q[0] == 'vcmp':
                x, y = strip_ref(I, q[1]), strip_ref(I, q[2])
                if (x, y) in ((LT, RT),): return c & 0xff
                if (x, y) == (RT, LT): return (-c) & 0xff
        if k[0] == 'veq' and {strip_ref(I, k[1]), strip_ref(I, k[2])} == {LT, RT}: return int(c == 0)
        if k[0] in ('Lt', 'Le', 'Eq') and {k[1], k[2]} == {a, b}:
            d = c if k[1] == a else -c
            return int({'Lt': d < 0, 'Le': d <= 0, 'Eq': d == 0}[k[0]])
        return None
    return leaf

def eqleaf(I, LT, RT, c):
    def leaf(k, t):
        if k[0] == 'veq' and {strip_ref(I, k[1]), strip_ref(I, k[2])} == {LT, RT}: return c
        if k[0] == 'disc':
            q = I.T.t[k[1]]
            if q[0] == 'vcmp' and {strip_ref(I, q[1]), strip_ref(I, q[2])} == {LT, RT}: return 0 if c else 1
        return None
    return leaf

def consistent(I, st, leaf):
    """are the recorded facts of the path compatible with the assumed case?"""
    for t, v in st.facts.items():
        r = leaf(I.T.t[t], t)
        if r is not None and r != v: return False
    for t, vs in st.nots.items():
        r = leaf(I.T.t[t], t)
        if r is not None and r in vs: return False
    return True

def unary(E, R, I, res, op):
    R.count('operators')
    seen = {}
    for st in res:
        if st.end == 'infeasible': continue
        R.count('paths')
        steps = operand_steps(E, I, st, ('operand',))
        if 'operand' not in steps:
            R.bad('unary:%s:not-evaluated' % op, 'a path of unary %s ends without evaluating its operand: %s' % (op, fmt_path(I, st))); continue
        if E.step_outcome(I, st, steps['operand'], 'expr') != 'Regular': continue
        VT = E.regular_value(I, steps['operand'], 'expr')[1]
        o = E.outcome(I, st, 'expr')
        for k in E.kinds:
            if not fits(I, st, E, VT, k): continue
            R.count('type_combinations')
            seen.setdefault(k, []).append(o[0])
            key = 'unary:%s:%s' % (op, k)
            def bad(m): R.bad(key, 'unary %s on %s %s; %s' % (op, k, m, fmt_path(I, st)))
            if st.end != 'return': bad('crashes the interpreter or could not be followed (%s)' % st.end); continue
            if op == 'Try':
                if o[0] != 'flow' or o[1] != ('Return' if k == 'Error' else 'Regular') or I.term(st, o[2]) != VT:
                    bad('gives %s, expected %s of the operand' % (o[:2], 'a return' if k == 'Error' else 'the value'))
                continue
            ok = {'Minus': ('Int', 'Float'), 'Not': ('Bool',)}[op]
            if k not in ok:
                if o[0] != 'panic' or panic_name(I, o[1]) != 'TypeError' or I.term(st, o[1][3][0]) != VT: bad('does not raise a type error about its operand')
                continue
            p = payload(I, E, VT, k)
            if o[0] == 'panic':
                if panic_name(I, o[1]) == 'IntegerOverflow' and k == 'Int' and neg_undefined(I, st, p): continue
                bad('raises %s' % panic_name(I, o[1])); continue
            if o[0] != 'flow' or o[1] != 'Regular': bad('does not yield a value'); continue
            rp = result_payload(I, E, st, o[2], k)
            if rp is None: bad('does not yield a value of type %s' % k); continue
            if op == 'Not':
                for c in (0, 1):
                    leaf = lambda kk, t: c if t == p else None
                    if consistent(I, st, leaf) and beval(I, st, rp, leaf) != 1 - c: bad('does not yield the negation')
                continue
            f = arith_form(I, st, rp)
            if f and f[0].startswith('f'): f = (f[0][1:], f[1])
            if f: f = (f[0], tuple(canon(I, st, x) for x in f[1]))
            p = canon(I, st, p)
            if f not in (('Neg', (p,)), ('Sub', (I.mk('k', ('n', 0)), p))): bad('yields something that is not its negation: %s' % I.show(rp, 6)); continue
            if k == 'Int' and any(e[0] == 'assert' for e in st.events()): bad('aborts the interpreter or wraps for the smallest integer')
    for k in E.kinds:
        if k not in seen: R.bad('unary:%s:%s' % (op, k), 'no path of unary %s handles %s' % (op, k))

def neg_undefined(I, st, p):
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] == 'disc' and v == 0:
            c = I.T.t[kk[1]]
            if c[0] == 'call' and c[1].split('::')[-1] in ('checked_neg', 'checked_sub') and canon(I, st, p) in [canon(I, st, strip_ref(I, x)) for x in c[2]]: return True
    return st.facts.get(p) == 1 << 63
